package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
)

// trace writes the events for one module of the specification, to a row of
// files which are cut between independent scenarios only.
type trace struct {
	module string
	n      int // files
	size   int // of the file so far
	limit  int
	f      *os.File
	w      *bufio.Writer
	ev     []byte
	events int
	what   string  // scenario, for the report of a hang
	mem    *[]byte // events of one of several scenarios that run together
}

// aside is a trace for a scenario that runs beside others; join adds it to
// t when it is over.
func (t *trace) aside() *trace {
	return &trace{module: t.module, mem: new([]byte)}
}
func (t *trace) join(a *trace) {
	t.boundary()
	mu.Lock()
	defer mu.Unlock()
	if len(*a.mem) > 0 {
		t.write(*a.mem)
		t.events += a.events - 1
	}
}

var (
	mu     sync.Mutex
	traces = map[string]*trace{}
	stats  = map[string]int64{}
	notes  = map[string]interface{}{}
)

// alone is false while goroutines run which must not be synchronised.
var alone = true

func count(name string, n int) {
	if !alone {
		return
	}
	mu.Lock()
	stats[name] += int64(n)
	mu.Unlock()
}

func open(module string, limit int) *trace {
	mu.Lock()
	defer mu.Unlock()
	t := traces[module]
	if t == nil {
		t = &trace{module: module, limit: limit}
		traces[module] = t
	}
	return t
}

func (t *trace) roll() {
	if t.f != nil {
		t.w.Flush()
		t.f.Close()
		t.f = nil
	}
}

// boundary says that what follows does not depend on what came before.
func (t *trace) boundary() {
	if t.mem != nil {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	if t.size >= t.limit {
		t.roll()
	}
}

// new begins an event; the methods below add fields; end writes it.
func (t *trace) new(op string) *trace {
	t.ev = append(t.ev[:0], `{"op":"`...)
	t.ev = append(t.ev, op...)
	t.ev = append(t.ev, '"')
	return t
}
func (t *trace) key(k string) {
	t.ev = append(t.ev, ',', '"')
	t.ev = append(t.ev, k...)
	t.ev = append(t.ev, '"', ':')
}
func (t *trace) raw(k, v string) *trace {
	t.key(k)
	t.ev = append(t.ev, v...)
	return t
}
func (t *trace) str(k, v string) *trace {
	t.key(k)
	b, _ := json.Marshal(v)
	t.ev = append(t.ev, b...)
	return t
}
func (t *trace) num(k string, v int) *trace {
	t.key(k)
	t.ev = strconv.AppendInt(t.ev, int64(v), 10)
	return t
}
func (t *trace) yes(k string, v bool) *trace {
	t.key(k)
	t.ev = strconv.AppendBool(t.ev, v)
	return t
}
func (t *trace) bytes(k string, v []byte) *trace {
	t.key(k)
	t.ev = appendBytes(t.ev, v)
	return t
}
func (t *trace) ints(k string, v []int) *trace {
	t.key(k)
	t.ev = appendInts(t.ev, v)
	return t
}
func (t *trace) list(k string, v [][]byte) *trace {
	t.key(k)
	t.ev = append(t.ev, '[')
	for i, b := range v {
		if i > 0 {
			t.ev = append(t.ev, ',')
		}
		t.ev = appendBytes(t.ev, b)
	}
	t.ev = append(t.ev, ']')
	return t
}
func appendBytes(ev, v []byte) []byte {
	ev = append(ev, '[')
	for i, b := range v {
		if i > 0 {
			ev = append(ev, ',')
		}
		ev = strconv.AppendInt(ev, int64(b), 10)
	}
	return append(ev, ']')
}
func appendInts(ev []byte, v []int) []byte {
	ev = append(ev, '[')
	for i, b := range v {
		if i > 0 {
			ev = append(ev, ',')
		}
		ev = strconv.AppendInt(ev, int64(b), 10)
	}
	return append(ev, ']')
}

func (t *trace) end() {
	if t.mem != nil {
		// no synchronisation here: it would hide data races
		*t.mem = append(append(*t.mem, t.ev...), '}', '\n')
		t.events++
		return
	}
	beat.Add(1)
	mu.Lock()
	defer mu.Unlock()
	t.write(append(t.ev, '}', '\n'))
}

func (t *trace) write(line []byte) {
	if t.f == nil {
		name := filepath.Join(*outDir, fmt.Sprintf("%s-%03d.ndjson", t.module, t.n))
		f, err := os.Create(name)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		t.n++
		t.f, t.w, t.size = f, bufio.NewWriterSize(f, 1<<16), 0
	}
	t.size += len(line)
	t.events++
	t.w.Write(line)
}

// scenario names what is tried from here on.
func (t *trace) scenario(what string) {
	if t.mem != nil {
		return
	}
	if late() {
		panic(tooLate{})
	}
	mu.Lock()
	stats["scenarios"]++
	t.what = what
	current = t
	mu.Unlock()
	beat.Add(1)
}

var current *trace

// abort ends the run because the code under test does not come back; the
// event it writes is one that no specification has.
func abort(why string) {
	mu.Lock()
	if current != nil {
		b, _ := json.Marshal(current.what)
		current.write([]byte(fmt.Sprintf(`{"op":"abort","why":"%s","what":%s}`+"\n", why, b)))
	}
	for _, t := range traces {
		t.roll()
	}
	os.Exit(3)
}

func closeAll() {
	mu.Lock()
	defer mu.Unlock()
	for _, t := range traces {
		stats["events_"+t.module] += int64(t.events)
		t.roll()
	}
}

func writeStats() {
	b, _ := json.Marshal(map[string]interface{}{"stats": stats, "notes": notes})
	os.WriteFile(filepath.Join(*outDir, "stats.json"), b, 0o666)
}

// guard runs f, which calls the code under test, and records a panic of it
// as an event that no specification has.
func (t *trace) guard(what string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(tooLate); ok {
				panic(p)
			}
			var lines []string
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.Contains(l, "go_hangul") || strings.Contains(l, "/repo/") {
					lines = append(lines, strings.TrimSpace(l))
				}
			}
			if len(lines) > 6 {
				lines = lines[:6]
			}
			t.new("panic").str("what", what).str("msg", fmt.Sprint(p)).str("stack", strings.Join(lines, " | ")).end()
			ok = false
		}
	}()
	f()
	return true
}
