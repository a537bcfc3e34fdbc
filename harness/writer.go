package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/encoding"
)

// sink is an io.Writer which fails at the calls it is told.
type sink struct {
	t     *trace
	calls int
	fail  map[int]string // by number of the call
	rate  int            // or once in so many calls
	names []string

	meanwhile func()
	dies      int  // panics at this call
	none      bool // takes nothing if it fails
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.calls > 1<<20 {
		panic(runaway{"the sink is written without end"})
	}
	if s.calls == s.dies {
		panic(dead)
	}
	if s.meanwhile != nil {
		s.meanwhile()
	}
	e := s.fail[s.calls]
	if e == "" && s.rate > 0 && rng.Intn(s.rate) == 0 {
		e = sinkErrs[rng.Intn(len(sinkErrs))]
	}
	n := len(p)
	if e != "" && s.none {
		n = 0
	} else if e != "" && n > 0 {
		n = rng.Intn(n + 1)
		if n == len(p) && rng.Intn(2) == 0 {
			n = 0
		}
	}
	s.t.new("sink").bytes("b", p).str("e", e).num("took", n).end()
	return n, errNamed(e)
}

var sinkErrs = []string{"boom", "bang", "PIPE", "EOF", "WEOF", "LIST", "SHORTWRITE", "TRUNC", "SHORTDST", "SHORTSRC", "UEOF", "NOPROGRESS",
	"TEMP", "EINTR", "EAGAIN", "DEADLINE", "CANCELED", "PATH", "CLOSED", "SHORTBUF"}

// put records one Write.
func put(t *trace, w io.Writer, b []byte) (n int, err error) {
	mem := make([]byte, len(b)+8)
	copy(mem, b)
	for i := len(b); i < len(mem); i++ {
		mem[i] = 0xA5
	}
	arg := mem[:len(b)]
	t.new("wbegin").bytes("b", b).end()
	if sw, ok := w.(io.StringWriter); ok && alone && rng.Intn(2) == 0 {
		n, err = sw.WriteString(string(arg))
	} else {
		n, err = w.Write(arg)
	}
	count("writes", 1)
	e := errName(err)
	if !bytes.Equal(arg, b) {
		e = "CHANGED " + e
	}
	for _, x := range mem[len(b):] {
		if x != 0xA5 {
			e = "OVERRUN " + e
		}
	}
	t.new("wret").num("n", n).str("e", e).end()
	// the slice is the caller's
	for i := range mem {
		mem[i] = 0xEE
	}
	return n, err
}

// cutText cuts text into the arguments of Writes.
func cutText(text []byte) [][]byte {
	var ps [][]byte
	for _, p := range script(text, "") {
		ps = append(ps, p.b)
	}
	return ps
}

type maker func(io.Writer) (io.Writer, error)

func encWriter(w io.Writer) (io.Writer, error) { return cp949.NewWriter(w) }
func xWriter(kind string) maker {
	return func(w io.Writer) (io.Writer, error) {
		var e encoding.Encoding = someEncoding()
		if kind == "dec" {
			return decCloser{e.NewDecoder(), w}.open(), nil
		}
		return e.NewEncoder().Writer(w), nil
	}
}

// feed runs one writer; after a failure the caller writes the same again,
// or something else, or goes on.
func feed(t *trace, what, kind string, ps [][]byte, s *sink, closes bool, mk maker) {
	t.boundary()
	t.scenario(what)
	s.t = t
	t.guard(what, func() {
		t.new("new").str("kind", kind).str("what", what).end()
		w, err := mk(dressedSink(s))
		if err != nil {
			t.new("wret").num("n", 0).str("e", "NEW "+err.Error()).end()
			return
		}
		for len(ps) > 0 {
			maybeGC(20000)
			b := ps[0]
			if rf, ok := w.(io.ReaderFrom); ok && s.rate == 0 && s.fail == nil && rng.Intn(2) == 0 {
				// io.Copy and others use this instead of Write
				t.new("wbegin").bytes("b", b).end()
				from, its := oddReader(b)
				n, err := rf.ReadFrom(from)
				if its != nil && err == its {
					err = nil // the source's, not the sink's
				} else if its != nil && err == nil {
					err = errors.New("no error")
				}
				t.new("wret").num("n", int(n)).str("e", errName(err)).end()
				ps = ps[1:]
				continue
			}
			_, err := put(t, w, b)
			if err != nil {
				switch rng.Intn(4) {
				case 0, 1: // again
					if rng.Intn(5) > 0 {
						continue
					}
				case 2:
					put(t, w, input(kind, rng.Intn(3)))
				}
			}
			ps = ps[1:]
		}
		if c, ok := w.(io.Closer); ok && closes {
			t.new("cbegin").end()
			err := c.Close()
			t.new("cret").str("e", errName(err)).end()
		}
	})
	count("writers", 1)
}

var errTheirs = errors.New("the source's")

// oddReader reads b, in one of several ways; it ends with io.EOF, or with the
// error it returns.
func oddReader(b []byte) (io.Reader, error) {
	var r io.Reader = bytes.NewReader(b)
	var its error
	if rng.Intn(4) == 0 {
		its = errTheirs
		r = io.MultiReader(r, iotest.ErrReader(its))
	}
	switch rng.Intn(7) {
	case 0:
		r = iotest.HalfReader(r)
	case 1:
		r = iotest.OneByteReader(r)
	case 2:
		r = iotest.DataErrReader(r)
	case 3:
		r = iotest.DataErrReader(iotest.OneByteReader(r))
	case 4:
		r = &cutReader{b: b, cuts: []int{1 + rng.Intn(4), rng.Intn(3), 1 + rng.Intn(9)}}
		its = nil
	case 5:
		// what comes and its end come together, and then nothing comes
		r = &withEnd{b: b, err: its}
	}
	return r, its
}

// withEnd gives all that it has left and the error at once, if there is room.
type withEnd struct {
	b   []byte
	err error
}

func (w *withEnd) Read(p []byte) (int, error) {
	n := copy(p, w.b)
	w.b = w.b[n:]
	if len(w.b) > 0 {
		return n, nil
	}
	if w.err == nil {
		return n, io.EOF
	}
	return n, w.err
}

// replayWrites turns a behaviour of the specification into Writes and
// failures of the sink.
func replayWrites(t *trace, i int, v vector) {
	s := &sink{t: t, fail: map[int]string{}}
	k := 0
	what := fmt.Sprint("behaviour of the model ", i)
	t.boundary()
	t.scenario(what)
	var ps [][]byte
	for _, ev := range v.Hist {
		switch ev.Op {
		case "wbegin":
			ps = append(ps, clone(ev.B))
		case "sink":
			k++
			if ev.E != "" {
				s.fail[k] = "boom"
			}
		}
	}
	t.guard(what, func() {
		t.new("new").str("kind", "enc").str("what", what).end()
		w, err := encWriter(dressedSink(s))
		if err != nil {
			t.new("wret").num("n", 0).str("e", "NEW "+err.Error()).end()
			return
		}
		for _, b := range ps {
			put(t, w, b)
		}
	})
	count("behaviours", 1)
	count("writers", 1)
}

func init() {
	drivers["C19"] = func() {
		t := open("TraceWriter", 900000)
		for i, v := range loadVectors() {
			replayWrites(t, i, v)
		}
		for i := 0; i < pick(4000, 50000); i++ {
			text := someText(rng.Intn(10))
			feed(t, about("NewWriter", text), "enc", cutText(text), &sink{}, false, encWriter)
		}
		// every cut of a text in two and some in three
		for i := 0; i < pick(60, 500); i++ {
			text := someText(1 + rng.Intn(6))
			for k := 0; k <= len(text); k++ {
				feed(t, about("NewWriter", text), "enc", [][]byte{text[:k], text[k:]}, &sink{}, false, encWriter)
				if k < len(text) {
					j := k + rng.Intn(len(text)-k+1)
					feed(t, about("NewWriter", text), "enc", [][]byte{text[:k], text[k:j], {}, text[j:]}, &sink{}, false, encWriter)
				}
			}
		}
		for i := 0; i < pick(150, 1500); i++ {
			text := someText(someLen(700))
			feed(t, about("NewWriter", text), "enc", cutText(text), &sink{}, false, encWriter)
		}
		for i := 0; i < pick(8, 80); i++ {
			text := someText(2000 + rng.Intn(4000))
			feed(t, about("NewWriter", text), "enc", cutText(text), &sink{}, false, encWriter)
		}
		// much text, in large pieces, or in very many
		for i, n := range bigLens(pick(6, 24)) {
			text := bigText("enc", n)
			var ps [][]byte
			for _, p := range bigScript(text) {
				ps = append(ps, p.b)
			}
			if i%3 == 0 {
				ps = [][]byte{text}
			}
			feed(t, about("NewWriter", text), "enc", ps, &sink{}, false, encWriter)
		}
		for i := 0; i < pick(2, 8); i++ {
			text := bigText("enc", 20000+rng.Intn(pick(8000, 80000)))
			feed(t, about("NewWriter", text), "enc", cutText(text), &sink{}, false, encWriter)
		}
		for _, text := range exactTexts("enc", pick(17, 19)) {
			ps := [][]byte{text}
			if rng.Intn(4) == 0 {
				k := rng.Intn(len(text))
				ps = [][]byte{text[:k], text[k:]}
			}
			feed(t, about("NewWriter", text), "enc", ps, &sink{}, false, encWriter)
		}
		standardSinks()
		slowWriters(pick(60, 200), false)
		bigCodec("C19")
	}
	drivers["C20"] = func() {
		t := open("TraceWriter", 900000)
		slowWriters(pick(60, 200), true)
		for i, v := range loadVectors() {
			replayWrites(t, i, v)
		}
		for i := 0; i < pick(6000, 60000); i++ {
			text := someText(1 + rng.Intn(10))
			feed(t, about("NewWriter, failing sink", text), "enc", cutText(text), &sink{rate: 1 + rng.Intn(5)}, false, encWriter)
		}
		for i := 0; i < pick(1000, 10000); i++ {
			text := someText(1 + rng.Intn(10))
			s := &sink{fail: map[int]string{}}
			for k := rng.Intn(3); k >= 0; k-- {
				s.fail[1+rng.Intn(6)] = sinkErrs[rng.Intn(len(sinkErrs))]
			}
			feed(t, about("NewWriter, failing sink", text), "enc", cutText(text), s, false, encWriter)
		}
		for _, n := range bigLens(pick(3, 12)) {
			text := bigText("enc", n)
			var ps [][]byte
			for _, p := range bigScript(text) {
				ps = append(ps, p.b)
			}
			feed(t, about("NewWriter, failing sink", text), "enc", ps, &sink{rate: 3}, false, encWriter)
		}
		for _, text := range exactTexts("enc", pick(14, 17)) {
			feed(t, about("NewWriter, failing sink", text), "enc", [][]byte{text, []byte("가"), text[:20]}, &sink{rate: 3}, false, encWriter)
		}
		for i := 0; i < pick(100, 1000); i++ {
			text := someText(someLen(700))
			feed(t, about("NewWriter, failing sink", text), "enc", cutText(text), &sink{rate: 2 + rng.Intn(8)}, false, encWriter)
		}
		// Writes of each size
		for n := 1; n < pick(600, 5000); n++ {
			text := bytes.Repeat([]byte(pieces("enc")), n)
			if n%3 == 0 {
				text = someText(n)
			}
			if len(text) > n {
				text = text[:n]
			}
			ps := [][]byte{text, []byte("\xea\xb0\x81"[rng.Intn(3):])}
			if rng.Intn(2) == 0 {
				ps[0], ps[1] = []byte("\xea\xb0\x81"[:1+rng.Intn(3)]), ps[0]
			}
			feed(t, about("NewWriter, failing sink", text), "enc", ps, &sink{rate: 2 + rng.Intn(2)}, false, encWriter)
		}
	}
}

// standardSinks writes to writers of the standard library, and with
// functions which use more than Write.
func standardSinks() {
	t := open("TraceCodec", 900000)
	for i := 0; i < pick(400, 5000); i++ {
		text := someText(someLen(60))
		if i%10 == 0 {
			text = someText(someLen(6000))
		}
		var out bytes.Buffer
		var sb strings.Builder
		var to io.Writer = &out
		done := func() []byte { return out.Bytes() }
		name := "bytes.Buffer"
		given := text
		switch rng.Intn(13) {
		case 9, 10, 11, 12:
			// a writer of this package, or what has one inside
			inner, err := cp949.NewWriter(&out)
			if err != nil {
				panic(err)
			}
			w, err := cp949.NewWriter(&sb)
			if err == nil {
				_, err = w.Write(text)
			}
			t.boundary()
			t.scenario(about("what the next writer is given", text))
			t.new("sunk").str("kind", "enc").bytes("s", text).bytes("v", []byte(sb.String())).str("e", errName(err)).end()
			given = []byte(sb.String())
			switch rng.Intn(3) {
			case 0:
				name, to = "NewWriter", inner
			case 1:
				name, to = "MultiWriter of NewWriter", io.MultiWriter(inner)
			case 2:
				b := bufio.NewWriterSize(inner, 16)
				name, to, done = "bufio.Writer of NewWriter", b, func() []byte { b.Flush(); return out.Bytes() }
			}
		case 1:
			name, to, done = "strings.Builder", &sb, func() []byte { return []byte(sb.String()) }
		case 2:
			b := bufio.NewWriterSize(&out, 16)
			name, to, done = "bufio.Writer", b, func() []byte { b.Flush(); return out.Bytes() }
		case 3:
			name, to = "MultiWriter", io.MultiWriter(&sb, &out)
		case 4:
			pr, pw := io.Pipe()
			end := make(chan []byte)
			go func() {
				b, _ := io.ReadAll(pr)
				end <- b
			}()
			name, to, done = "Pipe", pw, func() []byte { pw.Close(); return <-end }
		case 5:
			f := fileOf(nil)
			name, to, done = "File", f, func() []byte {
				b, err := os.ReadFile(f.Name())
				if err != nil {
					panic(err)
				}
				f.Close()
				os.Remove(f.Name())
				return b[11:]
			}
		case 6:
			z := gzip.NewWriter(&out)
			name, to, done = "gzip.Writer", z, func() []byte {
				z.Close()
				r, err := gzip.NewReader(&out)
				if err != nil {
					panic(err)
				}
				b, _ := io.ReadAll(r)
				return b
			}
		case 7:
			z := base64.NewEncoder(base64.StdEncoding, &sb)
			name, to, done = "base64 encoder", z, func() []byte {
				z.Close()
				b, _ := base64.StdEncoding.DecodeString(sb.String())
				return b
			}
		case 8:
			name, to = "bytes.Buffer with data", &out
			out.WriteString("before")
			done = func() []byte { return bytes.TrimPrefix(out.Bytes(), []byte("before")) }
		}
		how := rng.Intn(8)
		t.boundary()
		t.scenario(about(fmt.Sprint("NewWriter to ", name, " ", how), text))
		t.guard(about("NewWriter to "+name, text), func() {
			w, err := cp949.NewWriter(to)
			if err != nil {
				t.new("sunk").str("kind", "enc").bytes("s", text).bytes("v", nil).str("e", "NEW "+err.Error()).end()
				return
			}
			for _, b := range cutText(text) {
				n := int64(len(b))
				switch how {
				case 0:
					k := 0
					k, err = io.WriteString(w, string(b))
					n = int64(k)
				case 1:
					n, err = io.Copy(w, bytes.NewReader(b))
				case 2:
					n, err = io.Copy(w, strings.NewReader(string(b)))
				case 3:
					n, err = io.CopyBuffer(w, struct{ io.Reader }{bytes.NewReader(b)}, make([]byte, 1+rng.Intn(6)))
				case 4:
					k := 0
					k, err = fmt.Fprintf(w, "%s", b)
					n = int64(k)
				case 6, 7:
					from, its := oddReader(b)
					if n, err = io.Copy(w, from); err == its {
						err = nil
					} else if err == nil {
						err = errors.New("no error")
					}
				case 5:
					bw := bufio.NewWriterSize(w, 16)
					bw.Write(b)
					err = bw.Flush()
				}
				if err == nil && n != int64(len(b)) {
					err = fmt.Errorf("%d of %d", n, len(b))
				}
				if err != nil {
					break
				}
			}
			t.new("sunk").str("kind", "enc").bytes("s", given).bytes("v", done()).str("e", errName(err)).end()
		})
		count("standard_sinks", 1)
	}
}
