package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
)

// large is a function that gives a result of any size.
type large struct {
	name, module, kind string
	f                  func([]byte) ([]byte, error)
	text               func(string) string // instead of f: the result is a string
}

var largeFns = []large{
	{"From", "TraceCodec", "dec", cp949.From, nil},
	{"To", "TraceCodec", "enc", cp949.To, nil},
	{"Decoder.Bytes", "TraceCodec", "dec", func(b []byte) ([]byte, error) { return cp949.NewCP949Encoding().NewDecoder().Bytes(b) }, nil},
	{"Encoder.Bytes", "TraceCodec", "enc", func(b []byte) ([]byte, error) { return cp949.NewCP949Encoding().NewEncoder().Bytes(b) }, nil},
	{"Encoder.String", "TraceCodec", "enc", nil, func(s string) string {
		v, err := cp949.NewCP949Encoding().NewEncoder().String(s)
		if err != nil {
			return "error"
		}
		return v
	}},
	{"Decoder.String", "TraceCodec", "dec", nil, func(s string) string {
		v, err := cp949.NewCP949Encoding().NewDecoder().String(s)
		if err != nil {
			return "error"
		}
		return v
	}},
	{"ReadAll", "TraceCodec", "dec", func(b []byte) ([]byte, error) {
		r, err := cp949.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	}, nil},
	{"NewWriter", "TraceCodec", "enc", func(b []byte) ([]byte, error) {
		var out bytes.Buffer
		w, err := cp949.NewWriter(&out)
		for k := 5000; err == nil && len(b) > 0; b = b[k:] {
			if k > len(b) {
				k = len(b)
			}
			_, err = w.Write(b[:k])
		}
		return out.Bytes(), err
	}, nil},
	{"Convert", "TraceHanja", "enc", nil, hanja.Convert},
	// of the word before the postposition, which is as it was given
	{"AppendPostposition", "TraceWords", "enc", nil, func(s string) string { return hangul.AppendPostposition(s, "\x00을\x01", "\x00를\x01") }},
}

// largeCall is a call of one, of pre, n times u, and post.
type largeCall struct {
	large
	pre, u, post string
	n            int
}

type largeResult struct {
	vp, vu, vq []byte
	out        []byte
	str        string
	e          string
}

func someLarge(top int) largeCall {
	c := largeCall{large: largeFns[rng.Intn(len(largeFns))]}
	size := 1 << uint(rng.Intn(top+1))
	size += rng.Intn(size)
	c.u = pieces(c.kind)
	if c.module == "TraceWords" {
		c.u = []string{"가", "a", "말 ", "😀"}[rng.Intn(4)]
		c.post = []string{"각", "가", "z"}[rng.Intn(3)]
	} else {
		if rng.Intn(2) == 0 {
			c.pre = pieces(c.kind)
		}
		if rng.Intn(2) == 0 {
			c.post = pieces(c.kind)
		}
	}
	c.n = 1 + size/len(c.u)
	return c
}

func (c largeCall) one(s string) ([]byte, string, error) {
	if c.text != nil {
		return nil, c.text(s), nil
	}
	b, err := c.f([]byte(s))
	return b, "", err
}

func (c largeCall) do() (r largeResult) {
	part := func(s string) []byte {
		b, v, err := c.one(s)
		if err != nil {
			return []byte("error")
		}
		return append(clone(b), v...)
	}
	if c.module == "TraceWords" {
		r.vp, r.vu, r.vq = nil, []byte(c.u), part(c.post)
	} else {
		r.vp, r.vu, r.vq = part(c.pre), part(c.u), part(c.post)
	}
	b, s, err := c.one(c.pre + strings.Repeat(c.u, c.n) + c.post)
	r.out, r.str, r.e = b, s, errName(err)
	return r
}

// look records the result as it is now.
func (c largeCall) look(t *trace, r largeResult) {
	out := r.out
	if c.text != nil {
		out = []byte(r.str)
	}
	m, k := -1, len(r.vp)+c.n*len(r.vu)
	if len(out) == k+len(r.vq) && bytes.HasPrefix(out, r.vp) && bytes.Equal(out[len(r.vp):k], bytes.Repeat(r.vu, c.n)) {
		m = c.n
	}
	if c.module == "TraceWords" {
		v := out
		if m == c.n {
			v = out[k:]
		} else if len(v) > 1000 {
			v = v[:1000]
		}
		if m == c.n && !bytes.Equal(v, r.vq) {
			m = -1
		}
		t.new("appbig").bytes("u", []byte(c.u)).num("n", c.n).num("m", m).bytes("w", []byte(c.post)).bytes("a", []byte("\x00을\x01")).bytes("b", []byte("\x00를\x01")).bytes("v", v).end()
		return
	}
	t.new("big").str("f", c.name).str("kind", c.kind).bytes("pre", []byte(c.pre)).bytes("u", []byte(c.u)).num("n", c.n).bytes("post", []byte(c.post)).
		bytes("vp", r.vp).bytes("vu", r.vu).bytes("vq", r.vq).num("m", m).num("len", len(out)).str("e", r.e).end()
}

// overwrite is what the owner of a slice may do.
func (r largeResult) overwrite() {
	b := r.out[:cap(r.out)]
	for i := range b {
		b[i] = 'X'
	}
}

func largeTraces() map[string]*trace {
	return map[string]*trace{"TraceCodec": open("TraceCodec", 400000), "TraceHanja": open("TraceHanja", 400000), "TraceWords": open("TraceWords", 400000)}
}

// holds keeps large results, and looks at them again after other calls.
func holds(steps, top int) {
	ts := largeTraces()
	type item struct {
		c largeCall
		r largeResult
	}
	var held []item
	var last largeCall
	for i := 0; i < steps; i++ {
		c := someLarge(top)
		if i > 0 && rng.Intn(2) == 0 {
			// the same function once more, for about as much
			n := last.n + rng.Intn(3) - 1
			if rng.Intn(2) == 0 {
				n = 1 + last.n/2
			}
			for c.name != last.name {
				c = someLarge(top)
			}
			c.n = 1 + n*len(last.u)/len(c.u)
		}
		last = c
		t := ts[c.module]
		t.boundary()
		what := fmt.Sprintf("%s of %q, %d times %q, and %q, held", c.name, c.pre, c.n, c.u, c.post)
		t.scenario(what)
		beat.Add(1)
		t.guard(what, func() { held = append(held, item{c, c.do()}) })
		k := 6
		if i == steps-1 {
			k = 0
		}
		for len(held) > k {
			j := rng.Intn(len(held))
			ts[held[j].c.module].boundary()
			held[j].c.look(ts[held[j].c.module], held[j].r)
			if rng.Intn(2) == 0 {
				held[j].r.overwrite()
			}
			held = append(held[:j], held[j+1:]...)
		}
		count("calls", 4)
		count("held_large", 1)
	}
}

// inTurn lets each function give results of each magnitude, and after each
// of them some that are smaller, and of the same length.
func inTurn(top int) {
	ts := largeTraces()
	for _, fn := range largeFns {
		t := ts[fn.module]
		for k := 4; k <= top; k++ {
			var cs []largeCall
			for _, n := range []int{1 << uint(k), 1<<uint(k) - 1, 1 << uint(k), 1 << uint(k-1), 1 << uint(k-3), 1<<uint(k) + 1} {
				c := someLarge(1)
				for c.name != fn.name {
					c = someLarge(1)
				}
				c.n = 1 + (n-len(c.pre)-len(c.post))/len(c.u)
				if c.n < 1 {
					c.n = 1
				}
				cs = append(cs, c)
			}
			t.boundary()
			t.scenario(fmt.Sprintf("%s, results of about %d bytes held over others", fn.name, 1<<uint(k)))
			beat.Add(1)
			t.guard(fn.name, func() {
				var rs []largeResult
				for _, c := range cs {
					rs = append(rs, c.do())
				}
				for i, c := range cs {
					c.look(t, rs[i])
					rs[i].overwrite()
				}
			})
			count("held_large", len(cs))
		}
	}
}

// hotLarge lets goroutines make large calls of one function over and over;
// what differs from what the call gave alone is recorded.
func hotLarge(budget time.Duration, top int) {
	ts := largeTraces()
	const workers = 16
	for _, fn := range largeFns {
		t := ts[fn.module]
		t.boundary()
		t.scenario("the same large calls again and again, of " + fn.name)
		cs := make([]largeCall, workers)
		rs := make([]largeResult, workers)
		late := make([]*trace, workers)
		size := 1 << uint(12+rng.Intn(top-11))
		for g := range cs {
			for cs[g].name != fn.name {
				cs[g] = someLarge(1)
			}
			cs[g].n = 1 + size/len(cs[g].u)
			late[g] = t.aside()
			rs[g] = cs[g].do()
			cs[g].look(t, rs[g])
			rs[g].out = clone(rs[g].out)
		}
		alone = false
		var wg sync.WaitGroup
		end := time.Now().Add(budget)
		for g := range cs {
			wg.Add(1)
			go func(c largeCall, was largeResult, t *trace) {
				defer wg.Done()
				in := c.pre + strings.Repeat(c.u, c.n) + c.post
				for found := 0; found < 3 && time.Now().Before(end); {
					t.guard(fn.name+" of much, beside others", func() {
						b, s, err := c.one(in)
						if errName(err) == was.e && s == was.str && bytes.Equal(b, was.out) {
							return
						}
						found++
						r := was
						r.out, r.str, r.e = b, s, errName(err)
						c.look(t, r)
					})
				}
			}(cs[g], rs[g], late[g])
		}
		wait(&wg)
		for g := range late {
			t.join(late[g])
		}
		count("held_large", workers)
	}
}

// wait gives up where the goroutines do not end.
func wait(wg *sync.WaitGroup) {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(*stall):
		abort("hang")
	}
	alone = true
	beat.Add(1)
}

// holdsTogether does this in goroutines.
func holdsTogether(rounds, each, top int) {
	ts := largeTraces()
	const workers = 8
	for round := 0; round < rounds; round++ {
		jobs := make([][]largeCall, workers)
		only := someLarge(top)
		for g := range jobs {
			for k := 0; k < each; k++ {
				c := someLarge(top)
				for round%2 == 0 && c.name != only.name {
					c = someLarge(top)
				}
				jobs[g] = append(jobs[g], c)
			}
		}
		for _, t := range ts {
			t.boundary()
		}
		ts[only.module].scenario("large conversions at the same time")
		late := make([]map[string]*trace, workers)
		alone = false
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range jobs {
			late[g] = map[string]*trace{}
			for m, t := range ts {
				late[g][m] = t.aside()
			}
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for _, c := range jobs[g] {
					t := late[g][c.module]
					t.guard(c.name+" of much, beside others", func() {
						r := c.do()
						if g%2 == 0 {
							runtime.Gosched()
						}
						c.look(t, r)
						r.overwrite()
					})
				}
			}(g)
		}
		close(start)
		wait(&wg)
		for g := range late {
			for m, t := range ts {
				t.join(late[g][m])
			}
			count("held_large", each)
		}
	}
}

// giants are calls that work on so much that a function may use goroutines
// of its own.
func giants(top, each int) {
	ts := largeTraces()
	for _, fn := range largeFns {
		t := ts[fn.module]
		for k := 14; k <= top; k++ {
			t.boundary()
			t.scenario("large calls of " + fn.name)
			for i := 0; i < each; i++ {
				c := someLarge(1)
				for c.name != fn.name {
					c = someLarge(1)
				}
				if i == 0 && fn.name == "Convert" {
					c.u = "大國이 小民을 "
				}
				c.n = (1<<uint(k) + rng.Intn(1<<uint(k))) / len(c.u)
				t.guard(fn.name+" of much", func() { c.look(t, c.do()) })
			}
		}
	}
}
