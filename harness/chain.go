package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"

	"github.com/suapapa/go_hangul/encoding/cp949"
)

// wire is a channel between a Writer and a Reader, which holds what it is
// given and gives it away in pieces of any size.
type wire struct {
	mu     sync.Mutex
	cond   *sync.Cond
	t      *trace
	buf    []byte
	room   int // blocks who writes when it holds so many bytes
	closed bool
	busy   bool // a Write is under way
	asking bool // a Read waits, and there is nothing
	rnd    *rand.Rand
	blanks int
}

func newWire(t *trace) *wire {
	c := &wire{t: t, room: []int{1, 2, 3, 64, 1 << 20}[rng.Intn(5)], rnd: rand.New(rand.NewSource(rng.Int63())), blanks: rng.Intn(2) * 5}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *wire) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := len(p)
	for len(p) > 0 {
		for len(c.buf) >= c.room {
			c.cond.Wait()
		}
		k := c.room - len(c.buf)
		if k > len(p) {
			k = len(p)
		}
		c.buf = append(c.buf, p[:k]...)
		p = p[k:]
		c.cond.Broadcast()
	}
	return n, nil
}

func (c *wire) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(p) == 0 || c.blanks > 0 && c.rnd.Intn(c.blanks) == 0 {
		c.blanks--
		return 0, nil
	}
	noted := false
	for len(c.buf) == 0 && !c.closed {
		if !c.busy && !noted {
			noted = true
			c.t.new("quiet").end()
		}
		c.asking = !c.busy
		c.cond.Broadcast()
		c.cond.Wait()
	}
	c.asking = false
	n := len(c.buf)
	if n > len(p) {
		n = len(p)
	}
	if n > 0 && c.rnd.Intn(2) == 0 {
		n = 1 + c.rnd.Intn(n)
	}
	copy(p, c.buf[:n])
	c.buf = c.buf[n:]
	c.cond.Broadcast()
	if c.closed && len(c.buf) == 0 && (n == 0 || c.rnd.Intn(2) == 0) {
		return n, io.EOF
	}
	return n, nil
}

func (c *wire) Close() error {
	c.mu.Lock()
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
	return nil
}

// throughWire writes text at one end and reads it at the other, at the same
// time.
func throughWire(t *trace, text []byte) {
	var lock sync.Mutex
	var in io.WriteCloser
	var out io.Reader
	var c *wire
	name := "wire"
	switch rng.Intn(8) {
	case 0:
		out, in = io.Pipe()
		name = "io.Pipe"
	case 1:
		a, b := net.Pipe()
		in, out = a, b
		defer b.Close()
		name = "net.Pipe"
	case 2:
		if r, w, err := os.Pipe(); err == nil {
			in, out = w, r
			defer r.Close()
			name = "os.Pipe"
			break
		}
		fallthrough
	default:
		c = newWire(t)
		in, out = c, c
	}
	at := &lock // of the trace and all else that both ends use
	if c != nil {
		at = &c.mu
	}
	at.Lock()
	defer at.Unlock()
	t.boundary()
	what := about("Writer to Reader through "+name, text)
	t.scenario(what)
	t.new("new").str("kind", "enc").str("what", what).end()
	pieces := cutText(text)
	z := someSizes()
	dialogue := c != nil && rng.Intn(2) == 0
	rnd := rand.New(rand.NewSource(rng.Int63()))
	var wg sync.WaitGroup
	wg.Add(2)
	ended := false
	guarded := func(f func()) {
		defer wg.Done()
		defer func() {
			if p := recover(); p != nil {
				at.Lock()
				t.new("panic").str("what", what).str("msg", fmt.Sprint(p)).end()
				at.Unlock()
				in.Close()
			}
		}()
		f()
	}
	go guarded(func() {
		w, err := cp949.NewWriter(in)
		if err != nil {
			panic(err)
		}
		for _, b := range pieces {
			at.Lock()
			for dialogue && !c.asking && !ended {
				c.cond.Wait()
			}
			if c != nil {
				c.busy, c.asking = true, false
			}
			t.new("give").bytes("b", b).str("e", "").end()
			at.Unlock()
			n, err := w.Write(b)
			at.Lock()
			if n != len(b) || err != nil {
				t.new("give").str("failed", fmt.Sprint(n, err)).end()
			}
			if c != nil {
				c.busy = false
				c.cond.Broadcast()
			}
			at.Unlock()
			if rnd.Intn(8) == 0 {
				runtime.Gosched()
			}
		}
		in.Close()
	})
	go guarded(func() {
		defer func() {
			at.Lock()
			ended = true
			if c != nil {
				c.room = 1 << 30 // nobody reads any more
				c.cond.Broadcast()
			}
			at.Unlock()
			if rc, ok := out.(io.Closer); ok && c == nil {
				rc.Close()
			}
		}()
		r, err := cp949.NewReader(out)
		if err != nil {
			panic(err)
		}
		buf := make([]byte, 10000)
		for k := 0; k < 1<<18; k++ {
			at.Lock()
			n := z.next()
			at.Unlock()
			if n > len(buf) {
				n = len(buf)
			}
			n, err := r.Read(buf[:n])
			at.Lock()
			t.new("get").bytes("b", buf[:n]).end()
			if err != nil {
				e := errName(err)
				if err == io.EOF {
					e = ""
				}
				t.new("end").str("e", e).end()
				at.Unlock()
				return
			}
			at.Unlock()
		}
	})
	at.Unlock()
	wg.Wait()
	at.Lock()
	count("chains", 1)
}

// tap records what goes into a Reader and comes out of a Writer.
type tap struct {
	t     *trace
	src   *source
	quiet bool
}

func (p *tap) Read(b []byte) (int, error) {
	if p.quiet {
		p.t.new("quiet").end()
	}
	n, err := p.src.Read(b)
	p.t.new("give").bytes("b", b[:n]).str("e", errName(err)).end()
	return n, err
}
func (p *tap) Write(b []byte) (int, error) {
	p.t.new("get").bytes("b", b).end()
	return len(b), nil
}

type onlyReader struct{ io.Reader }
type onlyWriter struct{ io.Writer }

// copied copies a text from a Reader to a Writer.
func copied(t *trace, text []byte) {
	end := "EOF"
	if rng.Intn(4) == 0 {
		end = endings[rng.Intn(len(endings))]
	}
	ways := []string{"io.Copy", "io.CopyBuffer", "a loop", "io.Copy of bufio.Reader", "io.Copy to bufio.Writer", "io.ReadAll"}
	way := rng.Intn(len(ways))
	what := about(ways[way]+" from Reader to Writer, "+end, text)
	t.boundary()
	t.scenario(what)
	// the source's own trace is not wanted
	p := &tap{t: t, src: &source{t: &trace{mem: new([]byte)}, pieces: script(text, end), end: end, dirty: rng.Intn(2) == 0}, quiet: way < 3}
	t.guard(what, func() {
		t.new("new").str("kind", "dec").str("what", what).end()
		r, err := cp949.NewReader(p)
		if err != nil {
			panic(err)
		}
		w, err := cp949.NewWriter(p)
		if err != nil {
			panic(err)
		}
		size := 1 + rng.Intn(9)
		switch way {
		case 0:
			_, err = io.Copy(w, r)
		case 1:
			_, err = io.CopyBuffer(onlyWriter{w}, onlyReader{r}, make([]byte, size))
		case 2:
			buf := make([]byte, 5000)
			z := someSizes()
			for {
				var n int
				k := z.next()
				if k > len(buf) {
					k = len(buf)
				}
				n, err = r.Read(buf[:k])
				if m, e := w.Write(buf[:n]); e != nil || m != n {
					panic(fmt.Sprint("Write: ", m, e))
				}
				if err != nil {
					break
				}
			}
			if err == io.EOF {
				err = nil
			}
		case 3:
			_, err = io.Copy(w, bufio.NewReaderSize(r, 16+size))
		case 4:
			b := bufio.NewWriterSize(w, 16+size)
			_, err = io.Copy(b, r)
			if e := b.Flush(); e != nil {
				panic(e)
			}
		case 5:
			var all []byte
			all, err = io.ReadAll(r)
			io.Copy(w, bytes.NewReader(all))
		}
		t.new("end").str("e", errName(err)).end()
	})
	count("chains", 1)
}

func init() {
	drivers["C27"] = func() {
		t := open("TraceChain", 900000)
		for i := 0; i < pick(2500, 25000); i++ {
			n := rng.Intn(9)
			switch {
			case i%20 == 0:
				n = someLen(700)
			case i%250 == 0:
				n = 1000 + rng.Intn(3000)
			}
			throughWire(t, someText(n))
			copied(t, someCodes(n))
		}
		for i := 0; i < pick(3, 12); i++ {
			n := 1 << uint(12+rng.Intn(4))
			throughWire(t, bigText("enc", n))
			copied(t, bigText("dec", n))
		}
	}
}
