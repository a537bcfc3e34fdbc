package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
)

// piece is what a source gives: bytes, and an error after the last of them.
type piece struct {
	b []byte
	e string
}

// source is an io.Reader which follows a script; the error of the last
// piece stays.
type source struct {
	t        *trace
	pieces   []piece
	end      string
	dirty    bool // use all of p as scratch space
	once     bool // give EOF after the error was seen again
	calls    int
	ended    int
	blankEnd int     // give nothing so often before the end
	revive   []piece // what it gives after its end was seen
	wants    []int

	meanwhile func()
	dies      int // panics at this call
}

// dead is what sources and sinks panic with that are told to.
var dead = &struct{ what string }{"the source or sink panics"}

type runaway struct{ what string }

func (s *source) Read(p []byte) (int, error) {
	s.calls++
	if s.calls > 1<<20 {
		panic(runaway{"the source is read without end"})
	}
	if s.calls == s.dies {
		panic(dead)
	}
	if s.meanwhile != nil {
		s.meanwhile()
	}
	if s.dirty {
		for i := range p {
			p[i] = 0xB0 + byte(i&7)
		}
	}
	var b []byte
	e := ""
	if len(s.pieces) == 0 {
		e = s.end
		if s.blankEnd > 0 {
			s.blankEnd--
			e = ""
		}
		if e != "" {
			s.finish()
			if s.ended > 1<<16 {
				panic(runaway{"the source is read without end after its error"})
			}
		}
	} else {
		q := &s.pieces[0]
		if len(q.b) > len(p) {
			b, q.b = q.b[:len(p)], q.b[len(p):]
		} else {
			b, e = q.b, q.e
			s.pieces = s.pieces[1:]
			if e != "" {
				s.pieces, s.end = nil, e
				s.finish()
			}
		}
	}
	copy(p, b)
	s.t.new("src").num("n", len(p)).bytes("b", b).str("e", e).end()
	return len(b), errNamed(e)
}

// finish notes that the source gave its error.
func (s *source) finish() {
	s.ended++
	if len(s.revive) > 0 {
		s.pieces, s.revive = s.revive, nil
	}
}

// afterlife is what a source gives that is read again after its error: the
// file has grown, the connection is back, or the error is another.
func afterlife() []piece {
	e := []string{"", "EOF", "boom", "bang"}[rng.Intn(4)]
	switch rng.Intn(5) {
	case 0:
		return []piece{{b: someCodes(1 + rng.Intn(6)), e: e}}
	case 1:
		return []piece{{b: someCodes(1 + rng.Intn(3))}, {e: "EOF"}, {b: someCodes(2)}}
	case 2:
		return []piece{{b: []byte{0xA1}}, {b: []byte("later"), e: e}}
	case 3:
		return []piece{{}, {}, {e: e}}
	}
	return nil
}

// script cuts text into pieces at random.
func script(text []byte, end string) []piece {
	var ps []piece
	style := rng.Intn(6)
	for at := 0; at < len(text); {
		n := 1
		switch style {
		case 0:
			n = len(text)
		case 1:
			n = 1
		case 2:
			n = 1 + rng.Intn(3)
		case 3:
			n = 1 + rng.Intn(20)
		case 4:
			n = []int{1, 2, 7, 16, 64, 511, 512, 513, 4095, 4096, 4097}[rng.Intn(11)]
		case 5:
			n = 1 + rng.Intn(len(text))
		}
		if at+n > len(text) {
			n = len(text) - at
		}
		ps = append(ps, piece{b: clone(text[at : at+n])})
		at += n
		for rng.Intn(12) == 0 {
			ps = append(ps, piece{})
		}
	}
	if len(ps) > 0 && rng.Intn(3) == 0 {
		ps[len(ps)-1].e = end
	}
	return ps
}

// bigScript cuts text into large pieces.
func bigScript(text []byte) (ps []piece) {
	for len(text) > 0 {
		n := []int{4095, 4096, 4097, 65535, 65536, 65537, 1 + rng.Intn(100000), 1 + rng.Intn(5)}[rng.Intn(8)]
		if n > len(text) {
			n = len(text)
		}
		ps = append(ps, piece{b: text[:n:n]})
		text = text[n:]
	}
	return ps
}

// sizes tells how large a buffer the next Read gets.
type sizes struct {
	style, fixed int
	list         []int
}

func someSizes() *sizes {
	return &sizes{style: rng.Intn(5), fixed: []int{1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 512, 4096}[rng.Intn(12)]}
}
func (z *sizes) next() int {
	if len(z.list) > 0 {
		n := z.list[0]
		z.list = z.list[1:]
		return n
	}
	switch z.style {
	case 0, 1:
		return z.fixed
	case 2:
		return rng.Intn(4)
	case 3:
		return []int{0, 1, 2, 3, 5, 7, 16, 64, 512, 4096}[rng.Intn(10)]
	}
	return 1 + rng.Intn(2*z.fixed)
}

// drain reads r to its end, and some more; it records all.  It gives up
// after limit Reads.
func drain(t *trace, r io.Reader, z *sizes, limit int) {
	after := 1 + rng.Intn(3)
	ended := false
	var last []byte
	for k := 0; k < limit; k++ {
		maybeGC(20000)
		if wt, ok := r.(io.WriterTo); ok && rng.Intn(6) == 0 {
			// io.Copy and others use this instead of Read
			var all bytes.Buffer
			t.new("begin").num("n", 1<<30).end()
			_, err := wt.WriteTo(&all)
			e := errName(err)
			if err == nil {
				e = "EOF"
			}
			t.new("ret").bytes("b", all.Bytes()).str("e", e).end()
			ended = true
		}
		n := z.next()
		if ended && n == 0 && rng.Intn(2) == 0 {
			n = 1
		}
		mem := make([]byte, n+8)
		for i := range mem {
			mem[i] = 0xA5
		}
		buf := mem[:n]
		if rng.Intn(2) == 0 {
			buf = mem[:n:n]
		}
		t.new("begin").num("n", n).end()
		var m int
		var err error
		if br, ok := r.(io.ByteReader); ok && n == 1 && rng.Intn(2) == 0 {
			buf[0], err = br.ReadByte()
			if err == nil {
				m = 1
			}
		} else {
			m, err = r.Read(buf)
		}
		count("reads", 1)
		e := errName(err)
		for _, b := range last {
			if b != 0xEE {
				e = "LATE"
			}
		}
		if m < 0 || m > n {
			t.new("ret").ints("b", []int{}).str("e", fmt.Sprintf("COUNT %d of %d", m, n)).end()
			return
		}
		for _, b := range mem[n:] {
			if b != 0xA5 {
				e = "OVERRUN"
			}
		}
		t.new("ret").bytes("b", buf[:m]).str("e", e).end()
		// the buffer is the caller's
		for i := range mem {
			mem[i] = 0xEE
		}
		if last = mem; n > 64 {
			last = mem[:64]
		}
		if err != nil {
			ended = true
		}
		if ended {
			after--
			if after < 0 {
				return
			}
		}
	}
	count("readers_not_drained", 1)
}

// follow runs one reader over a script.
func follow(t *trace, what, kind string, s *source, z *sizes, limit int, mk func(io.Reader) (io.Reader, error)) {
	t.boundary()
	t.scenario(what)
	s.t = t
	s.revive = afterlife()
	t.guard(what, func() {
		t.new("new").str("kind", kind).str("what", what).end()
		r, err := mk(dressed(s))
		if err != nil {
			t.new("ret").ints("b", []int{}).str("e", "NEW "+err.Error()).end()
			return
		}
		drain(t, r, z, limit)
	})
	count("readers", 1)
}

func decReader(r io.Reader) (io.Reader, error) { return cp949.NewReader(r) }
func xReader(kind string) func(io.Reader) (io.Reader, error) {
	return func(r io.Reader) (io.Reader, error) {
		var e encoding.Encoding = someEncoding()
		if kind == "dec" {
			if rng.Intn(2) == 0 {
				return transform.NewReader(r, e.NewDecoder()), nil
			}
			return e.NewDecoder().Reader(r), nil
		}
		return transform.NewReader(r, e.NewEncoder()), nil
	}
}

var endings = []string{"EOF", "EOF", "EOF", "EOF", "EOF", "EOF", "EOF", "EOF", "EOF", "EOF", "boom", "boom", "bang", "UEOF", "PIPE", "WEOF", "WEOF", "WTRUNC", "LIST",
	"TRUNC", "SHORTDST", "SHORTSRC", "NOPROGRESS", "SHORTBUF",
	"TEMP", "EINTR", "EAGAIN", "DEADLINE", "CANCELED", "PATH", "CLOSED", "BUFFULL"}

// replayReads turns a behaviour of the specification into a script for the
// source and the sizes of the Reads.
func replayReads(t *trace, i int, v vector) {
	var ps []piece
	z := &sizes{}
	end := ""
	for _, ev := range v.Hist {
		switch ev.Op {
		case "begin":
			z.list = append(z.list, ev.N)
		case "src":
			ps = append(ps, piece{b: clone(ev.B), e: ev.E})
			if ev.E != "" {
				end = ev.E
			}
		}
	}
	limit := len(z.list)
	if end == "" {
		// the behaviour stopped before the end of its source; go on
		end = endings[rng.Intn(len(endings))]
		limit += 20
		z.style, z.fixed = 0, 3
	}
	follow(t, fmt.Sprint("behaviour of the model ", i), "dec", &source{pieces: ps, end: end, dirty: rng.Intn(2) == 0}, z, limit+rng.Intn(3), decReader)
	count("behaviours", 1)
}

func init() {
	readersOf := func(module string) {
		t := open(module, 900000)
		for i, v := range loadVectors() {
			replayReads(t, i, v)
		}
		for i := 0; i < pick(2500, 30000); i++ {
			text := someCodes(rng.Intn(14))
			end := endings[rng.Intn(len(endings))]
			follow(t, about("NewReader", text), "dec", &source{pieces: script(text, end), end: end, dirty: rng.Intn(2) == 0}, someSizes(), 3000, decReader)
		}
		for i := 0; i < pick(160, 1500); i++ {
			text := someCodes(someLen(700))
			end := endings[rng.Intn(len(endings))]
			follow(t, about("NewReader", text), "dec", &source{pieces: script(text, end), end: end, dirty: rng.Intn(2) == 0}, someSizes(), 5000, decReader)
		}
		for i := 0; i < pick(12, 100); i++ {
			text := someCodes(2000 + rng.Intn(4000))
			z := &sizes{style: 0, fixed: []int{64, 500, 512, 4096, 32768}[rng.Intn(5)]}
			follow(t, about("NewReader", text), "dec", &source{pieces: script(text, "EOF"), end: "EOF"}, z, 20000, decReader)
		}
		// much data, in large pieces and buffers, or in very many
		for i, n := range bigLens(pick(6, 24)) {
			text := bigText("dec", n)
			end := endings[rng.Intn(len(endings))]
			z := &sizes{style: 0, fixed: []int{512, 4096, 32768, 65536, 65537, 1 << 18}[rng.Intn(6)]}
			ps := bigScript(text)
			if i%3 == 0 {
				ps = []piece{{b: text}}
			}
			follow(t, about("NewReader", text), "dec", &source{pieces: ps, end: end, dirty: rng.Intn(2) == 0}, z, 1<<20, decReader)
		}
		for i := 0; i < pick(2, 8); i++ {
			text := bigText("dec", 20000+rng.Intn(pick(8000, 80000)))
			follow(t, about("NewReader", text), "dec", &source{pieces: script(text, "EOF"), end: "EOF"}, &sizes{style: 0, fixed: 1 + rng.Intn(3)}, 1<<20, decReader)
		}
		for _, text := range exactTexts("dec", pick(17, 19)) {
			n := len(text)
			z := &sizes{style: 0, fixed: []int{n, n + 1, n + n/2 + 1, 1 << 18, 512, 4096}[rng.Intn(6)]}
			ps := []piece{{b: text}}
			if rng.Intn(4) == 0 {
				ps = bigScript(text)
			}
			follow(t, about("NewReader", text), "dec", &source{pieces: ps, end: "EOF"}, z, 1<<20, decReader)
		}
		// pieces of each size
		for n := 1; n < pick(700, 5000); n++ {
			text := someCodes(n + 8)
			if n%2 == 0 {
				text = bytes.Repeat([]byte(pieces("dec")), n+8)
			}
			ps := []piece{{b: text[:n]}, {b: text[n : n+1+rng.Intn(7)]}}
			if rng.Intn(3) == 0 {
				ps = append(ps, piece{b: clone(text[:n])})
			}
			if rng.Intn(3) == 0 {
				ps[0], ps[1] = ps[1], ps[0]
			}
			z := &sizes{style: 0, fixed: []int{n, n + 1, n - 1 + n%2, 2*n + 3, 512, 4096, 1 << 16}[rng.Intn(7)]}
			follow(t, about("NewReader", text), "dec", &source{pieces: ps, end: "EOF", dirty: rng.Intn(2) == 0}, z, 3000, decReader)
		}
		// as io.ReadAll and io.Copy read, growing buffers
		for i := 0; i < pick(40, 400); i++ {
			text := someCodes(someLen(3000))
			z := &sizes{style: 0, fixed: 512, list: []int{512, 384, 512, 640, 848, 1, 1280, 1792}}
			follow(t, about("NewReader", text), "dec", &source{pieces: script(text, "EOF"), end: "EOF", dirty: true}, z, 20000, decReader)
		}
	}
	drivers["C17"] = func() {
		readersOf("TraceReader")
		standardSources()
		slowReaders("TraceReader", pick(60, 200))
		bigCodec("C17")
	}
	// the readers of x/text are not prompt after a half character
	drivers["C26"] = func() {
		readersOf("TracePrompt")
		slowReaders("TracePrompt", pick(60, 200))
	}
	drivers["C18"] = func() {
		t := open("TraceReader", 900000)
		slowReaders("TraceReader", pick(100, 300))
		for i, v := range loadVectors() {
			replayReads(t, i, v)
		}
		bigCodec("C18")
		// short streams, each end of it, each way to report it
		for i := 0; i < pick(5000, 50000); i++ {
			text := someCodes(rng.Intn(5))
			if rng.Intn(3) == 0 {
				text = append(text, byte(0x80+rng.Intn(128)))
			}
			end := endings[rng.Intn(len(endings))]
			follow(t, about("NewReader, "+end, text), "dec", &source{pieces: script(text, end), end: end, dirty: rng.Intn(2) == 0}, someSizes(), 400, decReader)
		}
		// truncated at each length
		for n := 0; n < pick(150, 1100); n++ {
			text := someCodes(n)
			text = append(text, 0xB0)
			if n%3 == 0 {
				text = text[:len(text)-1]
			}
			end := endings[rng.Intn(len(endings))]
			follow(t, about("NewReader, "+end, text), "dec", &source{pieces: script(text, end), end: end}, someSizes(), 3000, decReader)
		}
		// sources that give nothing for a while, or for ever
		for i := 0; i < pick(60, 600); i++ {
			text := someCodes(rng.Intn(6))
			end := endings[rng.Intn(len(endings))]
			ps := script(text, "")
			k := rng.Intn(len(ps) + 1)
			blank := []int{1, 2, 3, 50, 90, 98, 99, 100, 101, 150, 300}[rng.Intn(11)]
			ps = append(append(append([]piece{}, ps[:k]...), make([]piece, blank)...), ps[k:]...)
			follow(t, about(fmt.Sprintf("NewReader, %d times nothing, %s", blank, end), text), "dec", &source{pieces: ps, end: end, blankEnd: rng.Intn(3) * 60}, someSizes(), 800, decReader)
		}
		for i := 0; i < pick(20, 100); i++ {
			text := someCodes(rng.Intn(4))
			follow(t, about("NewReader, then nothing for ever", text), "dec", &source{pieces: script(text, ""), end: "EOF", blankEnd: 5000}, &sizes{style: 0, fixed: 1 + rng.Intn(8)}, 60, decReader)
		}
	}
}

// wholeCodes is the text in some pieces, none of which ends within a
// character.
func wholeCodes(text []byte) [][]byte {
	var ps [][]byte
	for i, last := 0, 0; last < len(text); {
		if text[i] < 0x80 {
			i++
		} else {
			i += 2
		}
		if i >= len(text) {
			i = len(text)
		}
		if i == len(text) || rng.Intn(3) == 0 {
			ps = append(ps, text[last:i])
			last = i
		}
	}
	return ps
}

// standardSources reads through readers of the standard library, and to
// ends which use more than Read.
func standardSources() {
	t := open("TraceCodec", 900000)
	for i := 0; i < pick(400, 5000); i++ {
		text := someCodes(someLen(60))
		if i%10 == 0 {
			text = someCodes(someLen(6000))
		}
		var src io.Reader
		name := ""
		switch k := rng.Intn(26); k {
		case 18, 19, 20, 21:
			// a reader of this package, or what has one inside
			inner := text
			r, err := cp949.NewReader(bytes.NewReader(clone(inner)))
			if err == nil {
				text, err = io.ReadAll(r)
			}
			if err != nil {
				continue
			}
			t.boundary()
			t.scenario("what the next reader reads")
			t.new("all").str("kind", "dec").bytes("s", inner).bytes("v", text).str("e", "").end()
			switch k {
			case 18, 19:
				name = "NewReader"
				src, _ = cp949.NewReader(bytes.NewReader(clone(inner)))
			case 20:
				name, src = "Decoder.Reader", cp949.NewCP949Encoding().NewDecoder().Reader(bytes.NewReader(clone(inner)))
			case 21:
				r, _ := cp949.NewReader(bytes.NewReader(clone(inner)))
				name, src = "bufio.Reader of NewReader", bufio.NewReaderSize(r, 16+rng.Intn(40))
			}
		case 22, 23:
			name, src = "a bytes.Buffer filled later", &bytes.Buffer{}
		case 24:
			// it has nothing of its own in between
			name, src = "a bytes.Buffer filled by and by", &bytes.Buffer{}
		case 25:
			name, src = "a strings.Reader set later", strings.NewReader("before")
		case 0:
			name, src = "bytes.Buffer", bytes.NewBuffer(clone(text))
		case 1:
			name, src = "bytes.Reader", bytes.NewReader(clone(text))
		case 2:
			name, src = "strings.Reader", strings.NewReader(string(text))
		case 3:
			name, src = "bufio.Reader", bufio.NewReaderSize(bytes.NewReader(clone(text)), 16+rng.Intn(40))
		case 4:
			name, src = "OneByteReader", iotest.OneByteReader(bytes.NewReader(clone(text)))
		case 5:
			name, src = "HalfReader", iotest.HalfReader(bytes.NewReader(clone(text)))
		case 6:
			name, src = "DataErrReader", iotest.DataErrReader(bytes.NewReader(clone(text)))
		case 7:
			k := rng.Intn(len(text) + 1)
			name, src = "MultiReader", io.MultiReader(bytes.NewReader(text[:k]), strings.NewReader(""), bytes.NewBuffer(clone(text[k:])))
		case 8:
			more := append(clone(text), "more"...)
			name, src = "LimitReader", io.LimitReader(bytes.NewReader(more), int64(len(text)))
		case 9:
			pr, pw := io.Pipe()
			cuts := cutText(text)
			go func() {
				for _, b := range cuts {
					pw.Write(b)
				}
				pw.Close()
			}()
			name, src = "Pipe", pr
		case 10:
			name, src = "DataErrReader of OneByteReader", iotest.DataErrReader(iotest.OneByteReader(bytes.NewReader(clone(text))))
		case 11:
			b := bufio.NewReader(bytes.NewReader(clone(text)))
			b.Peek(1 + rng.Intn(40))
			name, src = "bufio.Reader with data", b
		case 12:
			more := append(append([]byte("before"), text...), "after"...)
			name, src = "SectionReader", io.NewSectionReader(bytes.NewReader(more), 6, int64(len(text)))
		case 13:
			name, src = "TeeReader", io.TeeReader(bytes.NewReader(clone(text)), io.Discard)
		case 14:
			name, src = "File", fileOf(text)
		case 15:
			var z bytes.Buffer
			w := gzip.NewWriter(&z)
			w.Write(text)
			w.Close()
			zr, err := gzip.NewReader(&z)
			if err != nil {
				panic(err)
			}
			name, src = "gzip.Reader", zr
		case 16:
			name, src = "base64 decoder", base64.NewDecoder(base64.StdEncoding, strings.NewReader(base64.StdEncoding.EncodeToString(text)))
		case 17:
			pr, pw, err := os.Pipe()
			if err != nil {
				panic(err)
			}
			cuts := cutText(text)
			go func() {
				for _, b := range cuts {
					pw.Write(b)
				}
				pw.Close()
			}()
			name, src = "os.Pipe", pr
		}
		how := rng.Intn(6)
		t.boundary()
		t.scenario(about(fmt.Sprint("NewReader of ", name, " ", how), text))
		t.guard(about("NewReader of "+name, text), func() {
			r, err := cp949.NewReader(src)
			if err != nil {
				t.new("all").str("kind", "dec").bytes("s", text).bytes("v", nil).str("e", "NEW "+err.Error()).end()
				return
			}
			var out bytes.Buffer
			switch name {
			case "a bytes.Buffer filled later":
				src.(*bytes.Buffer).Write(text)
			case "a strings.Reader set later":
				src.(*strings.Reader).Reset(string(text))
			case "a bytes.Buffer filled by and by":
				// what was read is followed by more, before the end is seen
				w, b := src.(*bytes.Buffer), make([]byte, 1)
				text = append([]byte("first"), text...)
				rest := wholeCodes(text)
				w.Write(rest[0])
				for rest = rest[1:]; len(rest) > 0; rest = rest[1:] {
					n, e := 0, error(nil)
					if w.Len() > 0 {
						n, e = r.Read(b)
					}
					out.Write(b[:n])
					w.Write(rest[0])
					if e != nil {
						t.new("all").str("kind", "dec").bytes("s", text).bytes("v", out.Bytes()).str("e", "EARLY "+e.Error()).end()
						return
					}
				}
			}
			switch how {
			case 0:
				b, e := io.ReadAll(r)
				out.Write(b)
				err = e
			case 1:
				_, err = io.Copy(&out, r)
			case 2:
				_, err = io.CopyBuffer(struct{ io.Writer }{&out}, r, make([]byte, 1+rng.Intn(8)))
			case 3:
				_, err = out.ReadFrom(r)
			case 4:
				br := bufio.NewReaderSize(r, 16)
				for err == nil {
					var b byte
					if b, err = br.ReadByte(); err == nil {
						out.WriteByte(b)
					}
				}
				if err == io.EOF {
					err = nil
				}
			case 5:
				_, err = bufio.NewReader(r).WriteTo(&out)
			}
			t.new("all").str("kind", "dec").bytes("s", text).bytes("v", out.Bytes()).str("e", errName(err)).end()
		})
		if f, ok := src.(*os.File); ok {
			f.Close()
			if name == "File" {
				os.Remove(f.Name())
			}
		}
		count("standard_sources", 1)
	}
}

// fileOf is an open file, after its first line, which is not of text.
func fileOf(text []byte) *os.File {
	f, err := os.CreateTemp(*outDir, "text")
	if err != nil {
		panic(err)
	}
	f.Write(append([]byte("first line\n"), text...))
	f.Seek(11, io.SeekStart)
	return f
}
