package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
)

// whole is a way to convert something from beginning to end.
type whole struct {
	name string
	f    func([]byte) ([]byte, error)
}

// big records the conversion of pre, u n times, and post, where each of the
// three consists of whole characters.  It is recorded in the same form: as
// what the three become by themselves, and how often what u becomes is in the
// result; -1 if it has not that form.
func big(t *trace, kind string, w whole, pre, u string, n int, post string) {
	t.boundary()
	what := fmt.Sprintf("%s of %q, %d times %q, and %q", w.name, pre, n, u, post)
	t.scenario(what)
	t.guard(what, func() {
		part := func(s string) []byte {
			v, err := w.f([]byte(s))
			if err != nil {
				v = []byte("error")
			}
			return clone(v)
		}
		vp, vu, vq := part(pre), part(u), part(post)
		in := append(append([]byte(pre), bytes.Repeat([]byte(u), n)...), post...)
		out, err := w.f(in)
		m := -1
		if len(out) == len(vp)+n*len(vu)+len(vq) && bytes.HasPrefix(out, vp) && bytes.HasSuffix(out, vq) &&
			bytes.Equal(out[len(vp):len(vp)+n*len(vu)], bytes.Repeat(vu, n)) {
			m = n
		}
		t.new("big").str("f", w.name).str("kind", kind).bytes("pre", []byte(pre)).bytes("u", []byte(u)).num("n", n).bytes("post", []byte(post)).
			bytes("vp", vp).bytes("vu", vu).bytes("vq", vq).num("m", m).num("len", len(out)).str("e", errName(err)).end()
		count("calls", 4)
		count("bytes", len(in))
	})
}

// lens records conversions as big does, for each n of a row of numbers.  What
// comes after post is no whole character, or nothing; what it becomes, and
// the error, are the same for each n.  Where the result is nothing at all,
// -2 is recorded.
func lens(t *trace, kind, mode string, w whole, pre, u, post, rest string, lo, hi, step int) {
	t.boundary()
	what := fmt.Sprintf("%s of %q, %d to %d times %q, and %q", w.name, pre, lo, hi, u, post+rest)
	t.scenario(what)
	t.guard(what, func() {
		part := func(s string) []byte {
			v, err := w.f([]byte(s))
			if err != nil {
				v = []byte("error")
			}
			return clone(v)
		}
		vp, vu, vq := part(pre), part(u), part(post)
		in := append([]byte(pre), bytes.Repeat([]byte(u), lo)...)
		all := bytes.Repeat(vu, hi+1)
		var ms []int
		var tail []byte
		e := ""
		for n := lo; n <= hi; n += step {
			if n > lo {
				in = append(in, bytes.Repeat([]byte(u), step)...)
			}
			arg := append(append(make([]byte, 0, len(in)+len(post)+len(rest)), in...), post+rest...)
			out, err := w.f(arg)
			m, k := -1, len(vp)+n*len(vu)
			if len(out) >= k+len(vq) && bytes.HasPrefix(out, vp) && bytes.Equal(out[len(vp):k], all[:n*len(vu)]) && bytes.HasPrefix(out[k:], vq) {
				m = n
				if x := out[k+len(vq):]; n == lo {
					tail = clone(x)
				} else if !bytes.Equal(x, tail) {
					m = -1
				}
			} else if len(out) == 0 {
				m = -2
			}
			if n == lo {
				e = errName(err)
			} else if errName(err) != e {
				m = -1
			}
			ms = append(ms, m)
			count("bytes", len(arg))
			beat.Add(1)
		}
		t.new("lens").str("f", w.name).str("kind", kind).str("mode", mode).bytes("pre", []byte(pre)).bytes("u", []byte(u)).bytes("post", []byte(post)).bytes("rest", []byte(rest)).
			bytes("vp", vp).bytes("vu", vu).bytes("vq", vq).bytes("tail", tail).str("e", e).num("lo", lo).num("step", step).ints("m", ms).end()
		count("calls", 3+len(ms))
		count("lengths", len(ms))
	})
}

// allLens tries all lengths of inputs, up to some thousands, in rows.
func allLens(t *trace, kind, mode string, top int, ways ...whole) {
	for _, w := range ways {
		for i := 0; i < 3*top/64; i++ {
			lo := i / 3 * 64
			pre, u, post, rest := "", pieces(kind), "", ""
			if rng.Intn(3) == 0 {
				u = map[string]string{"dec": "\xb0\xa1", "enc": "각"}[kind]
			}
			if i%3 == 0 {
				u = []string{"z", " ", "0", "\n"}[rng.Intn(4)]
			}
			if i%3 == 1 {
				// one character of two, three or four bytes, and nothing else
				u = map[string][]string{"dec": {"\xb0\xa1", "\x81\x41", "\xa1\xa4", "\xca\xa1"}, "enc": {"한", "大", "·", "é"}}[kind][rng.Intn(4)]
				if mode == "concat" && rng.Intn(3) > 0 {
					u = string(someHanja())
				}
				lens(t, kind, mode, w, "", u, "", "", lo, lo+63, 1)
				continue
			}
			if rng.Intn(2) == 0 {
				pre = pieces(kind)
			}
			if rng.Intn(2) == 0 {
				post = pieces(kind)
			}
			if mode != "concat" && rng.Intn(3) == 0 {
				rest = map[string][]string{"dec": {"\xb0", "\x80", "\xff", "\xc7"}, "enc": {"\xea", "\xea\xb0", "\xf0\x9f\x98", "\xc3"}}[kind][rng.Intn(4)]
			}
			// as many bytes, not as many times u
			first, step := lo, 1
			if len(u) > 1 && rng.Intn(2) == 0 {
				first = lo / len(u)
			}
			lens(t, kind, mode, w, pre, u, post, rest, first, first+63*step, step)
		}
	}
}

// pieces are whole characters, as they are repeated.
func pieces(kind string) string {
	s := map[string][]string{
		"dec": {"a", "\xb0\xa1", "a\xb0\xa1", "\xb0\xa1\xb0\xa2\xff\xff", "\x81\x41", "\xa1\x00", "0123456\xc7\xd1"},
		"enc": {"a", "가", "a가", "한😀é", "·", "\xff", "大國", "0123456한"},
	}[kind]
	if rng.Intn(2) == 0 {
		return s[rng.Intn(len(s))]
	}
	return strings.Join([]string{s[rng.Intn(len(s))], s[rng.Intn(len(s))]}, "")
}

// bigs tries sizes from a quarter of a megabyte up, of the input or of the output.
func bigs(t *trace, kind string, ways ...whole) {
	top := upTo(pick(22, 26))
	for _, w := range ways {
		for k := min(18, top); k <= top; k++ {
			for i := 0; i < 2; i++ {
				pre, u, post := "", pieces(kind), ""
				if rng.Intn(2) == 0 {
					pre = pieces(kind)
				}
				if rng.Intn(2) == 0 {
					post = pieces(kind)
				}
				n := (1<<uint(k)+rng.Intn(5)-2-len(pre)-rng.Intn(2)*len(post))/len(u) + rng.Intn(2)
				if rng.Intn(2) == 0 {
					n += rng.Intn(n)
				}
				big(t, kind, w, pre, u, n, post)
			}
		}
	}
}

// readerWay reads with buffers of some sizes what comes in pieces of some
// sizes.
func readerWay(name string, mk maker2) whole {
	return whole{name, func(in []byte) ([]byte, error) {
		p := plan{}
		for i := 1 + rng.Intn(3); i > 0; i-- {
			p.sizes = append(p.sizes, []int{512, 4096, 1000, 65536, 70000, 1 << 20, 4099}[rng.Intn(7)])
			p.cuts = append(p.cuts, []int{511, 4096, 4095, 65536, 1 << 22, 1001}[rng.Intn(6)])
		}
		// or very often
		if rng.Intn(2) == 0 {
			p.sizes = []int{1 + rng.Intn(3), 1 + rng.Intn(20)}
		}
		if rng.Intn(2) == 0 {
			p.cuts = []int{1 + rng.Intn(3), 1 + rng.Intn(20)}
		}
		rd, err := mk(&cutReader{b: in, cuts: p.cuts})
		if err != nil {
			return nil, err
		}
		var out []byte
		buf := bigBuf
		for i := 0; ; i++ {
			beat.Add(1)
			n, err := rd.Read(buf[:p.sizes[i%len(p.sizes)]])
			out = append(out, buf[:n]...)
			if err == io.EOF {
				return out, nil
			}
			if err != nil {
				return out, err
			}
		}
	}}
}

var bigBuf = make([]byte, 1<<20)

type maker2 = func(io.Reader) (io.Reader, error)

func writerWay(name string, mk func(io.Writer) (io.Writer, error), end func(io.Writer) error) whole {
	return whole{name, func(in []byte) ([]byte, error) {
		var out bytes.Buffer
		w, err := mk(&out)
		if err != nil {
			return nil, err
		}
		cuts := []int{1 + rng.Intn(70000), 4096, 65536 + rng.Intn(3)}
		if rng.Intn(2) == 0 {
			cuts = []int{1 + rng.Intn(3), 1 + rng.Intn(7), 1 + rng.Intn(20)}
		}
		for i := 0; len(in) > 0; i++ {
			beat.Add(1)
			k := cuts[i%3]
			if k > len(in) {
				k = len(in)
			}
			if n, err := w.Write(in[:k]); err != nil || n != k {
				return out.Bytes(), err
			}
			in = in[k:]
		}
		err = end(w)
		return out.Bytes(), err
	}}
}

func readAll(name string, mk maker2) whole {
	return whole{name, func(b []byte) ([]byte, error) {
		r, err := mk(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	}}
}

// somePairs are pairs of some characters.
func somePairs(t *trace, kind string, w whole) {
	us := codePairs(kind)
	some := append([][]byte{}, us[:128]...)
	for _, i := range rng.Perm(len(us))[:pick(2500, 9000)] {
		some = append(some, us[i])
	}
	share := pick(50, 20)
	pairs(t, kind, w.name, w.f, some, func(x int) bool { return x%share == 0 })
}

func noEnd(io.Writer) error { return nil }

// bigCodec are the large conversions for one property.
func bigCodec(prop string) {
	t := open("TraceCodec", 900000)
	dec := func() transform.Transformer { return someEncoding().NewDecoder() }
	enc := func() transform.Transformer { return someEncoding().NewEncoder() }
	closeIt := func(w io.Writer) error { return w.(io.Closer).Close() }
	top := pick(6200, 34000)
	switch prop {
	case "C16":
		allLens(t, "dec", "oneshot", top, whole{"From", cp949.From})
		allLens(t, "enc", "oneshot", top, whole{"To", cp949.To})
		bigs(t, "dec", whole{"From", cp949.From})
		bigs(t, "enc", whole{"To", cp949.To})
	case "C17", "C18":
		allLens(t, "dec", "all", top, readerWay("NewReader", cp949.NewReader))
		bigs(t, "dec", readerWay("NewReader", cp949.NewReader))
		if prop == "C17" {
			somePairs(t, "dec", readAll("NewReader", cp949.NewReader))
		}
	case "C19":
		allLens(t, "enc", "sunk", top, writerWay("NewWriter", cp949.NewWriter, noEnd))
		bigs(t, "enc", writerWay("NewWriter", cp949.NewWriter, noEnd))
		somePairs(t, "enc", whole{"NewWriter", func(b []byte) ([]byte, error) {
			var out bytes.Buffer
			w, err := cp949.NewWriter(&out)
			if err == nil {
				_, err = w.Write(b)
			}
			return out.Bytes(), err
		}})
	case "C23":
		somePairs(t, "dec", readAll("Decoder.Reader", func(r io.Reader) (io.Reader, error) { return someEncoding().NewDecoder().Reader(r), nil }))
		somePairs(t, "enc", whole{"Encoder.Bytes", func(b []byte) ([]byte, error) { return someEncoding().NewEncoder().Bytes(b) }})
		some := pick(5000, 20000)
		ways := map[string][]whole{}
		bigs := func(t *trace, kind string, ws ...whole) {
			bigs(t, kind, ws...)
			ways[kind] = ws
		}
		defer func() {
			for _, kind := range []string{"dec", "enc"} {
				for _, w := range ways[kind] {
					mode := "all"
					if w.name == "Decoder.Bytes" || w.name == "Encoder.String" {
						mode = "oneshot"
					}
					allLens(t, kind, mode, some, w)
				}
			}
		}()
		bigs(t, "dec",
			readerWay("Decoder.Reader", func(r io.Reader) (io.Reader, error) { return someEncoding().NewDecoder().Reader(r), nil }),
			whole{"Decoder.Bytes", func(b []byte) ([]byte, error) { return someEncoding().NewDecoder().Bytes(b) }},
			writerWay("Writer of the decoder", func(w io.Writer) (io.Writer, error) { return transform.NewWriter(w, dec()), nil }, closeIt))
		bigs(t, "enc",
			readerWay("Reader of the encoder", func(r io.Reader) (io.Reader, error) { return transform.NewReader(r, enc()), nil }),
			whole{"Encoder.String", func(b []byte) ([]byte, error) {
				s, err := someEncoding().NewEncoder().String(string(b))
				return []byte(s), err
			}},
			writerWay("Encoder.Writer", func(w io.Writer) (io.Writer, error) { return someEncoding().NewEncoder().Writer(w), nil }, closeIt))
	}
}

func bigHanja() {
	t := open("TraceHanja", 400000)
	w := whole{"Convert", func(b []byte) ([]byte, error) { return []byte(hanja.Convert(string(b))), nil }}
	bigs(t, "enc", w)
	allLens(t, "enc", "concat", pick(6200, 34000), w)
}

// bigWords looks at what ends words of megabytes.
func bigWords() {
	for k := min(18, upTo(22)); k <= upTo(pick(22, 26)); k++ {
		for i := 0; i < 3; i++ {
			u := []string{"가", "각", "a", "말 ", "😀", "é"}[rng.Intn(6)]
			n := 1<<uint(k)/len(u) + rng.Intn(3)
			w := string(someWord())
			if rng.Intn(3) == 0 || w == "" || w[0]&0xC0 == 0x80 {
				w = u
			}
			wordBig(u, n, w)
		}
	}
	wordLens(wordBig)
}

// wordLens looks at what ends words of each length, up to some thousands.
func wordLens(f func(u string, n int, w string)) {
	for n := 0; n < pick(2600, 20000); n++ {
		u := []string{"가", "각", "a", "말 ", "😀", "é", " "}[rng.Intn(7)]
		w := string(rune(0xAC00 + rng.Intn(11172)))
		if rng.Intn(4) == 0 {
			w = string(someWord())
			if w == "" || w[0]&0xC0 == 0x80 {
				w = u
			}
		}
		k := n
		if rng.Intn(3) > 0 {
			k = n/len(u) + rng.Intn(2)
		}
		f(u, k, w)
	}
}

func wordBig(u string, n int, w string) {
	t := open("TraceWords", 300000)
	what := fmt.Sprintf("LastConsonant of %d times %q and %q", n, u, w)
	t.boundary()
	t.scenario(what)
	t.guard(what, func() {
		s := strings.Repeat(u, n) + w
		v, e := hangul.LastConsonant(s), hangul.EndsWithConsonant(s)
		t.new("wordbig").bytes("u", []byte(u)).num("n", n).bytes("w", []byte(w)).num("v", int(v)).num("e", b2i(e)).end()
		count("calls", 2)
	})
}

func appBig(u string, n int, w string) {
	t := open("TraceWords", 300000)
	p := posts[rng.Intn(len(posts))]
	what := fmt.Sprintf("AppendPostposition of %d times %q and %q", n, u, w)
	t.boundary()
	t.scenario(what)
	t.guard(what, func() {
		s := strings.Repeat(u, n)
		v := hangul.AppendPostposition(s+w, p[0], p[1])
		m := -1
		if strings.HasPrefix(v, s) {
			m, v = n, v[len(s):]
		}
		if len(v) > 1000 {
			v = v[:1000]
		}
		t.new("appbig").bytes("u", []byte(u)).num("n", n).num("m", m).bytes("w", []byte(w)).bytes("a", []byte(p[0])).bytes("b", []byte(p[1])).bytes("v", []byte(v)).end()
		count("calls", 1)
	})
}

// bigApp appends to words of megabytes.
func bigApp() {
	for k := min(18, upTo(22)); k <= upTo(pick(22, 26)); k++ {
		u := []string{"가", "각", "a", "말 ", "😀", "é"}[rng.Intn(6)]
		n := 1<<uint(k)/len(u) + rng.Intn(3)
		w := string(someWord())
		if rng.Intn(3) == 0 || w == "" || w[0]&0xC0 == 0x80 {
			w = u
		}
		appBig(u, n, w)
	}
	wordLens(appBig)
}
