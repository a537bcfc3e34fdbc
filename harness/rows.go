package main

import (
	"bytes"
	"flag"
	"fmt"
	"strings"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/encoding/korean"
)

var (
	part  = flag.Int("part", 0, "which of the parts")
	parts = flag.Int("parts", 1, "in how many parts the rows are tried")
)

// pairs puts every two of us next to each other, in both orders, in texts
// that go x y x y' x y" and so on.  What each of them becomes by itself is
// recorded first.  Of a text, how many of the ys, from the beginning, became
// that is recorded.
func pairs(t *trace, kind, name string, f func([]byte) ([]byte, error), us [][]byte, short func(x int) bool) {
	vs := make([][]byte, len(us))
	const block = 400
	for lo := 0; lo < len(us); lo += block {
		hi := lo + block
		if hi > len(us) {
			hi = len(us)
		}
		t.boundary()
		what := fmt.Sprintf("%s of single characters", name)
		t.scenario(what)
		t.guard(what, func() {
			for i := lo; i < hi; i++ {
				v, err := f(clone(us[i]))
				if err != nil {
					v = []byte("error")
				}
				vs[i] = clone(v)
			}
			t.new("singles").str("f", name).str("kind", kind).list("u", us[lo:hi]).list("v", vs[lo:hi]).end()
		})
	}
	var in, want []byte
	type row struct {
		xs, vxs [][]byte
		n, m    []int
	}
	var r row
	flush := func() {
		if len(r.n) > 0 {
			t.boundary()
			t.new("pairs").str("f", name).str("kind", kind).list("x", r.xs).list("vx", r.vxs).ints("n", r.n).ints("m", r.m).end()
			r = row{}
		}
	}
	one := func(idx ...int) bool {
		in, want = in[:0], want[:0]
		for _, i := range idx {
			in, want = append(in, us[i]...), append(want, vs[i]...)
		}
		v, err := f(in)
		if err == nil && bytes.Equal(v, want) {
			return true
		}
		t.new("conv").str("f", name).str("kind", kind).bytes("s", in).bytes("v", v).str("e", errName(err)).yes("kept", true).end()
		return false
	}
	for x := *part; x < len(us); x += *parts {
		if x%100 == *part%100 {
			t.scenario(fmt.Sprintf("%s of %q and any other character", name, us[x]))
		}
		beat.Add(1)
		ok := t.guard(fmt.Sprintf("%s of %q and any other character", name, us[x]), func() {
			in, want = in[:0], want[:0]
			for y := x; y < len(us); y++ {
				in = append(append(in, us[x]...), us[y]...)
				want = append(append(want, vs[x]...), vs[y]...)
			}
			in, want = append(in, us[x]...), append(want, vs[x]...)
			v, err := f(in)
			n, m := len(us)-x, len(us)-x
			if err != nil || !bytes.Equal(v, want) {
				m = -1
			}
			if m < 0 || short(x) {
				for y := x; y < len(us); y++ {
					if !one(x, y) || !one(y, x) || m < 0 && !one(x, y, x) {
						m = -1
						break
					}
				}
			}
			r.xs, r.vxs, r.n, r.m = append(r.xs, us[x]), append(r.vxs, vs[x]), append(r.n, n), append(r.m, m)
			if len(r.n) >= 100 {
				flush()
			}
			if alone {
				count("calls", 1)
				count("pairs", n)
			}
		})
		if !ok {
			break
		}
	}
	flush()
}

// ks are the characters of KS X 1001 without its hangul, as x/text has them.
func ks() (rs []rune) {
	for a := 0xA1; a <= 0xFD; a++ {
		if a >= 0xB0 && a <= 0xC8 {
			continue
		}
		for b := 0xA1; b <= 0xFE; b++ {
			if s, err := korean.EUCKR.NewDecoder().Bytes([]byte{byte(a), byte(b)}); err == nil {
				if r, n := utf8.DecodeRune(s); n == len(s) && r != utf8.RuneError {
					rs = append(rs, r)
				}
			}
		}
	}
	return rs
}

func utf8s(rs []rune) (us [][]byte) {
	for _, r := range rs {
		us = append(us, []byte(string(r)))
	}
	return us
}

func runes(lo, hi rune) (rs []rune) {
	for r := lo; r <= hi; r++ {
		rs = append(rs, r)
	}
	return rs
}

// texts of every two characters for the conversions of codes.
func codePairs(kind string) [][]byte {
	only := strings.HasSuffix(kind, "back")
	kind = strings.TrimSuffix(kind, "back")
	var us [][]byte
	for c := 0; c < 128; c++ {
		us = append(us, []byte{byte(c)})
	}
	dec := korean.EUCKR.NewDecoder()
	for a := 0x81; a <= 0xFE; a++ {
		for b := 0x41; b <= 0xFE; b++ {
			c := []byte{byte(a), byte(b)}
			s, err := dec.Bytes(c)
			if err != nil || bytes.Contains(s, []byte("\ufffd")) {
				continue
			}
			if kind == "dec" {
				us = append(us, c)
			} else {
				us = append(us, s)
			}
		}
	}
	if only {
		return us
	}
	if kind == "dec" {
		for i := 0; i < pick(300, 3000); i++ {
			c := []byte{byte(0x80 + rng.Intn(128)), byte(rng.Intn(256))}
			if i%2 == 0 {
				// next to what is a character
				c = clone(us[128+rng.Intn(len(us)-128)])
				if i%4 == 0 {
					c[1] += []byte{1, 0xFF}[rng.Intn(2)]
				} else if c[0]++; c[0] < 0x80 {
					continue
				}
			}
			us = append(us, c)
		}
		return us
	}
	us = append(us, []byte("\xff"), []byte("\xc0"), []byte("\xf5"), []byte("\ufffd"))
	for i := 0; i < pick(300, 3000); i++ {
		r := rune(0x80 + rng.Intn(0xD780))
		if i%4 == 0 {
			r = rune(0x10000 + rng.Intn(0x100000))
		}
		us = append(us, []byte(string(r)))
	}
	return us
}

func init() {
	drivers["C16pairs"] = func() {
		t := open("TraceCodec", 400000)
		share := pick(40, 4)
		short := func(x int) bool { return (x / *parts)%share == 0 }
		pairs(t, "dec", "From", cp949.From, codePairs("dec"), short)
		pairs(t, "enc", "To", cp949.To, codePairs("enc"), short)
	}
	drivers["C11pairs"] = func() {
		t := open("TraceHanja", 300000)
		rs := append(runes(0, 127), runes(0x3400, 0x4DBF)...)
		rs = append(rs, runes(0x4E00, 0x9FFF)...)
		rs = append(rs, runes(0xF900, 0xFAFF)...)
		for _, r := range ks() {
			if r < 0x3400 {
				rs = append(rs, r)
			}
		}
		rs = append(rs, runes(0x1100, 0x11FF)...)
		for i := 0; i < pick(2400, 11172); i++ {
			k := i
			if !*thorough {
				k = rng.Intn(11172)
			}
			rs = append(rs, 0xAC00+rune(k))
		}
		share := pick(60, 8)
		pairs(t, "hanja", "Convert", func(b []byte) ([]byte, error) { return []byte(hanja.Convert(string(b))), nil }, utf8s(rs),
			func(x int) bool { return (x / *parts)%share == 0 })
	}
	drivers["C08pairs"] = func() { wordPairs(false) }
	drivers["C09pairs"] = func() { wordPairs(true) }
}

// wordPairs looks at the end of words of every two characters.
func wordPairs(append_ bool) {
	t := open("TraceWords", 300000)
	rs := append(runes(0xAC00, 0xD7A3), runes(0, 127)...)
	rs = append(rs, runes(0x1100, 0x11FF)...)
	if !append_ || *thorough {
		rs = append(rs, ks()...)
	}
	us := utf8s(rs)
	var buf []string
	for x := *part; x < len(us); x += *parts {
		w := string(us[x])
		what := fmt.Sprintf("words of any character and %q", w)
		if x%100 == *part%100 {
			t.boundary()
			t.scenario(what)
		}
		beat.Add(1)
		// the words are next to each other in one string
		var sb strings.Builder
		for _, u := range us {
			sb.Write(u)
			sb.WriteString(w)
		}
		all := sb.String()
		buf = buf[:0]
		for at, i := 0, 0; i < len(us); i++ {
			n := len(us[i]) + len(w)
			buf = append(buf, all[at:at+n])
			at += n
		}
		t.guard(what, func() {
			if append_ {
				p := posts[rng.Intn(len(posts))]
				v := hangul.AppendPostposition(w, p[0], p[1])
				m := 0
				for i, s := range buf {
					if got := hangul.AppendPostposition(s, p[0], p[1]); len(got) != len(us[i])+len(v) || got[:len(us[i])] != s[:len(us[i])] || got[len(us[i]):] != v {
						app(t, s, p[0], p[1])
						break
					}
					m++
				}
				t.new("approw").bytes("w", us[x]).bytes("a", []byte(p[0])).bytes("b", []byte(p[1])).bytes("v", []byte(v)).num("n", len(us)).num("m", m).end()
				return
			}
			v, e := hangul.LastConsonant(w), hangul.EndsWithConsonant(w)
			m := 0
			for _, s := range buf {
				if hangul.LastConsonant(s) != v || hangul.EndsWithConsonant(s) != e {
					word(t, []byte(s))
					break
				}
				m++
			}
			t.new("wordrow").bytes("w", us[x]).num("v", int(v)).num("e", b2i(e)).num("n", len(us)).num("m", m).end()
		})
		count("pairs", len(us))
	}
}
