package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
)

// telling are characters that mean something, alone or next to others.
func telling(kind string) [][]byte {
	var us [][]byte
	seen := map[string]bool{}
	add := func(ss ...string) {
		for _, s := range ss {
			if !seen[s] {
				seen[s] = true
				us = append(us, []byte(s))
			}
		}
	}
	add(strings.Split("a b Z 0 9 & # ; ~ { } + - = ? \\ % $ ( ) [ ] . , ' \" < / C x u", " ")...)
	add(" ", "\n", "\r", "\t", "\x00", "\x1b", "\x0e", "\x0f", "\x1a", "\x7f")
	if kind == "dec" {
		for _, s := range knownCodes {
			for _, u := range units("dec", []byte(s)) {
				if len(u) == 2 {
					add(string(u))
				}
			}
		}
		add("\x81\x41", "\xa1\xbe", "\xa4\xd3", "\xa4\xbf", "\xac\xa1", "\xa1\x5a", "\xa0\xfe", "\xc5\x41", "\xa1\x41", "\x80\x80", "\xff\xff", "\xb0\x00", "\xc9\x41")
		return us
	}
	for _, s := range []string{"가각갈값힣말로으는ㄱㅏㅎㄳㅘㅤ\u1100\u1161\u11a8\u11ff\u115f\u1160", "不率女年老李金樂度北車糖更復降惡殺塞索說數丹洞讀暴見切參六十月一二人大韓國氏々〇",
		"\uf901\uf907\u3402", "　、。·…「」（）：～￦\u20a9\ufeff\ufffd\u00a0\u200b\u200d\ufe0f\u0301\u00e9\u00c5\u2028\u0085\uffa1\ue000\u212b", "😀🇰\U000e0100\U00020000"} {
		for _, r := range s {
			add(string(r))
		}
	}
	if kind == "enc" {
		add("\xff", "\xc0", "\xf5")
	}
	return us
}

// deBruijn is a row of numbers below k in which every row of n of them occurs.
func deBruijn(k, n int) (seq []int) {
	a := make([]int, n+1)
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(seq, seq[:n-1]...)
}

// windows has every row of n of us converted, in long texts, and, with alone,
// one of so many by itself.  How many of these texts in turn became what their
// characters become by themselves is recorded.  fail is what is recorded of the one
// that did not.
func windows(t *trace, kind string, w whole, fail string, us [][]byte, n int, alone int) {
	t.boundary()
	what := fmt.Sprintf("%s of all rows of %d of %d characters", w.name, n, len(us))
	t.scenario(what)
	t.guard(what, func() {
		vs := make([][]byte, len(us))
		for i, u := range us {
			v, err := w.f(clone(u))
			if err != nil {
				v = []byte("error")
			}
			vs[i] = clone(v)
		}
		order := rng.Perm(len(us))
		total, ok := 0, 0
		var in, want []byte
		try := func(idx []int, record bool) bool {
			in, want = in[:0], want[:0]
			for _, i := range idx {
				in, want = append(in, us[order[i]]...), append(want, vs[order[i]]...)
			}
			v, err := w.f(in)
			same := err == nil && bytes.Equal(v, want)
			if record && !same {
				t.new(fail).str("f", w.name).str("kind", kind).bytes("s", in).bytes("v", v).str("e", errName(err)).yes("kept", true).end()
			}
			return same
		}
		seq := deBruijn(len(us), n)
		good := true
		for lo := 0; lo+n <= len(seq) && good && !late(); {
			hi := lo + n + rng.Intn(20000)
			if hi > len(seq) {
				hi = len(seq)
			}
			beat.Add(1)
			total++
			if good = try(seq[lo:hi], false); good {
				ok++
			} else {
				a, b := lo, hi
				for step := (b - a) / 2; step > 0; step /= 2 {
					for b-a > step && !try(seq[a:b-step], false) {
						b -= step
					}
					for b-a > step && !try(seq[a+step:b], false) {
						a += step
					}
				}
				try(seq[a:b], true)
			}
			for i := lo; alone > 0 && good && i+n <= hi; i += 1 + rng.Intn(2*alone-1) {
				total++
				if good = try(seq[i:i+n], true); good {
					ok++
				}
			}
			lo = hi - n + 1
		}
		t.new("windows").str("f", w.name).str("kind", kind).list("u", us).list("v", vs).num("n", total).num("m", ok).end()
		count("calls", total)
		count("windows", len(seq))
	})
}

// someOf are k of us.
func someOf(us [][]byte, k int) [][]byte {
	var some [][]byte
	for _, i := range rng.Perm(len(us)) {
		if len(some) < k {
			some = append(some, us[i])
		}
	}
	return some
}

// allWindows are rows of three of many characters, and longer rows of fewer.
func allWindows(t *trace, kind string, w whole, fail string, alone int) {
	rowsOf(t, kind, w, fail, telling(kind), alone)
}

func rowsOf(t *trace, kind string, w whole, fail string, us [][]byte, alone int) {
	windows(t, kind, w, fail, us, 3, pick(alone, 1))
	for _, kn := range [][2]int{{pick(40, 80), 4}, {pick(18, 30), 5}, {pick(10, 15), 6}, {pick(5, 6), 9}, {2, pick(19, 22)}} {
		windows(t, kind, w, fail, someOf(us, kn[0]), kn[1], pick(alone, 1))
	}
}

// likes are characters that a few bits tell from u.
func likes(kind string, u []byte) [][]byte {
	us := [][]byte{u}
	if kind == "dec" {
		for k := uint(0); k < 16 && len(u) == 2; k++ {
			x := []byte{u[0], u[1]}
			x[k/8] ^= 1 << (k % 8)
			if x[0] >= 0x80 {
				us = append(us, x)
			}
		}
		if len(u) == 2 && u[1] >= 0x80 {
			us = append(us, []byte{u[1], u[0]})
		}
		return append(us, []byte{u[0] & 0x7f}, []byte{u[len(u)-1] & 0x7f})
	}
	r, _ := utf8.DecodeRune(u)
	for k := uint(0); k < 21; k++ {
		if x := r ^ 1<<k; utf8.ValidRune(x) {
			us = append(us, []byte(string(x)))
		}
	}
	for k := rune(1); k <= 16; k++ {
		if x := r&0xffff + k<<16; utf8.ValidRune(x) && k&(k-1) != 0 {
			us = append(us, []byte(string(x)))
		}
	}
	return append(us, []byte(string(r>>8)), []byte(string(r&0xff)))
}

// alike has characters next to those that are like them, in one text and one
// after the other.
func alike(t *trace, kind string, w whole, fail string, all [][]byte, share int) {
	for lo := 0; lo < len(all); lo++ {
		if len(all[lo]) < 2 || rng.Intn(share) > 0 {
			continue
		}
		us := likes(kind, all[lo])
		what := fmt.Sprintf("%s of %q and what is like it", w.name, us[0])
		t.boundary()
		t.scenario(what)
		beat.Add(1)
		t.guard(what, func() {
			vs := make([][]byte, len(us))
			for _, i := range rng.Perm(len(us)) {
				v, err := w.f(clone(us[i]))
				if err != nil {
					v = []byte("error")
				}
				vs[i] = clone(v)
			}
			var in, want []byte
			for i := range us {
				in, want = append(append(in, us[0]...), us[i]...), append(append(want, vs[0]...), vs[i]...)
			}
			total, ok := 1, 1
			v, err := w.f(in)
			if err != nil || !bytes.Equal(v, want) {
				ok = 0
				t.new(fail).str("f", w.name).str("kind", kind).bytes("s", in).bytes("v", v).str("e", errName(err)).yes("kept", true).end()
			}
			t.new("windows").str("f", w.name).str("kind", kind).list("u", us).list("v", vs).num("n", total).num("m", ok).end()
			count("calls", len(us)+1)
			count("alike", 1)
		})
	}
}

// wordWindows looks at the end of words of every three of some characters.
func wordWindows(append_ bool) {
	t := open("TraceWords", 300000)
	var us [][]byte
	for _, u := range telling("enc") {
		if utf8.Valid(u) {
			us = append(us, u)
		}
	}
	for _, y := range us {
		t.boundary()
		what := fmt.Sprintf("words of three characters with %q in the middle", y)
		t.scenario(what)
		beat.Add(1)
		t.guard(what, func() {
			for _, z := range us {
				w := string(y) + string(z)
				p := posts[rng.Intn(len(posts))]
				m := 0
				if append_ {
					v := hangul.AppendPostposition(w, p[0], p[1])
					for _, x := range us {
						s := string(x) + w
						if got := hangul.AppendPostposition(s, p[0], p[1]); got != string(x)+v {
							app(t, s, p[0], p[1])
							break
						}
						m++
					}
					t.new("approw").bytes("w", []byte(w)).bytes("a", []byte(p[0])).bytes("b", []byte(p[1])).bytes("v", []byte(v)).num("n", len(us)).num("m", m).end()
					continue
				}
				v, e := hangul.LastConsonant(w), hangul.EndsWithConsonant(w)
				for _, x := range us {
					s := string(x) + w
					if hangul.LastConsonant(s) != v || hangul.EndsWithConsonant(s) != e {
						word(t, []byte(s))
						break
					}
					m++
				}
				t.new("wordrow").bytes("w", []byte(w)).num("v", int(v)).num("e", b2i(e)).num("n", len(us)).num("m", m).end()
			}
		})
	}
	count("calls", len(us)*len(us)*len(us))
}

func init() {
	drivers["C08windows"] = func() { wordWindows(false) }
	drivers["C09windows"] = func() { wordWindows(true) }
	drivers["C11windows"] = func() {
		w := whole{"Convert", func(b []byte) ([]byte, error) { return []byte(hanja.Convert(string(b))), nil }}
		t := open("TraceHanja", 300000)
		allWindows(t, "hanja", w, "conv", 1)
		alike(t, "hanja", w, "conv", utf8s(append(runes(0x3400, 0x9FFF), runes(0xF900, 0xFAFF)...)), pick(20, 2))
		alike(t, "hanja", w, "conv", utf8s(append(runes(0x80, 0x33FF), runes(0xAC00, 0xD7A3)...)), pick(40, 4))
	}
	drivers["C16windows"] = func() {
		t := open("TraceCodec", 400000)
		allWindows(t, "dec", whole{"From", cp949.From}, "conv", 1)
		allWindows(t, "enc", whole{"To", cp949.To}, "conv", 1)
		alike(t, "dec", whole{"From", cp949.From}, "conv", codePairs("dec"), pick(6, 1))
		alike(t, "enc", whole{"To", cp949.To}, "conv", codePairs("enc"), pick(6, 1))
	}
	drivers["C17windows"] = func() {
		allWindows(open("TraceCodec", 400000), "dec", readerWay("NewReader", cp949.NewReader), "all", 15)
		alike(open("TraceCodec", 400000), "dec", readerWay("NewReader", cp949.NewReader), "all", codePairs("dec"), pick(6, 1))
	}
	drivers["C19windows"] = func() {
		allWindows(open("TraceCodec", 400000), "enc", writerWay("NewWriter", cp949.NewWriter, noEnd), "sunk", 8)
		alike(open("TraceCodec", 400000), "enc", writerWay("NewWriter", cp949.NewWriter, noEnd), "sunk", codePairs("enc"), pick(6, 1))
	}
	drivers["C23windows"] = func() {
		t := open("TraceCodec", 400000)
		allWindows(t, "dec", readerWay("Decoder.Reader", func(r io.Reader) (io.Reader, error) { return someEncoding().NewDecoder().Reader(r), nil }), "all", 15)
		allWindows(t, "enc", writerWay("Encoder.Writer", func(w io.Writer) (io.Writer, error) { return someEncoding().NewEncoder().Writer(w), nil },
			func(w io.Writer) error { return w.(io.Closer).Close() }), "all", 15)
		allWindows(t, "dec", whole{"Decoder.Bytes", func(b []byte) ([]byte, error) { return someEncoding().NewDecoder().Bytes(b) }}, "conv", 8)
		allWindows(t, "enc", whole{"Encoder.String", func(b []byte) ([]byte, error) {
			s, err := someEncoding().NewEncoder().String(string(b))
			return []byte(s), err
		}}, "conv", 8)
	}
}
