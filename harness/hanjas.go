package main

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"

	"github.com/suapapa/go_hangul/hanja"
)

const hanjaLo, hanjaHi = 0x3400, 0xFAFF

// converted is what Convert gives for r alone, as a rune, or -1.
func converted(r rune) int {
	s := hanja.Convert(string(r))
	c, n := utf8.DecodeRuneInString(s)
	if n != len(s) || n == 0 || c == utf8.RuneError && n != 3 {
		return -1
	}
	return int(c)
}

func hanjaRow(t *trace, lo, hi int) {
	t.boundary()
	what := fmt.Sprintf("IsHanja and Convert of %d..%d", lo, hi)
	t.scenario(what)
	var is, v []int
	t.guard(what, func() {
		for r := lo; r <= hi; r++ {
			is, v = append(is, b2i(hanja.IsHanja(rune(r)))), append(v, converted(rune(r)))
		}
		t.new("row").num("lo", lo).ints("is", is).ints("v", v).end()
	})
	count("calls", 2*len(is))
}

// hanjaNone records the runes of lo..hi for which IsHanja is false, and
// if conv is true Convert gives the same, as runs; others as rows.
func hanjaNone(t *trace, lo, hi int, conv bool) {
	t.boundary()
	what := fmt.Sprintf("IsHanja of %d..%d", lo, hi)
	t.scenario(what)
	start := lo
	flush := func(end int) {
		if start <= end {
			op := "isrun"
			t.new(op).num("lo", start).num("hi", end).end()
			if conv {
				t.new("same").num("lo", start).num("hi", end).end()
			}
		}
	}
	t.guard(what, func() {
		for r := lo; r <= hi; r++ {
			if r&0xffff == 0 {
				beat.Add(1)
			}
			if hanja.IsHanja(rune(r)) || conv && converted(rune(r)) != r {
				flush(r - 1)
				hanjaRow(t, r, r)
				start = r + 1
			}
		}
		flush(hi)
	})
	count("calls", hi-lo+1)
}

func hanjaConv(t *trace, s []byte) {
	t.boundary()
	what := fmt.Sprintf("Convert of %d bytes", len(s))
	if len(s) < 60 {
		what = fmt.Sprintf("Convert(%q)", s)
	}
	t.scenario(what)
	t.guard(what, func() {
		t.new("conv").bytes("s", s).bytes("v", []byte(hanja.Convert(string(s)))).end()
	})
	count("calls", 1)
}

// hanjaContext records what becomes of each of rs between x and y.  What
// becomes of x and y is given once, as far as it is always the same.
func hanjaContext(t *trace, x, y string, lo int, rs []rune) {
	t.boundary()
	what := fmt.Sprintf("Convert of %d runes from %d on between %q and %q", len(rs), rs[0], x, y)
	t.scenario(what)
	t.guard(what, func() {
		nx, ny := utf8.RuneCountInString(x), utf8.RuneCountInString(y)
		var px, py string
		var v []int
		for _, r := range rs {
			s := x + string(r) + y
			out := hanja.Convert(s)
			c := []rune(out)
			if len(c) != nx+1+ny || string(c) != out {
				hanjaConv(t, []byte(s))
				v = append(v, -1)
				continue
			}
			a, b := string(c[:nx]), string(c[nx+1:])
			if len(v) == 0 {
				px, py = a, b
			}
			if a != px || b != py {
				hanjaConv(t, []byte(s))
			}
			v = append(v, int(c[nx]))
		}
		t.new("ctx").bytes("x", []byte(x)).bytes("y", []byte(y)).bytes("px", []byte(px)).bytes("py", []byte(py))
		if lo != 0 {
			t.num("lo", lo).ints("v", v).end()
		} else {
			t.num("lo", 0).ints("rs", ofRunes(rs)).ints("v", v).end()
		}
		count("calls", len(rs))
	})
}

// tricky are hanja that are read in more than one way, by themselves or in
// words: those that Unicode has as compatibility ideographs of KS X 1001,
// numerals, and the like.
func tricky() []rune {
	seen := map[rune]bool{}
	var rs []rune
	add := func(r rune) {
		if !seen[r] {
			seen[r] = true
			rs = append(rs, r)
		}
	}
	for r := rune(0xF900); r <= 0xFA0B; r++ {
		for _, c := range norm.NFD.String(string(r)) {
			add(c)
		}
	}
	for _, r := range "一二三四五六七八九十百千萬億兆年月日不女兩老里林李柳羅率列金車大小人國漢字韓中初末次" {
		add(r)
	}
	return rs
}

// contexts puts every hanja between all kinds of other characters.
func contexts(t *trace) {
	var blocks [][2]int
	for lo := 0x3400; lo < 0xFB00; lo += 0x400 {
		if lo >= 0xA000 && lo < 0xF800 {
			continue
		}
		blocks = append(blocks, [2]int{lo, lo + 0x3ff})
	}
	every := func(x, y string) {
		for _, b := range blocks {
			var rs []rune
			for r := b[0]; r <= b[1]; r++ {
				rs = append(rs, rune(r))
			}
			hanjaContext(t, x, y, b[0], rs)
		}
	}
	around := []string{"가", "각", "란", "가(", "a", "1", " ", "(", "[", "「", "々", "大", "〇", "\uFFFD", "\x00", "\n", "의 ", "\u3000", "の", "⿰", "ㄱ", "ᄀ", "!"}
	after := []string{"가", "각", "", "(가)", "a", "1", " ", ")", "]", "」", "々", "大", "\uFE00", "\uFFFD", "\x00", "\n", "을", "\U000E0100", "ん", "\u0301", "ㅏ", "ᅡ", "ᆨ", ".", "\xff"}
	tr := tricky()
	one := func() string { return string(tr[rng.Intn(len(tr))]) }
	for _, x := range around {
		if *thorough || rng.Intn(4) == 0 {
			every(x, "")
		}
	}
	for _, y := range after {
		if *thorough || rng.Intn(4) == 0 {
			every("", y)
		}
	}
	for i := 0; i < pick(6, 60); i++ {
		every(around[rng.Intn(len(around))], after[rng.Intn(len(after))])
	}
	for i := 0; i < pick(4, 60); i++ {
		every(one(), "")
		every("", one())
		every(one(), one())
	}
	// every two of the tricky ones, alone and with something around them
	for _, r := range tr {
		hanjaContext(t, string(r), "", 0, tr)
		if i := rng.Intn(len(around)); *thorough || rng.Intn(4) == 0 {
			hanjaContext(t, around[i]+string(r), after[rng.Intn(len(after))], 0, tr)
		}
		for i := 0; i < pick(1, 8); i++ {
			hanjaContext(t, string(r), one(), 0, tr)
		}
	}
	for _, x := range around {
		for _, y := range after {
			hanjaContext(t, x, y, 0, tr[rng.Intn(len(tr)/2):][:20])
		}
	}
}

func init() {
	drivers["C12"] = func() {
		t := open("TraceHanja", 300000)
		// in any order of blocks
		var los []int
		for lo := hanjaLo; lo <= hanjaHi; lo += 256 {
			los = append(los, lo)
		}
		for _, i := range rng.Perm(len(los)) {
			hanjaRow(t, los[i], los[i]+255)
		}
		hanjaNone(t, 0, hanjaLo-1, true)
		hanjaNone(t, hanjaHi+1, 0x10FFFF, true)
		if *thorough {
			for a := math.MinInt32; a <= math.MaxInt32; a += 1 << 28 {
				b := a + 1<<28 - 1
				switch {
				case b < 0 || a > 0x10FFFF:
					hanjaNone(t, a, b, false)
				case a == 0:
					hanjaNone(t, 0x110000, b, false)
				}
			}
		} else {
			hanjaNone(t, 0x110000, 0x220000, false)
			hanjaNone(t, -0x20000, -1, false)
			for k := 16; k < 31; k++ {
				hanjaNone(t, hanjaLo+1<<k, hanjaHi+1<<k, false)
				hanjaNone(t, hanjaLo-1<<k, hanjaHi-1<<k, false)
			}
			hanjaNone(t, math.MinInt32, math.MinInt32+70000, false)
			hanjaNone(t, math.MaxInt32-70000, math.MaxInt32, false)
		}
		// each in a text, with what is before and after it
		for i := 0; i < pick(300, 3000); i++ {
			var s []byte
			for k := 0; k < 40; k++ {
				s = utf8.AppendRune(s, someHanja())
			}
			hanjaConv(t, s)
		}
	}
	drivers["C11"] = func() {
		t := open("TraceHanja", 400000)
		// all of them, each once, in any order
		all := rng.Perm(hanjaHi - hanjaLo + 1)
		for len(all) > 0 {
			n := 1 + rng.Intn(400)
			if n > len(all) {
				n = len(all)
			}
			var s []byte
			for _, i := range all[:n] {
				if r := rune(hanjaLo + i); scalar(r) {
					s = utf8.AppendRune(s, r)
				}
			}
			hanjaConv(t, s)
			all = all[n:]
		}
		contexts(t)
		known("enc", func(s []byte) {
			hanjaConv(t, s)
			hanjaConv(t, []byte(strings.ReplaceAll(string(s), "각", string(someHanja()))))
		})
		for i := 0; i < pick(4000, 60000); i++ {
			hanjaConv(t, someText(rng.Intn(10)))
		}
		for i := 0; i < pick(250, 2500); i++ {
			hanjaConv(t, someText(someLen(1500)))
		}
		for i := 0; i < pick(4, 40); i++ {
			hanjaConv(t, someText(2000+rng.Intn(5000)))
		}
		for _, n := range bigLens(pick(4, 20)) {
			text := bigText("enc", n)
			for k := 0; k < 200; k++ {
				at := rng.Intn(len(text) - 3)
				copy(text[at:], string(someHanja()))
			}
			hanjaConv(t, text)
		}
		for _, text := range exactTexts("enc", pick(16, 18)) {
			s := string(text)
			if rng.Intn(2) == 0 {
				s = strings.ReplaceAll(s, "가", "大")
			}
			hanjaConv(t, []byte(s))
		}
		bigHanja()
		// the same hanja many times, hanja at the beginning and at the end
		for i := 0; i < pick(200, 2000); i++ {
			var s []byte
			r := someHanja()
			for k := rng.Intn(6); k >= 0; k-- {
				s = utf8.AppendRune(s, r)
			}
			s = append(s, someText(rng.Intn(4))...)
			hanjaConv(t, utf8.AppendRune(s, someHanja()))
		}
		for b := 0; b < 256; b++ {
			hanjaConv(t, []byte{byte(b)})
			hanjaConv(t, append([]byte("漢"), byte(b)))
			hanjaConv(t, append([]byte{byte(b)}, "字"...))
			hanjaConv(t, append([]byte("漢字")[:5], byte(b)))
		}
	}
}
