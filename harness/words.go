package main

import (
	"fmt"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
)

func scalar(r rune) bool { return r >= 0 && r <= 0x10FFFF && (r < 0xD800 || r > 0xDFFF) }

// lastScan records LastConsonant and EndsWithConsonant of pre+r for r in
// lo..hi.
func lastScan(t *trace, pre string, lo, hi rune) {
	t.boundary()
	what := fmt.Sprintf("LastConsonant(%q + rune %d..%d)", pre, lo, hi)
	t.scenario(what)
	var rs, vs, es []int
	at := lo
	run := rune(-1)
	flushRun := func(end rune) {
		if run >= 0 {
			t.new("lastrun").bytes("pre", []byte(pre)).num("lo", int(run)).num("hi", int(end)).end()
			run = -1
		}
	}
	flush := func() {
		if len(rs) > 0 {
			t.new("last").bytes("pre", []byte(pre)).ints("r", rs).ints("v", vs).ints("e", es).end()
			rs, vs, es = nil, nil, nil
		}
	}
	n := 0
	t.guard(what, func() {
		for r := lo; r <= hi; r++ {
			at = r
			if !scalar(r) {
				flushRun(r - 1)
				r = 0xDFFF
				continue
			}
			if r&0xfff == 0 {
				beat.Add(1)
			}
			w := pre + string(r)
			v, e := hangul.LastConsonant(w), hangul.EndsWithConsonant(w)
			n++
			if v == 0 && !e && (r < 0xAC00 || r > 0xD7A3) {
				if run < 0 {
					run = r
				}
				continue
			}
			flushRun(r - 1)
			rs, vs, es = append(rs, int(r)), append(vs, int(v)), append(es, b2i(e))
			if len(rs) >= 600 {
				flush()
				t.boundary()
			}
		}
		flushRun(hi)
		flush()
	})
	_ = at
	count("calls", 2*n)
}

func word(t *trace, w []byte) {
	t.boundary()
	t.scenario(fmt.Sprintf("LastConsonant(%q)", w))
	t.guard(fmt.Sprintf("LastConsonant(%q)", w), func() {
		s := string(w)
		v, e := hangul.LastConsonant(s), hangul.EndsWithConsonant(s)
		t.new("word").bytes("w", w).num("v", int(v)).num("e", b2i(e)).end()
	})
	count("calls", 2)
}

func app(t *trace, w, a, b string) {
	t.boundary()
	t.scenario(fmt.Sprintf("AppendPostposition(%q, %q, %q)", w, a, b))
	t.guard(fmt.Sprintf("AppendPostposition(%q, %q, %q)", w, a, b), func() {
		v := hangul.AppendPostposition(w, a, b)
		t.new("app").bytes("w", []byte(w)).bytes("a", []byte(a)).bytes("b", []byte(b)).bytes("v", []byte(v)).end()
	})
	count("calls", 1)
}

var posts = [][2]string{
	{"을", "를"}, {"이", "가"}, {"은", "는"}, {"과", "와"}, {"으로", "로"}, {"아", "야"},
	{"으로서", "로서"}, {"으로써", "로써"}, {"으로부터", "로부터"}, {"이라", "라"}, {"이여", "여"}, {"이랑", "랑"},
	{"으로", ""}, {"", "로"}, {"", ""}, {"로", "으로"}, {"으로", "으로"}, {"으", "로"}, {"으로", "를"}, {"으로 ", "로"}, {"은", "은"},
	{"eun", "neun"}, {"\xff", "\xea\xb0"}, {"\xec\x9c", "\x80"}, {"이\x00", "가\n"}, {"\u110b\u1173\u1105\u1169", "로"},
}

// forms are the forms of postpositions, and of endings.
var forms = []string{"", "을", "를", "이", "가", "은", "는", "과", "와", "으로", "로", "아", "야", "이여", "여", "이랑", "랑", "이나", "나", "이라", "라",
	"으로서", "로서", "으로써", "로써", "으로부터", "으로부터", "이든지", "든지", "이며", "며", "에서", "의", "도"}

// someWord is a word which ends in something of interest.
func someWord() []byte {
	w := someText(rng.Intn(6))
	switch rng.Intn(9) {
	case 0, 1, 2, 3:
		w = utf8.AppendRune(w, rune(0xAC00+rng.Intn(11172)))
	case 4: // rieul
		w = utf8.AppendRune(w, rune(0xAC00+28*rng.Intn(399)+8))
	case 5: // truncated
		s := string(rune(0xAC00 + rng.Intn(11172)))
		w = append(w, s[:rng.Intn(3)]...)
	case 6: // continuation after a syllable
		w = append(utf8.AppendRune(w, rune(0xAC00+rng.Intn(11172))), byte(0x80+rng.Intn(64)))
	}
	return w
}

// triples are words of three bytes around those of a syllable.
func triples(f func([]byte)) {
	for i := 0; i < pick(1500, 20000); i++ {
		s := []byte(string(rune(0xAC00 + rng.Intn(11172))))
		switch rng.Intn(4) {
		case 0:
			s[rng.Intn(3)] = byte(rng.Intn(256))
		case 1:
			k := rng.Intn(3)
			s = append(s[:k], s[k+1:]...)
		case 2:
			k := rng.Intn(4)
			s = append(s[:k], append([]byte{byte(rng.Intn(256))}, s[k:]...)...)
		case 3:
			s = append([]byte(string(rune(0xAC00 + rng.Intn(11172))))[:1+rng.Intn(3)], s...)
		}
		f(s)
	}
}

// decorated are words with something before, around or after their last
// syllable.
func decorated(f func([]byte)) {
	wraps := [][2]string{{"(", ")"}, {"[", "]"}, {"{", "}"}, {"<", ">"}, {"\"", "\""}, {"'", "'"}, {"“", "”"}, {"‘", "’"}, {"「", "」"},
		{"『", "』"}, {"〈", "〉"}, {"《", "》"}, {"（", "）"}, {"<b>", "</b>"}, {"*", "*"}, {"`", "`"}}
	ends := []string{" ", "\t", "\n", "\r\n", "\u3000", "\u00a0", ".", ",", "!", "?", "~", "…", "...", "。", "、", ":", ";", "-", "/", "%", "㎏", "kg", "1", "3", "10", "①", "Ⅲ", "㈜",
		"\u200b", "\u200d", "\u2060", "\ufeff", "\ufe0f", "\u0301", "\u00ad", "ㅋ", "ㅏ", "ᆨ", "ᅡ", "ᄀ", "\u115f", "\u3164", "ﾡ", "A", "n", "L", "m", "漢", "々", "\x00", "\x7f", "\xff", "\ufffd", "の", "님", "씨"}
	syl := []string{"가", "각", "말", "닭", "삶", "김", "있", "강", "않", "\u1100\u1161\u11a8", "서울", "a"}
	for _, a := range syl {
		for _, e := range ends {
			f([]byte(a + e))
			f([]byte(a + e + ends[rng.Intn(len(ends))]))
			f([]byte(e + a))
		}
		for _, w := range wraps {
			b := syl[rng.Intn(len(syl))]
			f([]byte(w[0] + a + w[1]))
			f([]byte(a + w[0] + b + w[1]))
			f([]byte(a + " " + w[0] + b + w[1] + ends[rng.Intn(len(ends))]))
			f([]byte(a + w[0] + ends[rng.Intn(len(ends))] + w[1]))
			f([]byte(w[0] + a))
			f([]byte(a + w[1]))
		}
	}
}

func init() {
	drivers["C08"] = func() {
		t := open("TraceWords", 300000)
		lastScan(t, "", 0, 0x10FFFF)
		pres := []string{"가", "각", "a", "한글 말", "\xff", "\xea\xb0", "\xf0\x9f", "\u11a8", "😀", "각\u0000"}
		for i, p := range pres {
			switch {
			case *thorough:
				lastScan(t, p, 0, 0x10FFFF)
			case i < 3:
				lastScan(t, p, 0x1000, 0xFFFF)
			default:
				lo := rune(0xAC00 + rng.Intn(10000))
				lastScan(t, p, lo, lo+500)
				lastScan(t, p, 0, 0x3FF)
				lastScan(t, p, 0x1100, 0x11FF)
				lastScan(t, p, 0x3000, 0x31FF)
			}
		}
		decorated(func(w []byte) { word(t, w) })
		known("enc", func(w []byte) { word(t, w) })
		bigWords()
		word(t, nil)
		triples(func(w []byte) { word(t, w) })
		for i := 0; i < pick(4000, 60000); i++ {
			word(t, someWord())
		}
		for i := 0; i < pick(40, 400); i++ {
			word(t, append(someText(someLen(1500)), someWord()...))
		}
		for _, text := range exactTexts("enc", pick(15, 18)) {
			word(t, text)
			word(t, append(clone(text), someWord()...))
		}
		for _, n := range bigLens(pick(6, 30)) {
			word(t, append(bigText("enc", n), someWord()...))
		}
		// the last character, cut off at each byte, and what may follow it
		for _, x := range []string{"각", "말", "가", "😀", "é", "ᆨ", "\xed\xa0\x80", "\xf4\x90\x80\x80"} {
			for k := 0; k <= len(x); k++ {
				for _, pre := range []string{"", "각", "말 ", "a", "\xea", "\xea\xb0", "\xf0\x9f\x98"} {
					for _, post := range []string{"", "\x80", "\x81", "\xb0\x81", "\x80\x80\x80\x80", "\xff", "\x00", " ", "각"} {
						word(t, []byte(pre+x[:k]+post))
					}
				}
			}
		}
	}
	drivers["C09"] = func() {
		t := open("TraceWords", 300000)
		for _, p := range [][2]string{{"을", "를"}, {"으로", "로"}} {
			p := p
			for k := 0; k < 4; k++ {
				t.boundary()
				t.scenario("AppendPostposition of all syllables and jamo")
				var rs, took []int
				t.guard("AppendPostposition of one rune", func() {
					f := func(r rune) {
						w := string(r)
						x := 2 // neither
						switch hangul.AppendPostposition(w, p[0], p[1]) {
						case w + p[0]:
							x = 1
						case w + p[1]:
							x = 0
						}
						rs, took = append(rs, int(r)), append(took, x)
					}
					for r := rune(0xAC00); r <= 0xD7A3; r++ {
						if int(r)%4 == k {
							f(r)
						}
					}
					for r := rune(0x1000 + 0x1000*k); r <= rune(0x11FF+0x1000*k); r++ {
						f(r)
					}
				})
				t.new("apprun").ints("r", rs).bytes("a", []byte(p[0])).bytes("b", []byte(p[1])).ints("took", took).end()
				count("calls", len(rs))
			}
		}
		for _, p := range posts {
			app(t, "", p[0], p[1])
			for i := 0; i < pick(40, 500); i++ {
				app(t, string(someWord()), p[0], p[1])
			}
			for i := 0; i < 10; i++ { // rieul
				app(t, string(rune(0xAC00+28*rng.Intn(399)+8)), p[0], p[1])
				app(t, string(someText(3))+string(rune(0xAC00+28*rng.Intn(399)+8)), p[0], p[1])
				app(t, string(rune(0xAC00+28*rng.Intn(399))), p[0], p[1])
			}
			// tails which have rieul in them
			for _, k := range []int{8, 9, 10, 11, 12, 13, 14, 15} {
				app(t, string(rune(0xAC00+28*rng.Intn(399)+k)), p[0], p[1])
			}
			app(t, string(someText(someLen(800)))+"말", p[0], p[1])
		}
		// each form with each other one, in either order
		for _, a := range forms {
			for _, b := range forms {
				for _, w := range []string{"말", "각", "가", string(rune(0xAC00 + rng.Intn(11172)))} {
					app(t, w, a, b)
				}
				app(t, string(someWord()), a, b)
			}
		}
		for _, text := range exactTexts("enc", pick(13, 17)) {
			p := posts[rng.Intn(len(posts))]
			app(t, string(text), p[0], p[1])
			app(t, "각", string(text), "x"+string(text))
		}
		for _, n := range bigLens(pick(4, 20)) {
			p := posts[rng.Intn(len(posts))]
			app(t, string(bigText("enc", n))+string(someWord()), p[0], p[1])
			app(t, string(someWord()), string(bigText("enc", n)), string(bigText("enc", n/2)))
		}
		decorated(func(w []byte) {
			p := posts[rng.Intn(len(posts))]
			app(t, string(w), p[0], p[1])
			app(t, string(someWord()), string(w), p[1])
			app(t, string(someWord()), p[0], string(w))
		})
		bigApp()
		known("enc", func(w []byte) {
			p := posts[rng.Intn(len(posts))]
			app(t, string(w), p[0], p[1])
			app(t, string(someWord()), string(w), p[1])
			app(t, string(someWord()), p[1], string(w))
		})
		triples(func(w []byte) {
			p := posts[rng.Intn(len(posts))]
			app(t, string(w), p[0], p[1])
		})
		for i := 0; i < pick(2500, 40000); i++ {
			a, b := string(someText(rng.Intn(4))), string(someText(rng.Intn(4)))
			if i%5 == 0 {
				a = "으로"
			}
			if i%7 == 0 {
				b = a
			}
			app(t, string(someWord()), a, b)
		}
	}
}
