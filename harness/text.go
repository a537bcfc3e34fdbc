package main

import (
	"runtime"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/transform"
)

var _ = transform.ErrShortDst

var (
	symbols  = []rune("　、。·‥…¨〃―∥＼∼£ÀЖあアΩ㈜㉠½⅓℡㏇ɐ¤！～￦\ufeff\ufffd\u00a0\u0080\u07ff\u0800\uffff\ue000")
	controls = []byte("\r\n\t \x00?0Zz~\x7f\\")
)

// knownTexts are sequences which mean something to someone: marks, escapes
// and what other encodings and normalisations would make of them.
var knownTexts = []string{
	"\ufeff", "\ufffe", "\xff\xfe", "\xfe\xff", "\u1100\u1161", "\u1112\u1161\u11ab", "하\u11ab", "가\u11a8", "각\u11ba", "\u1100\u1100", "\u1105\u1173\u11b8",
	"ㅎㅏㄴ", "ㄱㅏ", "ㅗㅏ", "ㄱㄱ", "ㄹㄱ", "\u115f\u1161", "\u1100\u1160", "\u3164", "\uffa0", "ﾡￂﾤ", "&#44032;", "&#xAC00;", "&amp;", "&lt;", "\\uAC00", "\\xb0\\xa1", "%EA%B0%80", "=EA=B0=80",
	"+rAA-", "\x1b$)C", "\x0e0!\x0f", "\x1b[0m", "\r\n", "\n\r", "\r", "\u2028", "\u0085", "e\u0301", "Å", "\u212b", "\ufb01", "\u200d", "\u200b", "\ufe0f", "漢\U000e0100", "更", "\uf901", "\u3402", "🇰🇷", "👨\u200d👩",
	"\xed\xa0\xbd\xed\xb8\x80", "\xed\xa0\x80", "\xc0\x80", "\ufffd", "\ufffd\ufffd", "\xef\xbf", "\x1a", "\x00", "\x00\x00", "??", "\\", "₩", "\u20a9", "￦", "¥", "~", "\u301c", "～", "\u2015", "—", "·", "ㆍ", "\u2219", "€", "®", "™",
	"한국어", "大韓民國", "大韓民國(대한민국)", "韓國(한국)", "漢(한)", "女子", "老人", "來日", "六月", "十月", "不動", "不", "金", "金氏", "率", "%u", "\ue0bc", "\ue37f", "\ufdd0", "\uffff", "\U0010ffff", "\U00020000", "\u0301", "\u302e", "\u302f", "\ua960\ud7b0\ud7cb",
}

// knownCodes are the same for CP949.
var knownCodes = []string{
	"\x1b$)C", "\x1b$)C\x0e0!\x0f", "\x0e", "\x0f", "\xa4\xd4", "\xa4\xd4\xa4\xa1\xa4\xbf\xa4\xd4", "\xa4\xd4\xa4\xbe\xa4\xbf\xa4\xa4", "\xa4\xa1\xa4\xbf", "\xa2\xe6", "\xa2\xe7", "\xa2\xe8", "\xa1\xad", "\xa3\xdc", "\xa3\xfe", "\xa1\xa4", "\xa1\xaa", "\xa1\xab", "\xa1\xa1",
	"\x5c", "\x7e", "\x80", "\xa0", "\xff", "\x00", "\x00\x00", "\x1a", "\r\n", "\r", "\n\r", "\xc9\xa1", "\xfe\xa1", "\xc9\xfe", "\xfe\xfe", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xea\xb0\x80", "\xb0\x5c", "\xb0\x0d", "\xb0\x0a", "\xb0\x20", "\xb0\x3c", "\xb0\x27", "\xb0\x22",
	"\xb0\xb0\xa1\xa1", "\xb0\xff", "\xb0\x80", "\x81\x41", "\x81\x5b", "\x81\x60", "\x81\x7b", "\x81\x80", "\xc6\x52", "\xc6\x53", "\xc6\xa0", "\xc7\xa1", "\xa2\x41", "\xa1\x40", "\x8e\xa1", "\x8f\xa1\xa1", "\x84\x31\xa4\x37", "\xfd\xfe", "\xc8\xfe", "\xca\xa1", "?", "??", "~{", "~}", "&#44032;", "\\u",
	"\xc7\xd1\xb1\xdb", "\xd9\xa5", "\xb6\xca", "\x94\xee", "\x88\x61", "\xf0\xb0\xa1", "\xb0\xa1\xb0", "\x8c\x63\xb9\xe6\xb0\xa2\xc7\xcf",
}

// known are the known texts, each alone, with something before or after it
// and two together.
func known(kind string, f func([]byte)) {
	all := knownTexts
	if kind == "dec" {
		all = knownCodes
	}
	unit := map[string]string{"dec": "\xb0\xa1", "enc": "각"}[kind]
	for _, a := range all {
		f([]byte(a))
		f([]byte(a + unit))
		f([]byte(unit + a))
		f([]byte(a + "x" + a))
		f([]byte(a + a))
		f([]byte("z" + a + all[rng.Intn(len(all))] + "0"))
		f([]byte(strings.Repeat(a, 1+rng.Intn(9)) + unit))
	}
}

// repeated is out with its last part of out once more, or a bit of it.
func repeated(out []byte, start int) []byte {
	if start == len(out) {
		return out
	}
	last := clone(out[start:])
	if len(last) > 200 {
		last = last[len(last)-200:]
	}
	for k := rng.Intn(4); k >= 0; k-- {
		out = append(out, last...)
	}
	return out
}

// someText is text of about n characters of many kinds, not all of it
// valid UTF-8.
func someText(n int) []byte {
	var out []byte
	last, start := 0, 0
	mode := rng.Intn(6)
	for i := 0; i < n; i++ {
		last, start = start, len(out)
		if x := rng.Intn(20); mode == 0 {
			// of one kind
		} else if x == 0 {
			out = repeated(out, last)
			continue
		} else if x < 3 {
			out = append(out, knownTexts[rng.Intn(len(knownTexts))]...)
			continue
		}
		k := rng.Intn(16)
		switch {
		case mode == 0:
			k = 2
		case mode == 1 && k > 3:
			k = 0
		case mode == 2 && k > 8:
			k = 2
		case mode == 3 && k >= 13:
			k = 5
		}
		switch k {
		case 0, 1:
			out = append(out, byte(rng.Intn(128)))
		case 2, 3, 4:
			out = utf8.AppendRune(out, rune(0xAC00+rng.Intn(11172)))
		case 5:
			out = utf8.AppendRune(out, someHanja())
		case 6:
			out = utf8.AppendRune(out, rune(0x3131+rng.Intn(0x33)))
		case 7:
			out = utf8.AppendRune(out, rune(0x1100+rng.Intn(0x100)))
		case 8:
			out = utf8.AppendRune(out, symbols[rng.Intn(len(symbols))])
		case 9:
			out = utf8.AppendRune(out, rune(0x80+rng.Intn(0x780)))
		case 10:
			out = utf8.AppendRune(out, rune(0x800+rng.Intn(0xF800)))
		case 11:
			out = utf8.AppendRune(out, rune(0x10000+rng.Intn(0x100000)))
		case 12:
			out = append(out, controls[rng.Intn(len(controls))])
		case 13:
			out = append(out, byte(0x80+rng.Intn(128)))
		case 14: // beginning of a character
			s := string([]rune{0xAC00, 0x1F600, 0x7FF, 0xD7A3, 0x4E00}[rng.Intn(5)])
			out = append(out, s[:1+rng.Intn(len(s)-1)]...)
		case 15: // ill-formed
			out = append(out, []string{"\xc0\x80", "\xe0\x80\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x80\x80\x80", "\xc1", "\xf5", "\xff", "\xbf\xbf", "\xe0\x9f\xbf", "\xed\xbf\xbf", "\xf8\x88\x80\x80\x80"}[rng.Intn(12)]...)
		}
	}
	return out
}

// someHanja is a hanja, most likely.
func someHanja() rune {
	switch rng.Intn(8) {
	case 0:
		return rune(0x3400 + rng.Intn(0x19B6))
	case 1:
		return rune(0xF900 + rng.Intn(0x110))
	}
	return rune(0x4E00 + rng.Intn(0x5200))
}

// someCodes is a CP949 stream of about n characters, not all of it assigned.
func someCodes(n int) []byte {
	var out []byte
	last, start := 0, 0
	mode := rng.Intn(5)
	for i := 0; i < n; i++ {
		last, start = start, len(out)
		if x := rng.Intn(20); mode == 0 {
			// of one kind
		} else if x == 0 {
			out = repeated(out, last)
			continue
		} else if x < 3 {
			out = append(out, knownCodes[rng.Intn(len(knownCodes))]...)
			continue
		}
		k := rng.Intn(12)
		switch {
		case mode == 0:
			k = 3
		case mode == 1 && k > 3:
			k = 0
		case mode == 2 && k > 5:
			k = 3
		}
		switch k {
		case 0, 1, 2:
			out = append(out, byte(rng.Intn(128)))
		case 3, 4:
			out = append(out, byte(0xB0+rng.Intn(25)), byte(0xA1+rng.Intn(94)))
		case 5:
			out = append(out, byte(0xCA+rng.Intn(52)), byte(0xA1+rng.Intn(94)))
		case 6:
			out = append(out, byte(0x81+rng.Intn(0x46)), byte(0x41+rng.Intn(0xBE)))
		case 7:
			out = append(out, byte(0xA1+rng.Intn(12)), byte(0xA1+rng.Intn(94)))
		case 8:
			out = append(out, byte(0x80+rng.Intn(128)), byte(rng.Intn(256)))
		case 9:
			out = append(out, byte(rng.Intn(256)))
		case 10:
			out = append(out, byte(0x80+rng.Intn(128)), byte(0x80+rng.Intn(128)))
		case 11:
			out = append(out, []string{"\xb0\x00", "\x80\x80", "\xff\xff", "\xa1\x41", "\xc9\xa1", "\xfe\xfe", "\x81\x40", "\xc6\x53", "\xb0\xb0"}[rng.Intn(9)]...)
		}
	}
	return out
}

// input is text to convert in a direction.
func input(kind string, n int) []byte {
	if kind == "dec" {
		return someCodes(n)
	}
	return someText(n)
}

// someLen is a length, more often short or near a power of two.
func someLen(max int) int {
	var n int
	switch rng.Intn(6) {
	case 0, 1:
		n = rng.Intn(5)
	case 2:
		n = rng.Intn(40)
	case 3:
		n = 1<<uint(3+rng.Intn(10)) - 3 + rng.Intn(6)
	case 4:
		n = (1<<uint(3+rng.Intn(10)))/3 - 2 + rng.Intn(4)
	case 5:
		n = rng.Intn(max + 1)
	}
	if n > max {
		n = rng.Intn(max + 1)
	}
	if n < 0 {
		n = 0
	}
	return n
}

// bigLens are n lengths beyond what small buffers and counters hold.
func bigLens(n int) (ls []int) {
	for i := 0; i < n; i++ {
		switch i % 6 {
		case 0:
			ls = append(ls, 65533+rng.Intn(8))
		case 1:
			ls = append(ls, 66000+rng.Intn(40000))
		case 2:
			ls = append(ls, 32765+rng.Intn(8))
		case 3:
			ls = append(ls, 16381+rng.Intn(8))
		case 4:
			ls = append(ls, 131069+rng.Intn(8))
		case 5:
			ls = append(ls, 140000+rng.Intn(pick(60000, 900000)))
		}
		ls[i] = min(ls[i], 1<<uint(upTo(24)))
	}
	return ls
}

// bigText is text of n bytes.
func bigText(kind string, n int) []byte {
	out := make([]byte, 0, n+64)
	unit := [][]byte{input(kind, 20), input(kind, 5), []byte("abc\r\n"), input(kind, 7), []byte("x")}
	mode := rng.Intn(4)
	for len(out) < n {
		switch {
		case mode == 0:
			out = append(out, unit[4]...)
		case mode == 1 && len(out) > 3:
			out = append(out, map[string]string{"dec": "\xb0\xa1", "enc": "가"}[kind]...)
		case rng.Intn(8) == 0:
			out = append(out, input(kind, 1+rng.Intn(6))...)
		default:
			out = append(out, unit[rng.Intn(len(unit))]...)
		}
	}
	return out[:n]
}

// exactTexts are texts whose length, or that of what becomes of them, is
// exactly a power of two, or next to one.
func exactTexts(kind string, top int) (all [][]byte) {
	top = upTo(top)
	for k := 5; k <= top; k++ {
		for d := -2; d <= 2; d++ {
			if k >= 13 && (d == -2 || d == 2) {
				continue
			}
			n := 1<<uint(k) + d
			forms := []int{0, 1, 2}
			if k >= 14 {
				forms = forms[rng.Intn(3):][:1]
			}
			for _, form := range forms {
				var out []byte
				switch {
				case form == 0: // ASCII
					out = []byte(strings.Repeat("z", n))
				case form == 1: // n bytes of hangul in all
					u := map[string]string{"dec": "\xb0\xa1", "enc": "가"}[kind]
					out = []byte(strings.Repeat("z", n%len(u)) + strings.Repeat(u, n/len(u)))
				default: // hangul which becomes n bytes
					u, m := "\xb0\xa1", 3
					if kind == "enc" {
						u, m = "가", 2
					}
					out = []byte(strings.Repeat(u, n/m) + strings.Repeat("z", n%m))
				}
				all = append(all, out)
			}
		}
	}
	return all
}

// maybeGC collects garbage, now and then.
var gcs = 0

func maybeGC(rate int) {
	if gcs < 400 && rng.Intn(rate) == 0 {
		gcs++
		runtime.GC()
	}
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

var _ = strings.Repeat
