package main

import (
	"fmt"
	"math"

	hangul "github.com/suapapa/go_hangul"
)

const (
	supLo = 0x1100
	supHi = 0xD7A3
)

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// fn is a function on runes: an integer, or, if js is not "", that JSON.
type fn struct {
	name string
	zero string // JSON of the integer 0, if not "0"
	f    func(r rune) (v int, js string)
}

func boolFn(name string, f func(rune) bool) fn {
	return fn{name: name, f: func(r rune) (int, string) { return b2i(f(r)), "" }}
}
func runeFn(name string, f func(rune) rune) fn {
	return fn{name: name, f: func(r rune) (int, string) { return int(f(r)), "" }}
}
func partFn(name string, i int, f func(rune) (rune, rune, rune)) fn {
	return fn{name: fmt.Sprint(name, i), f: func(r rune) (int, string) {
		l, m, t := f(r)
		return int([3]rune{l, m, t}[i-1]), ""
	}}
}

var classes = []fn{
	boolFn("IsLead", hangul.IsLead), boolFn("IsMedial", hangul.IsMedial), boolFn("IsTail", hangul.IsTail),
	boolFn("IsJaeum", hangul.IsJaeum), boolFn("IsMoeum", hangul.IsMoeum), boolFn("IsHangul", hangul.IsHangul),
}
var conversions = []fn{
	runeFn("CompatJamo", hangul.CompatJamo), runeFn("Lead", hangul.Lead),
	runeFn("Medial", hangul.Medial), runeFn("Tail", hangul.Tail),
}
var splits = []fn{
	partFn("Split", 1, hangul.Split), partFn("Split", 2, hangul.Split), partFn("Split", 3, hangul.Split),
	partFn("SplitCompat", 1, hangul.SplitCompat), partFn("SplitCompat", 2, hangul.SplitCompat), partFn("SplitCompat", 3, hangul.SplitCompat),
}
var strokes = []fn{{name: "Stroke", f: func(r rune) (int, string) { return hangul.Stroke(r), "" }}}
var elements = []fn{
	{name: "IsCompound", f: func(r rune) (int, string) { _, ok := hangul.SplitMultiElement(r); return b2i(ok), "" }},
	{name: "Elements", zero: "[]", f: func(r rune) (int, string) {
		e, _ := hangul.SplitMultiElement(r)
		if len(e) == 0 {
			return 0, ""
		}
		v := make([]int, len(e))
		for i, x := range e {
			v[i] = int(x)
		}
		return 0, string(appendInts(nil, v))
	}},
}

type rowWriter struct {
	t    *trace
	f    fn
	lo   int
	rows []byte
	n    int
}

func (w *rowWriter) flush() {
	if w.n > 0 {
		w.t.new("row").num("lo", w.lo).raw("v", "["+string(w.rows)+"]").end()
		w.rows, w.n = w.rows[:0], 0
	}
}
func (w *rowWriter) js(v int, js string) string {
	if js != "" {
		return js
	}
	if v == 0 && w.f.zero != "" {
		return w.f.zero
	}
	return fmt.Sprint(v)
}
func (w *rowWriter) add(r, v int, js string) {
	if w.n == 0 {
		w.lo = r
	} else {
		w.rows = append(w.rows, ',')
	}
	w.rows = append(w.rows, w.js(v, js)...)
	w.n++
	if w.n >= 2048 {
		w.flush()
	}
}

// scan records f for all of lo..hi in ascending order.
func scan(t *trace, f fn, x []int, lo, hi int) {
	t.boundary()
	t.scenario(fmt.Sprintf("%s%v of %d..%d", f.name, x, lo, hi))
	t.new("scan").str("f", f.name).num("lo", lo).ints("x", x).end()
	w := &rowWriter{t: t, f: f}
	at := lo
	ok := t.guard(fmt.Sprintf("%s%v from %d", f.name, x, lo), func() {
		const short = 8
		start := lo // of what is not written yet: a run or a shift or neither
		v0, js0 := f.f(rune(lo))
		kind := 0 // 1: run, 2: shift
		emit := func(end int) {
			n := end - start + 1
			switch {
			case n < short || js0 != "":
				for r := start; r <= end; r++ {
					v := v0
					if kind == 2 {
						v += r - start
					}
					w.add(r, v, js0)
				}
			case kind == 2:
				w.flush()
				t.new("shift").num("lo", start).num("hi", end).num("v", v0).end()
			default:
				w.flush()
				t.new("run").num("lo", start).num("hi", end).raw("v", w.js(v0, "")).end()
			}
		}
		for r := lo + 1; r <= hi; r++ {
			if r&0xffff == 0 {
				beat.Add(1)
			}
			at = r
			v, js := f.f(rune(r))
			k := 0
			if js == js0 {
				if v == v0 && kind != 2 {
					k = 1
				} else if js == "" && v == v0+(r-start) && kind != 1 {
					k = 2
				}
			}
			if k != 0 && r != supLo && r != supHi+1 {
				kind = k
				continue
			}
			emit(r - 1)
			start, v0, js0, kind = r, v, js, 0
		}
		emit(hi)
		w.flush()
		t.new("done").num("hi", hi).end()
	})
	if !ok {
		notes["panic_at"] = at
	}
	count("calls", hi-lo+1)
}

// scanAll scans runes near and in the support, the runes which are that
// but for one high bit or the sign, and some in any order.
func scanAll(t *trace, fns []fn, x []int, lo, hi int) {
	for _, f := range fns {
		if *thorough {
			const step = 1 << 28
			for a := math.MinInt32; a <= math.MaxInt32; a += step {
				scan(t, f, x, a, a+step-1)
			}
		} else {
			scan(t, f, x, lo, hi)
			for k := 15; k < 32; k++ {
				for _, sign := range []int{1, -1} {
					if a, b := supLo-64+sign<<k, supHi+64+sign<<k; a >= math.MinInt32 && b <= math.MaxInt32 && (a < lo || b > hi) {
						scan(t, f, x, a, b)
					}
				}
			}
			scan(t, f, x, math.MinInt32, math.MinInt32+70000)
			scan(t, f, x, math.MaxInt32-70000, math.MaxInt32)
		}
		if len(x) == 0 {
			shuffled(t, f)
		}
	}
}

// someRune is a rune of any kind.
func someRune() rune {
	switch rng.Intn(12) {
	case 0, 1:
		return rune(0x1100 + rng.Intn(0x100))
	case 2, 3:
		return rune(0x3130 + rng.Intn(0x36))
	case 4, 5, 6:
		return rune(0xAC00 + rng.Intn(11172))
	case 7:
		return rune(rng.Uint32())
	case 8:
		return rune([]int{0xABFF, 0xD7A4, 0x10FF, 0x1113, 0x1160, 0x1161, 0x1176, 0x11A7, 0x11A8, 0x11C3, 0x3130, 0x3131, 0x3163, 0x3164, 0, -1, 0xFFFD, 0xA960, 0xD7B0, 0xFFA1}[rng.Intn(20)])
	case 9:
		return rune(rng.Intn(0x10000))
	case 10:
		return rune(rng.Intn(0x110000))
	}
	return rune(rng.Intn(256))
}

// shuffled calls f in any order, with repeats.
func shuffled(t *trace, f fn) {
	for i := 0; i < pick(6, 60); i++ {
		t.boundary()
		t.scenario(f.name + " of runes in any order")
		var rs []int
		var vs []byte
		w := &rowWriter{f: f}
		t.guard(f.name, func() {
			for k := 0; k < 1000; k++ {
				r := someRune()
				if k%7 == 3 && len(rs) > 0 {
					r = rune(rs[rng.Intn(len(rs))])
				}
				v, js := f.f(r)
				rs = append(rs, int(r))
				if k > 0 {
					vs = append(vs, ',')
				}
				vs = append(vs, w.js(v, js)...)
			}
			t.new("at").str("f", f.name).ints("r", rs).raw("v", "["+string(vs)+"]").end()
		})
		count("calls", len(rs))
	}
}

const (
	nearLo = -0x20000
	nearHi = 0x130000
)

// Sets of arguments for Join.
var (
	conjL, conjM, conjT []rune // conjoining jamo, by role
	compL, compM, compT []rune // the same letters, as compatibility jamo
)

func init() {
	l := []rune("ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ")
	t := []rune("ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ")
	for i := range l {
		conjL, compL = append(conjL, rune(0x1100+i)), append(compL, l[i])
	}
	for i := 0; i < 21; i++ {
		conjM, compM = append(conjM, rune(0x1161+i)), append(compM, rune(0x314F+i))
	}
	for i := range t {
		conjT, compT = append(conjT, rune(0x11A8+i)), append(compT, t[i])
	}

	drivers["C01"] = func() {
		scanAll(open("TraceHangul", 1200000), classes, nil, nearLo, nearHi)
	}
	drivers["C02"] = func() {
		t := open("TraceHangul", 500000)
		for _, f := range splits {
			scan(t, f, nil, 0xAC00, 0xD7A3)
			shuffledSyllables(t, f)
		}
		zero := []rune{0}
		joinAll(t, conjL, conjM, append(zero, conjT...))
		joinAll(t, compL, compM, append(zero, compT...))
		back(t)
	}
	drivers["C03"] = joins
	drivers["C04"] = func() {
		t := open("TraceHangul", 1200000)
		for _, f := range splits {
			if !*thorough {
				scan(t, f, nil, 0xAC00-5000, 0xABFF)
				scan(t, f, nil, 0xD7A4, 0xD7A4+5000)
			}
		}
		scanAll(t, splits, nil, nearLo, nearHi)
	}
	drivers["C05"] = func() { scanAll(open("TraceHangul", 1200000), conversions, nil, nearLo, nearHi) }
	drivers["C06"] = func() { scanAll(open("TraceHangul", 1200000), elements, nil, nearLo, nearHi) }
	drivers["C07"] = func() { scanAll(open("TraceHangul", 400000), strokes, nil, nearLo, nearHi) }
	drivers["C10"] = func() {
		t := open("TraceHangul", 1200000)
		t.scenario("constants")
		var names []byte
		var vals []int
		for _, c := range constants {
			if len(names) > 0 {
				names = append(names, ',')
			}
			names = append(names, '"')
			names = append(names, c.name...)
			names = append(names, '"')
			vals = append(vals, int(c.r))
		}
		t.new("consts").raw("n", "["+string(names)+"]").ints("v", vals).end()
		var rs, vs []int
		t.guard("CompatJamo of the constants", func() {
			for _, c := range constants {
				rs, vs = append(rs, int(c.r)), append(vs, int(hangul.CompatJamo(c.r)))
			}
			t.new("at").str("f", "CompatJamo").ints("r", rs).ints("v", vs).end()
		})
		count("calls", 2*len(constants))
	}
}

func shuffledSyllables(t *trace, f fn) {
	t.boundary()
	t.scenario(f.name + " of syllables in any order")
	p := rng.Perm(11172)
	var rs, vs []int
	t.guard(f.name, func() {
		for _, i := range p {
			r := rune(0xAC00 + i)
			v, _ := f.f(r)
			rs, vs = append(rs, int(r)), append(vs, v)
		}
		t.new("at").str("f", f.name).ints("r", rs).ints("v", vs).end()
	})
	count("calls", len(rs))
}

func joinAll(t *trace, ls, ms, ts []rune) {
	for _, l := range ls {
		for _, m := range ms {
			joinRow(t, l, m, ts)
		}
	}
}

func joinRow(t *trace, l, m rune, ts []rune) {
	t.boundary()
	t.scenario(fmt.Sprintf("Join(%d, %d, ...)", l, m))
	var tt, vs []int
	t.guard(fmt.Sprintf("Join(%d, %d, ...)", l, m), func() {
		for _, x := range ts {
			tt, vs = append(tt, int(x)), append(vs, int(hangul.Join(l, m, x)))
		}
		t.new("join").num("l", int(l)).num("m", int(m)).ints("t", tt).ints("v", vs).end()
	})
	count("calls", len(tt))
}

// joinBad records for which of rs f, which is Join with two arguments given,
// gives U+FFFD, and what it gives for the others.
func joinBad(t *trace, name string, a, b rune, rs []rune, f func(rune) rune) {
	t.boundary()
	what := fmt.Sprintf("%s with %d, %d", name, a, b)
	t.scenario(what)
	var good, vs []int
	t.guard(what, func() {
		for _, r := range rs {
			if v := f(r); v != 0xFFFD {
				good, vs = append(good, int(r)), append(vs, int(v))
			}
		}
		t.new("only").str("f", name).ints("x", []int{int(a), int(b)}).ints("r", good).ints("v", vs).end()
	})
	count("calls", len(rs))
}

func back(t *trace) {
	for which, f := range []func(rune) (rune, rune, rune){hangul.Split, hangul.SplitCompat} {
		t.boundary()
		t.scenario("Join of the result of Split")
		var r, l, m, tt, v []int
		t.guard("Join of the result of Split", func() {
			for _, i := range rng.Perm(11172) {
				c := rune(0xAC00 + i)
				a, b, d := f(c)
				r, l, m, tt = append(r, int(c)), append(l, int(a)), append(m, int(b)), append(tt, int(d))
				v = append(v, int(hangul.Join(a, b, d)))
			}
			t.new("back").num("which", which).ints("r", r).ints("l", l).ints("m", m).ints("t", tt).ints("v", v).end()
		})
		count("calls", 2*len(r))
	}
}

func joins() {
	t := open("TraceHangul", 900000)
	ls := append(append([]rune{}, conjL...), compL...)
	ms := append(append([]rune{}, conjM...), compM...)
	ts := append(append([]rune{0}, conjT...), compT...)
	joinAll(t, ls, ms, ts)
	// any jamo in any place
	var all []rune
	// the same as AllJamo of TraceHangul.tla
	for r := rune(0x10F0); r <= 0x11FF; r++ {
		all = append(all, r)
	}
	for r := rune(0x3120); r <= 0x318F; r++ {
		all = append(all, r)
	}
	all = append(all, 0, 1, -1, 0xABFF, 0xAC00, 0xD7A3, 0xFFFD, 0x11100, 0x13131)
	some := func(rs []rune) rune { return rs[rng.Intn(len(rs))] }
	for i := 0; i < pick(600, 6000); i++ {
		l, m := some(ls), some(ms)
		if i%3 == 0 {
			l = some(all)
		}
		if i%3 == 1 {
			m = some(all)
		}
		if i%4 == 3 {
			joinRow(t, l, m, all)
		} else {
			joinRow(t, l, m, ts)
		}
	}
	// each two legal arguments with each other jamo, and what is around them
	var odd []rune
	for _, r := range all {
		odd = append(odd, r)
	}
	for _, l := range ls {
		for _, m := range ms {
			joinBad(t, "JoinT", l, m, odd, func(r rune) rune { return hangul.Join(l, m, r) })
		}
	}
	for _, m := range ms {
		for _, x := range ts {
			joinBad(t, "JoinL", m, x, odd, func(r rune) rune { return hangul.Join(r, m, x) })
		}
	}
	for _, l := range ls {
		for _, x := range ts {
			joinBad(t, "JoinM", l, x, odd, func(r rune) rune { return hangul.Join(l, r, x) })
		}
	}
	// each three of all, and of what differs from them by a bit or more
	far := append([]rune{}, all...)
	for i := 0; i < pick(400, 1800); i++ {
		r := some(all)
		switch i % 4 {
		case 0, 1:
			r ^= 1 << uint(8+rng.Intn(24))
		case 2:
			r = -r
		case 3:
			r = rune(rng.Uint32())
		}
		known := false
		for _, a := range all {
			known = known || a == r
		}
		if !known {
			far = append(far, r)
		}
	}
	for _, l := range far {
		t.boundary()
		what := fmt.Sprintf("Join(%d, ...) with any two others", l)
		t.scenario(what)
		beat.Add(1)
		t.guard(what, func() {
			took := map[rune]bool{}
			var mm, tt []int
			for _, m := range far {
				yes := false
				for _, x := range far {
					if hangul.Join(l, m, x) != 0xFFFD {
						yes = true
						if !took[x] {
							took[x] = true
							tt = append(tt, int(x))
						}
					}
				}
				if yes {
					mm = append(mm, int(m))
				}
			}
			t.new("cube").num("l", int(l)).ints("m", mm).ints("t", tt).end()
		})
		count("calls", len(far)*len(far))
	}
	// one argument is any rune
	type ctx struct{ a, b rune }
	pos := func(name string, f func(r, a, b rune) rune, cs []ctx) {
		for i, c := range cs {
			lo, hi := -0x1000, 0x14000
			if i == 0 {
				lo, hi = nearLo, nearHi
			}
			c := c
			g := fn{name: name, f: func(r rune) (int, string) { return int(f(r, c.a, c.b)), "" }}
			if i == 0 {
				scanAll(t, []fn{g}, []int{int(c.a), int(c.b)}, lo, hi)
			} else {
				scan(t, g, []int{int(c.a), int(c.b)}, lo, hi)
			}
		}
	}
	pos("JoinL", func(r, a, b rune) rune { return hangul.Join(r, a, b) },
		[]ctx{{0x1161, 0}, {0x314F, 0x3131}, {some(ms), some(ts)}, {some(ms), some(ts)}, {0x1100, 0x11A8}, {0x1161, 0x1100}, {some(all), some(all)}})
	pos("JoinM", func(r, a, b rune) rune { return hangul.Join(a, r, b) },
		[]ctx{{0x1100, 0}, {0x3131, 0x3131}, {some(ls), some(ts)}, {some(ls), some(ts)}, {0x11A8, 0x11A8}, {0x1112, 0x1112}, {some(all), some(all)}})
	pos("JoinT", func(r, a, b rune) rune { return hangul.Join(a, b, r) },
		[]ctx{{0x1100, 0x1161}, {0x3131, 0x314F}, {some(ls), some(ms)}, {some(ls), some(ms)}, {0x11A8, 0x1161}, {0x1100, 0x1100}, {some(all), some(all)}})
}
