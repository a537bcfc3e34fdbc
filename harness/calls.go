package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"time"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
)

// call is one call of a function: its arguments are runes, or bytes which
// stand for strings or slices.
type call struct {
	f     string
	runes []rune
	texts [][]byte
}

func (c call) args() string {
	ev := []byte{'['}
	for i, r := range c.runes {
		if i > 0 {
			ev = append(ev, ',')
		}
		ev = append(ev, fmt.Sprint(r)...)
	}
	for i, b := range c.texts {
		if i > 0 {
			ev = append(ev, ',')
		}
		ev = appendBytes(ev, b)
	}
	return string(append(ev, ']'))
}

// result is what a call gave, and the slice that is part of it.
type result struct {
	r     []int
	bytes []byte
	runes []rune
	str   string
	slice bool // bytes or runes is a slice of the result
	text  bool // str is the result
}

func ofBytes(b []byte) []int {
	v := make([]int, len(b))
	for i, x := range b {
		v[i] = int(x)
	}
	return v
}
func ofRunes(rs []rune) []int {
	v := make([]int, len(rs))
	for i, x := range rs {
		v[i] = int(x)
	}
	return v
}

func withErr(b []byte, err error) result {
	n := 0
	if err != nil {
		n = 2
		if errName(err) == "TRUNC" {
			n = 1
		}
	}
	return result{r: append([]int{n}, ofBytes(b)...), bytes: b, slice: true}
}

type plan struct {
	sizes []int
	cuts  []int
}

// do makes the call.  arg is the slice for the functions that take one.
func (c call) do(arg []byte, enc *cp949.CP949Encoding, p plan) result {
	var r, a, b rune
	if len(c.runes) > 0 {
		r = c.runes[0]
	}
	if len(c.runes) > 2 {
		a, b = c.runes[1], c.runes[2]
	}
	one := func(x int) result { return result{r: []int{x}} }
	// the strings that are given stay what they are
	var given []string
	str := func(i int) string {
		s := string(c.texts[i])
		given = append(given, s)
		return s
	}
	text := func(s string) (x result) {
		x = result{r: ofBytes([]byte(s)), str: s, text: true}
		for i, g := range given {
			if g != string(c.texts[i]) {
				x.r = []int{-9}
			}
		}
		return x
	}
	switch c.f {
	case "IsLead":
		return one(b2i(hangul.IsLead(r)))
	case "IsMedial":
		return one(b2i(hangul.IsMedial(r)))
	case "IsTail":
		return one(b2i(hangul.IsTail(r)))
	case "IsJaeum":
		return one(b2i(hangul.IsJaeum(r)))
	case "IsMoeum":
		return one(b2i(hangul.IsMoeum(r)))
	case "IsHangul":
		return one(b2i(hangul.IsHangul(r)))
	case "CompatJamo":
		return one(int(hangul.CompatJamo(r)))
	case "Lead":
		return one(int(hangul.Lead(r)))
	case "Medial":
		return one(int(hangul.Medial(r)))
	case "Tail":
		return one(int(hangul.Tail(r)))
	case "Stroke":
		return one(hangul.Stroke(r))
	case "Split":
		l, m, t := hangul.Split(r)
		return result{r: []int{int(l), int(m), int(t)}}
	case "SplitCompat":
		l, m, t := hangul.SplitCompat(r)
		return result{r: []int{int(l), int(m), int(t)}}
	case "Join":
		return one(int(hangul.Join(r, a, b)))
	case "SplitMultiElement":
		e, ok := hangul.SplitMultiElement(r)
		return result{r: append([]int{b2i(ok)}, ofRunes(e)...), runes: e, slice: true}
	case "LastConsonant":
		return one(int(hangul.LastConsonant(str(0))))
	case "EndsWithConsonant":
		return one(b2i(hangul.EndsWithConsonant(str(0))))
	case "AppendPostposition":
		return text(hangul.AppendPostposition(str(0), str(1), str(2)))
	case "IsHanja":
		return one(b2i(hanja.IsHanja(r)))
	case "Convert":
		return text(hanja.Convert(str(0)))
	case "From":
		return withErr(cp949.From(arg))
	case "To":
		return withErr(cp949.To(arg))
	case "Decode":
		return withErr(enc.NewDecoder().Bytes(arg))
	case "Encode":
		return withErr(enc.NewEncoder().Bytes(arg))
	case "Reader":
		rd, err := cp949.NewReader(&cutReader{b: arg, cuts: p.cuts})
		if err != nil {
			return one(-1)
		}
		var out []byte
		for i := 0; ; i++ {
			buf := make([]byte, p.sizes[i%len(p.sizes)])
			n, err := rd.Read(buf)
			out = append(out, buf[:n]...)
			if err == io.EOF {
				err = nil
			} else if err == nil {
				if i > 100000 {
					panic(runaway{"the Reader does not end"})
				}
				continue
			}
			x := withErr(out, err)
			x.slice = false
			return x
		}
	case "Writer":
		var out bytes.Buffer
		w, err := cp949.NewWriter(&out)
		if err != nil {
			return one(-1)
		}
		for i := 0; len(arg) > 0; i++ {
			n := p.cuts[i%len(p.cuts)]
			if n > len(arg) {
				n = len(arg)
			}
			if m, err := w.Write(arg[:n]); err != nil || m != n {
				return one(-2)
			}
			arg = arg[n:]
		}
		return result{r: ofBytes(out.Bytes())}
	}
	panic("no function " + c.f)
}

// cutReader gives b in pieces.
type cutReader struct {
	b    []byte
	cuts []int
	i    int
}

func (c *cutReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := c.cuts[c.i%len(c.cuts)]
	c.i++
	if n > len(c.b) {
		n = len(c.b)
	}
	n = copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

var (
	runeFns  = []string{"IsLead", "IsMedial", "IsTail", "IsJaeum", "IsMoeum", "IsHangul", "CompatJamo", "Lead", "Medial", "Tail", "Stroke", "Split", "SplitCompat", "IsHanja"}
	sliceFns = []string{"From", "To", "Decode", "Encode", "Reader", "Writer"}
	textFns  = []string{"LastConsonant", "EndsWithConsonant", "Convert"}
)

func decodes(f string) bool { return f == "From" || f == "Decode" || f == "Reader" }

func somePlan() plan {
	var p plan
	for i := 1 + rng.Intn(4); i > 0; i-- {
		p.sizes = append(p.sizes, 1+rng.Intn(9)*rng.Intn(9))
		p.cuts = append(p.cuts, 1+rng.Intn(5)*rng.Intn(5))
	}
	return p
}

// pool are arguments which are used again and again.
type pool struct {
	runes []rune
	texts map[string][][]byte
}

var compounds = []rune("ㄲㄳㄵㄶㄸㄺㄻㄼㄽㄾㄿㅀㅃㅄㅆㅉㅐㅒㅔㅖㅘㅙㅚㅝㅞㅟㅢᄁᆪᅰᆶᅴ")

func newPool() *pool {
	p := &pool{texts: map[string][][]byte{}}
	for i := 0; i < 12; i++ {
		p.runes = append(p.runes, someRune(), compounds[rng.Intn(len(compounds))])
	}
	for _, k := range []string{"dec", "enc"} {
		for i := 0; i < 8; i++ {
			p.texts[k] = append(p.texts[k], input(k, rng.Intn(8)))
		}
		p.texts[k] = append(p.texts[k], input(k, someLen(300)), []byte("plain text"), nil)
		if rng.Intn(4) == 0 {
			p.texts[k] = append(p.texts[k], input(k, 50+rng.Intn(250)), input(k, 50+rng.Intn(250)))
		}
	}
	// what is in a text is also looked at alone, and the other way round
	for _, b := range p.texts["enc"][:8] {
		if rs := []rune(string(b)); len(rs) > 0 {
			p.runes = append(p.runes, rs[rng.Intn(len(rs))])
		}
	}
	p.runes = append(p.runes, someHanja(), someHanja())
	for i := 0; i < 3; i++ {
		p.texts["enc"] = append(p.texts["enc"], p.ofRunes())
	}
	return p
}

// ofRunes is text made of the pool's runes.
func (p *pool) ofRunes() []byte {
	var b []byte
	for i := rng.Intn(4); i >= 0; i-- {
		b = append(b, string(p.runes[rng.Intn(len(p.runes))])...)
	}
	return b
}
func (p *pool) rune() rune {
	if rng.Intn(3) == 0 {
		return someRune()
	}
	return p.runes[rng.Intn(len(p.runes))]
}
func (p *pool) text(kind string) []byte {
	switch k := rng.Intn(9); {
	case k < 2:
		return input(kind, rng.Intn(6))
	case k == 2 && kind == "enc":
		return p.ofRunes()
	}
	return p.texts[kind][rng.Intn(len(p.texts[kind]))]
}

func (p *pool) call() call {
	switch rng.Intn(8) {
	case 0, 1:
		return call{f: runeFns[rng.Intn(len(runeFns))], runes: []rune{p.rune()}}
	case 2:
		return call{f: "SplitMultiElement", runes: []rune{p.rune()}}
	case 3:
		return call{f: "Join", runes: []rune{p.rune(), p.rune(), p.rune()}}
	case 4:
		if rng.Intn(2) == 0 {
			x := posts[rng.Intn(len(posts))]
			return call{f: "AppendPostposition", texts: [][]byte{p.text("enc"), []byte(x[0]), []byte(x[1])}}
		}
		return call{f: textFns[rng.Intn(len(textFns))], texts: [][]byte{p.text("enc")}}
	}
	f := sliceFns[rng.Intn(len(sliceFns))]
	kind := "enc"
	if decodes(f) {
		kind = "dec"
	}
	return call{f: f, texts: [][]byte{p.text(kind)}}
}

// units cuts b into characters, roughly.
func units(kind string, b []byte) (us [][]byte) {
	for len(b) > 0 {
		n := 1
		if kind == "enc" {
			_, n = utf8.DecodeRune(b)
		} else if b[0] >= 0x80 && len(b) > 1 {
			n = 2
		}
		us = append(us, b[:n])
		b = b[n:]
	}
	return us
}

// sibling is a call of the same function with arguments that are like c's in
// many ways: the length, the ends, the characters that occur.
func (c call) sibling() call {
	d := call{f: c.f, runes: append([]rune(nil), c.runes...)}
	if n := len(d.runes); n > 0 {
		i, j := rng.Intn(n), rng.Intn(n)
		bit := rune(1) << uint(rng.Intn(21))
		switch rng.Intn(4) {
		case 0:
			d.runes[i], d.runes[j] = d.runes[j], d.runes[i]
		case 1:
			d.runes[i] ^= bit
			if i != j {
				d.runes[j] ^= bit
			}
		case 2:
			d.runes[i] += bit
		case 3:
			k := rune(1 + rng.Intn(3))
			d.runes[i] += k
			if i != j {
				d.runes[j] -= k
			}
		}
		return d
	}
	kind := "enc"
	if decodes(c.f) {
		kind = "dec"
	}
	for _, b := range c.texts {
		us := units(kind, b)
		if n := len(us); n > 0 {
			i, j := rng.Intn(n), rng.Intn(n)
			switch rng.Intn(6) {
			case 5: // what is like it in another way
				x := likes(kind, us[i])
				us[i] = x[rng.Intn(len(x))]
			case 0:
				us[i], us[j] = us[j], us[i]
			case 1, 2: // another character of the same length
				for k := 0; k < 200; k++ {
					x := units(kind, input(kind, 1))
					if len(x) == 1 && len(x[0]) == len(us[i]) {
						us[i] = x[0]
						break
					}
				}
			case 3: // one that differs in a bit
				x := clone(us[i])
				x[len(x)-1] ^= 1 << uint(rng.Intn(6))
				us[i] = x
			case 4: // one more and one less
				us[i] = append(clone(us[i]), us[j]...)
				if k := rng.Intn(n); k != i {
					us[k] = nil
				}
			}
		}
		d.texts = append(d.texts, bytes.Join(us, nil))
	}
	if c.f == "AppendPostposition" { // the forms stay
		copy(d.texts[1:], c.texts[1:])
	}
	return d
}

func takesSlice(f string) bool {
	for _, x := range sliceFns {
		if x == f {
			return true
		}
	}
	return false
}

// slice is one that the caller owns; or a string.
type slice struct {
	id    int
	bytes []byte
	runes []rune
	str   string
	text  bool
}

func (x result) hold(id int) *slice { return &slice{id, x.bytes, x.runes, x.str, x.text} }
func (x result) held() bool         { return x.slice || x.text }

func (s *slice) content() []int {
	if s.text {
		return ofBytes([]byte(s.str))
	}
	if s.runes != nil {
		return ofRunes(s.runes)
	}
	return ofBytes(s.bytes)
}

// owner is a caller with slices of its own.
type owner struct {
	t    *trace
	next int
	held []*slice
	enc  *cp949.CP949Encoding
}

func (o *owner) keep(x result) *slice {
	o.next++
	s := x.hold(o.next)
	o.held = append(o.held, s)
	return s
}
func (o *owner) alloc(b []byte) *slice {
	s := o.keep(result{bytes: append(make([]byte, 0, len(b)+3), b...)})
	o.t.new("alloc").num("id", s.id).bytes("v", b).end()
	return s
}
func (o *owner) peek(s *slice) {
	o.t.new("peek").num("id", s.id).ints("v", s.content()).end()
}

// write overwrites s, also beyond its length: that is its owner's too.
func (o *owner) write(s *slice) {
	if s.text {
		return // nobody can
	}
	for i := range s.bytes[:cap(s.bytes)] {
		s.bytes[:cap(s.bytes)][i] = byte(0x41 + i&15)
	}
	for i := range s.runes[:cap(s.runes)] {
		s.runes[:cap(s.runes)][i] = rune(0x3131 + i&15)
	}
	o.t.new("write").num("id", s.id).ints("v", s.content()).end()
}
func (o *owner) drop(i int) {
	o.t.new("drop").num("id", o.held[i].id).end()
	o.held = append(o.held[:i], o.held[i+1:]...)
}

// call makes a call and keeps the slice it gives; arg, if not nil, is one
// of the owner's slices.
func (o *owner) call(c call, arg *slice, p plan) *slice {
	argID := 0
	var b []byte
	if arg != nil {
		c.texts = [][]byte{clone(arg.bytes)}
		argID, b = arg.id, arg.bytes
	} else if takesSlice(c.f) {
		b = clone(c.texts[0])
	}
	args := c.args()
	var out *slice
	ok := o.t.guard(c.f+args, func() {
		x := c.do(b, o.enc, p)
		id := 0
		if x.held() {
			out = o.keep(x)
			id = out.id
		}
		o.t.new("call").str("f", c.f).raw("a", args).ints("r", x.r).num("arg", argID).num("id", id).end()
	})
	count("calls", 1)
	if !ok {
		return nil
	}
	return out
}

func history(t *trace, steps int) {
	t.boundary()
	t.scenario("history of calls")
	t.new("new").end()
	o := &owner{t: t, enc: cp949.NewCP949Encoding()}
	p := newPool()
	for k := 0; k < steps; k++ {
		maybeGC(300)
		switch rng.Intn(10) {
		case 0, 1, 2, 3, 4, 5:
			c := p.call()
			var arg *slice
			if takesSlice(c.f) && rng.Intn(3) > 0 {
				if len(o.held) > 0 && rng.Intn(2) == 0 {
					arg = o.held[rng.Intn(len(o.held))]
					if arg.runes != nil || arg.text {
						arg = nil
					}
				} else {
					arg = o.alloc(c.texts[0])
				}
			}
			o.call(c, arg, somePlan())
			if arg != nil {
				o.peek(arg)
			}
			for i := rng.Intn(6); i < 2; i++ {
				o.call(c.sibling(), nil, somePlan())
			}
		case 6, 7:
			if len(o.held) > 0 {
				o.write(o.held[rng.Intn(len(o.held))])
			}
		case 8, 9:
			for _, s := range o.held {
				o.peek(s)
			}
		}
		for len(o.held) > 10 {
			o.drop(rng.Intn(len(o.held)))
		}
	}
	for _, s := range o.held {
		o.peek(s)
	}
}

// replayHistory follows a behaviour of CallsImpl: who allocates, calls,
// overwrites and looks when.  What function is called with what is chosen
// here.
func replayHistory(t *trace, i int, v vector) {
	t.boundary()
	t.scenario(fmt.Sprint("behaviour of the model ", i))
	t.new("new").end()
	o := &owner{t: t, enc: cp949.NewCP949Encoding()}
	f := append([]string{"SplitMultiElement"}, sliceFns[:4]...)[rng.Intn(5)]
	kind := "enc"
	if decodes(f) {
		kind = "dec"
	}
	p := newPool()
	texts := [][]byte{input(kind, 4), input(kind, 4), input(kind, 2)}
	runes := []rune{compounds[rng.Intn(len(compounds))], compounds[rng.Intn(len(compounds))], p.rune()}
	ids := map[int]*slice{}
	run := map[int]event{}
	value := map[int]int{}
	for _, ev := range v.Hist {
		switch ev.Op {
		case "alloc":
			ids[ev.ID] = o.alloc(texts[ev.V[0]%3])
			value[ev.ID] = ev.V[0] % 3
		case "begin":
			run[ev.C] = ev
		case "end":
			arg := run[ev.C].Ar
			if f == "SplitMultiElement" {
				ids[ev.ID] = o.call(call{f: f, runes: []rune{runes[value[arg]]}}, nil, plan{})
			} else {
				ids[ev.ID] = o.call(call{f: f}, ids[arg], plan{})
			}
		case "write":
			if s := ids[ev.ID]; s != nil {
				o.write(s)
			}
		case "peek":
			if s := ids[ev.ID]; s != nil {
				o.peek(s)
			}
		}
	}
	for _, s := range o.held {
		o.peek(s)
	}
	count("behaviours", 1)
}

// instances runs several Readers and Writers in turns, with other calls
// between.
func instances() {
	rt, wt, ct := open("TraceReader", 900000), open("TraceWriter", 900000), open("TraceCalls", 900000)
	ct.boundary()
	ct.scenario("instances in turns")
	type inst struct {
		t, to *trace
		step  func() bool
	}
	var all []inst
	// now and then they have the same source or sink
	oneSource, oneSink := rng.Intn(3) == 0, rng.Intn(3) == 0
	var theSource *source
	var theSink *sink
	for i := 2 + rng.Intn(3); i > 0; i-- {
		a := rt.aside()
		text := someCodes(rng.Intn(20))
		s := &source{t: a, pieces: script(text, "EOF"), end: "EOF"}
		if oneSource && theSource != nil {
			s = theSource
		}
		theSource = s
		kind, mk := "dec", decReader
		if rng.Intn(3) == 0 {
			mk = xReader("dec")
		}
		a.new("new").str("kind", kind).str("what", about("NewReader beside others", text)).end()
		r, _ := mk(s)
		z, left := someSizes(), 200
		if rng.Intn(4) == 0 && !oneSource {
			s.dies = 1 + rng.Intn(5)
		}
		all = append(all, inst{a, rt, func() bool {
			buf := make([]byte, z.next())
			s.t = a
			a.new("begin").num("n", len(buf)).end()
			n, err := r.Read(buf)
			a.new("ret").bytes("b", buf[:n]).str("e", errName(err)).end()
			left--
			return err == nil && left > 0
		}})
	}
	for i := 2 + rng.Intn(3); i > 0; i-- {
		a := wt.aside()
		text := someText(rng.Intn(20))
		ps := cutText(text)
		mk := maker(encWriter)
		if rng.Intn(3) == 0 {
			mk = xWriter("enc")
		}
		a.new("new").str("kind", "enc").str("what", about("NewWriter beside others", text)).end()
		s := &sink{t: a}
		if oneSink && theSink != nil {
			s = theSink
		}
		theSink = s
		if rng.Intn(4) == 0 && !oneSink {
			s.dies = 1 + rng.Intn(5)
		}
		w, _ := mk(s)
		all = append(all, inst{a, wt, func() bool {
			if len(ps) == 0 {
				return false
			}
			s.t = a
			put(a, w, ps[0])
			ps = ps[1:]
			return true
		}})
	}
	o := &owner{t: ct, enc: cp949.NewCP949Encoding()}
	ct.new("new").end()
	p := newPool()
	for len(all) > 0 {
		i := rng.Intn(len(all))
		x, more := all[i], false
		beat.Add(1)
		if x.t.guard("a step of an instance", func() {
			// an instance whose source or sink panics is not used any more,
			// but the others are
			defer func() {
				if p := recover(); p != nil && p != dead {
					panic(p)
				}
			}()
			more = x.step()
		}); !more {
			x.to.join(x.t)
			all = append(all[:i], all[i+1:]...)
		}
		if rng.Intn(3) == 0 {
			o.call(p.call(), nil, somePlan())
			for len(o.held) > 6 {
				o.peek(o.held[0])
				o.drop(0)
			}
		}
	}
	for _, s := range o.held {
		o.peek(s)
	}
	count("instances_rounds", 1)
}

// crowd lets very many Readers and Writers live at the same time, each of
// them within a character.
func crowd(n int) {
	rt, wt := open("TraceReader", 900000), open("TraceWriter", 900000)
	rt.scenario(fmt.Sprintf("%d Readers and %d Writers at the same time", n, n))
	type inst struct {
		t, to *trace
		step  func()
	}
	var all []inst
	for i := 0; i < n; i++ {
		a := rt.aside()
		x := clone([]byte{0xB0 + byte(i>>7)%16, 0xA1 + byte(i)%64, 'a', 0xC7})
		s := &source{t: a, pieces: []piece{{b: x[:2]}, {b: x[2:]}, {b: []byte{0xD1}}}, end: "EOF"}
		a.new("new").str("kind", "dec").str("what", "NewReader beside very many others").end()
		r, _ := decReader(s)
		all = append(all, inst{a, rt, func() {
			buf := make([]byte, 2)
			a.new("begin").num("n", len(buf)).end()
			n, err := r.Read(buf)
			a.new("ret").bytes("b", buf[:n]).str("e", errName(err)).end()
		}})
		b := wt.aside()
		text := []byte(string(rune(0xAC00+i%11172)) + string(rune(0xD7A3-i%11172)))
		k := 1 + i%3
		ps := [][]byte{text[:k], text[k:4], text[4:5], text[5:]}
		b.new("new").str("kind", "enc").str("what", "NewWriter beside very many others").end()
		w, _ := encWriter(&sink{t: b})
		all = append(all, inst{b, wt, func() {
			if len(ps) > 0 {
				put(b, w, ps[0])
				ps = ps[1:]
			}
		}})
	}
	for round := 0; round < 6; round++ {
		order := rng.Perm(len(all))
		if round < 2 {
			order = nil
			for i := range all {
				order = append(order, i)
			}
		}
		for _, i := range order {
			x := all[i]
			x.t.guard("a step of an instance", x.step)
			beat.Add(1)
		}
	}
	for _, x := range all {
		x.to.join(x.t)
	}
	count("crowd", len(all))
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// again makes the same call many times over.
func again(t *trace, c call, n int) {
	t.boundary()
	t.scenario(fmt.Sprintf("%s %d times", c.f, n))
	t.guard(c.f, func() {
		enc := cp949.NewCP949Encoding()
		p := plan{sizes: []int{7}, cuts: []int{3}}
		var arg []byte
		if takesSlice(c.f) {
			arg = c.texts[0]
		}
		t.new("new").end()
		same := 0
		var first []int
		for i := 0; i < n; i++ {
			if i&4095 == 4095 {
				beat.Add(1)
				if late() {
					n = i
					break
				}
			}
			x := c.do(arg, enc, p)
			if i == 0 {
				first = x.r
			}
			if !equalInts(first, x.r) {
				// not what it was; the specification knows one result only
				t.new("call").str("f", c.f).raw("a", c.args()).ints("r", x.r).num("arg", 0).num("id", 0).end()
				break
			}
			same++
		}
		t.new("rep").str("f", c.f).raw("a", c.args()).ints("r", first).num("n", n).num("same", same).end()
	})
	count("calls", n)
}

// keepers hold what some calls gave, and look at it after gap calls of which
// the specification need not know.
func keepers(t *trace, gap int, naps ...time.Duration) {
	t.boundary()
	t.scenario(fmt.Sprintf("results that are held over %d calls", gap))
	t.new("new").end()
	o := &owner{t: t, enc: cp949.NewCP949Encoding()}
	p := newPool()
	fns := []string{"SplitMultiElement", "AppendPostposition", "Convert", "From", "To", "Decode", "Encode"}
	for i := 0; i < 21; i++ {
		c := someCall(p, fns[i%7])
		if i%7 == 0 {
			c.runes[0] = compounds[rng.Intn(len(compounds))]
		} else if len(c.texts[0]) == 0 || i%2 == 0 {
			kind := "enc"
			if decodes(c.f) {
				kind = "dec"
			}
			c.texts[0] = input(kind, []int{1 + rng.Intn(9), 60 + rng.Intn(300)}[rng.Intn(2)])
		}
		o.call(c, nil, plan{})
	}
	for _, nap := range naps {
		// what is idle may be given up
		time.Sleep(nap)
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
	}
	t.guard("calls meanwhile", func() {
		f := fns[rng.Intn(7)]
		only := rng.Intn(2) == 0
		calls := []call{}
		for i := 0; i < 200; i++ {
			if c := p.call(); !only || c.f == f {
				calls = append(calls, c)
			}
		}
		calls = append(calls, call{f: "SplitMultiElement", runes: []rune{'ㄲ'}})
		for i := 0; i < gap && !late(); i++ {
			c := calls[rng.Intn(len(calls))]
			if i%3 == 0 {
				c = p.call()
			}
			var b []byte
			if takesSlice(c.f) {
				b = clone(c.texts[0])
			}
			if x := c.do(b, o.enc, plan{sizes: []int{9}, cuts: []int{4}}); i%5 == 0 {
				// it is its owner's
				for j := range x.bytes {
					x.bytes[j] = 'X'
				}
				for j := range x.runes {
					x.runes[j] = 'X'
				}
			}
			if i%1024 == 0 {
				beat.Add(1)
			}
		}
	})
	for _, s := range o.held {
		o.peek(s)
	}
	for i := 0; i < 21; i++ {
		o.call(someCall(p, fns[i%7]), nil, somePlan())
	}
	count("keepers", 1)
	count("calls", gap)
}

// someCall is a call of f.
func someCall(p *pool, f string) call {
	for {
		if c := p.call(); c.f == f {
			return c
		}
	}
}

var allFns = append(append(append([]string{"SplitMultiElement", "Join", "AppendPostposition"}, runeFns...), sliceFns...), textFns...)

// everything calls every function with every rune, or every code, and with
// texts that hold all of them.
func everything() {
	enc := cp949.NewCP949Encoding()
	var all []rune
	for r := rune(0); r <= 0x10FFFF; r++ {
		all = append(all, r)
	}
	for i := 0; i < 70000; i++ {
		all = append(all, rune(rng.Uint32()))
	}
	// blocks in any order
	blocks := rng.Perm((len(all) + 255) / 256)
	for i, k := range blocks {
		if i%64 == 0 {
			beat.Add(1)
		}
		for j := k * 256; j < k*256+256 && j < len(all); j++ {
			r := all[j]
			for _, f := range runeFns {
				call{f: f, runes: []rune{r}}.do(nil, enc, plan{})
			}
			hangul.SplitMultiElement(r)
			hangul.Join(r, r, r)
			hangul.Join(hangul.LeadG, hangul.MedialA, r)
			hangul.Join(hangul.LeadG, r, 0)
			hangul.Join(r, hangul.MedialA, hangul.TailG)
			s := string(r)
			hangul.LastConsonant(s)
			hangul.AppendPostposition(s, "으로", "로")
			hangul.AppendPostposition(s, "을", "를")
			hanja.Convert(s)
			cp949.To([]byte(s))
			if j%16 == 0 {
				enc.NewEncoder().String(s)
			}
		}
	}
	for _, c := range rng.Perm(0x10000) {
		cp949.From([]byte{byte(c >> 8), byte(c)})
		if c%16 == 0 {
			enc.NewDecoder().Bytes([]byte{byte(c >> 8), byte(c)})
		}
	}
	s := string(all[:min(len(all), 1<<uint(upTo(24))/4)])
	hanja.Convert(s)
	cp949.To([]byte(s))
	cp949.From([]byte(s))
	hangul.EndsWithConsonant(s)
}

func init() {
	// what is exact in a fresh program is so after everything else
	drivers["C24after"] = func() {
		t := open("TraceCalls", 900000)
		t.scenario("every function with everything")
		t.new("new").end()
		t.guard("every function with everything", everything)
		*thorough = false // the whole sweeps are for the properties themselves
		sweeps := []string{"C01", "C02", "C05", "C06", "C07", "C08", "C10", "C12", "C13", "C14"}
		for _, i := range rng.Perm(len(sweeps)) {
			drivers[sweeps[i]]()
		}
	}
	// a fresh program, again and again
	drivers["C24first"] = func() {
		t := open("TraceCalls", 900000)
		history(t, 12+rng.Intn(20))
	}
	drivers["C24"] = func() {
		t := open("TraceCalls", 900000)
		for i, v := range loadVectors() {
			replayHistory(t, i, v)
		}
		for i := 0; i < pick(60, 800); i++ {
			history(t, 60+rng.Intn(100))
		}
		for i := 0; i < pick(4, 40); i++ {
			history(t, 1500)
		}
		for i := 0; i < pick(80, 800); i++ {
			instances()
		}
		for i := 0; i < pick(3, 12); i++ {
			for _, gap := range []int{20, 70, 260, 600, 1100, 2100, 4200, 9000, 17000, 70000} {
				if i == 0 || gap < pick(3000, 100000) {
					keepers(t, gap+rng.Intn(20))
				}
			}
		}
		if *thorough {
			keepers(t, 1<<20+100)
		}
		crowd(pick(1100, 9000))
		p := newPool()
		for _, f := range allFns {
			again(t, someCall(p, f), 300)
			again(t, someCall(p, f), pick(70000, 1<<20))
			again(t, someCall(p, f), pick(1<<18, 1<<23))
		}
	}
	drivers["C24holds"] = func() {
		holds(pick(150, 1500), upTo(pick(18, 21)))
		holds(pick(60, 600), 10)
		inTurn(upTo(pick(18, 21)))
		for _, nap := range []time.Duration{300, 1200, 2300, 10500, 31000, 50000}[:pick(3, 6)] {
			for i := 0; i < 3; i++ {
				t := open("TraceCalls", 900000)
				history(t, 100)
				keepers(t, 500+rng.Intn(2000), nap*time.Millisecond/2, nap*time.Millisecond/2)
				history(t, 100)
			}
		}
	}
	drivers["C25"] = concurrent
	drivers["C25holds"] = func() {
		giants(upTo(pick(21, 24)), pick(2, 6))
		holdsTogether(pick(30, 200), pick(4, 8), upTo(16))
		hotLarge(time.Duration(pick(400, 2000))*time.Millisecond, max(12, upTo(18)))
	}
}
