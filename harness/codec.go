package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
)

// listErr is an error which cannot be compared with ==.
type listErr []string

func (l listErr) Error() string { return l[0] }

// wrapErr is an error around another one.
type wrapErr struct{ error }

func (w wrapErr) Unwrap() error { return w.error }

// tempErr is an error that invites to try again.
type tempErr struct{}

func (*tempErr) Error() string   { return "try again" }
func (*tempErr) Temporary() bool { return true }
func (*tempErr) Timeout() bool   { return true }

// named are the errors of the sources and sinks, EOF aside.
var named = []struct {
	name string
	err  error
}{
	{"boom", errors.New("boom")}, {"bang", errors.New("bang")}, {"UEOF", io.ErrUnexpectedEOF}, {"PIPE", io.ErrClosedPipe},
	{"WEOF", &wrapErr{io.EOF}}, {"WTRUNC", &wrapErr{cp949.ErrCP949UnexpectedStream}}, {"LIST", listErr{"list"}},
	{"TRUNC", cp949.ErrCP949UnexpectedStream}, {"SHORTDST", transform.ErrShortDst}, {"SHORTSRC", transform.ErrShortSrc},
	{"NOPROGRESS", io.ErrNoProgress}, {"SHORTWRITE", io.ErrShortWrite}, {"SHORTBUF", io.ErrShortBuffer},
	{"TEMP", &tempErr{}}, {"EINTR", syscall.EINTR}, {"EAGAIN", syscall.EAGAIN}, {"DEADLINE", os.ErrDeadlineExceeded},
	{"CANCELED", context.Canceled}, {"PATH", &os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}}, {"CLOSED", os.ErrClosed},
	{"BUFFULL", bufio.ErrBufferFull},
}

func errNamed(name string) error {
	if name == "" {
		return nil
	}
	if name == "EOF" {
		return io.EOF
	}
	for _, n := range named {
		if n.name == name {
			return n.err
		}
	}
	panic("no error " + name)
}

// same is err == x, for errors that cannot be compared, too.
func same(err, x error) bool {
	if l, ok := x.(listErr); ok {
		m, ok := err.(listErr)
		return ok && &l[0] == &m[0]
	}
	if _, ok := err.(listErr); ok {
		return false
	}
	return err == x
}

// errName is the name of an error in the specification.
func errName(err error) string {
	if err == nil {
		return ""
	}
	if same(err, io.EOF) {
		return "EOF"
	}
	for _, n := range named {
		if same(err, n.err) {
			return n.name
		}
	}
	// not the error itself, but around it
	for _, n := range named {
		if n.name != "LIST" && errors.Is(err, n.err) {
			return n.name
		}
	}
	for e := err; e != nil; e = errors.Unwrap(e) {
		if _, ok := e.(listErr); ok {
			return "LIST"
		}
	}
	return "OTHER " + err.Error()
}

func oneShot(kind string) func([]byte) ([]byte, error) {
	if kind == "dec" {
		return cp949.From
	}
	return cp949.To
}

func other(kind string) string {
	if kind == "dec" {
		return "enc"
	}
	return "dec"
}

func about(f string, s []byte) string {
	if len(s) < 60 {
		return fmt.Sprintf("%s(%q)", f, s)
	}
	return fmt.Sprintf("%s of %d bytes", f, len(s))
}

// conv records one conversion of s by f.
func conv(t *trace, name, kind string, s []byte, f func([]byte) ([]byte, error)) {
	t.boundary()
	t.scenario(about(name, s))
	t.guard(about(name, s), func() {
		// no more capacity than length, and then some
		arg := make([]byte, len(s), len(s)+rng.Intn(2)*8)
		copy(arg, s)
		full := arg[:cap(arg)]
		for i := len(s); i < len(full); i++ {
			full[i] = 0xA5
		}
		v, err := f(arg)
		kept := bytes.Equal(arg, s)
		for i := len(s); i < len(full); i++ {
			kept = kept && full[i] == 0xA5
		}
		t.new("conv").str("f", name).str("kind", kind).bytes("s", s).bytes("v", v).str("e", errName(err)).yes("kept", kept).end()
	})
	count("calls", 1)
	count("bytes", len(s))
}

func plain(t *trace, kind string, s []byte) {
	conv(t, map[string]string{"dec": "From", "enc": "To"}[kind], kind, s, oneShot(kind))
}

func trip(t *trace, kind string, s []byte) {
	t.boundary()
	t.scenario(about("there and back, "+kind, s))
	t.guard(about("there and back, "+kind, s), func() {
		m, err := oneShot(kind)(clone(s))
		if err != nil {
			t.new("conv").str("kind", kind).bytes("s", s).bytes("v", m).str("e", errName(err)).yes("kept", true).end()
			return
		}
		v, err := oneShot(other(kind))(clone(m))
		if err != nil {
			t.new("conv").str("kind", other(kind)).bytes("s", m).bytes("v", v).str("e", errName(err)).yes("kept", true).end()
			return
		}
		t.new("trip").str("kind", kind).bytes("s", s).bytes("m", m).bytes("v", v).end()
	})
	count("calls", 2)
	count("bytes", len(s))
}

// allCodes are the two-byte codes in any order, assigned or not; assigned
// is told by the code under test and judged by the specification.
func allCodes() []int { return rng.Perm(0x8000) }

func init() {
	drivers["C13"] = func() {
		t := open("TraceCodec", 700000)
		for lo := 0x8000; lo < 0x10000; lo += 256 {
			t.boundary()
			what := fmt.Sprintf("From of the codes %#x..", lo)
			t.scenario(what)
			var v [][]byte
			t.guard(what, func() {
				for c := lo; c < lo+256; c++ {
					o, err := cp949.From([]byte{byte(c >> 8), byte(c)})
					if err != nil {
						o = []byte("error")
					}
					v = append(v, o)
				}
				t.new("dec").num("lo", lo).list("v", v).end()
			})
			count("calls", len(v))
		}
		for b := 0; b < 256; b++ {
			plain(t, "dec", []byte{byte(b)})
		}
		// each code once more, in any order and any surroundings
		codes := allCodes()
		for len(codes) > 0 {
			n := 1 + rng.Intn(700)
			if n > len(codes) {
				n = len(codes)
			}
			var s []byte
			for _, c := range codes[:n] {
				s = append(s, byte(0x80+c>>8), byte(c))
				for rng.Intn(4) == 0 {
					s = append(s, byte(rng.Intn(128)))
				}
			}
			plain(t, "dec", s)
			codes = codes[n:]
		}
		for i := 0; i < pick(1500, 30000); i++ {
			plain(t, "dec", someCodes(1+rng.Intn(8)))
		}
	}
	drivers["C14"] = func() {
		t := open("TraceCodec", 700000)
		for lo := 0; lo < 0x10000; lo += 512 {
			t.boundary()
			what := fmt.Sprintf("To of the runes %#x..", lo)
			t.scenario(what)
			var v [][]byte
			t.guard(what, func() {
				for r := lo; r < lo+512; r++ {
					o, err := cp949.To([]byte(string(rune(r))))
					if err != nil {
						o = []byte("error")
					}
					v = append(v, o)
				}
				t.new("enc").num("lo", lo).list("v", v).end()
			})
			count("calls", len(v))
		}
		for lo := 0x10000; lo < 0x110000; lo += 0x10000 {
			t.boundary()
			what := fmt.Sprintf("To of the runes %#x..", lo)
			t.scenario(what)
			t.guard(what, func() {
				start := lo
				for r := lo; r < lo+0x10000; r++ {
					s := []byte(string(rune(r)))
					o, err := cp949.To(s)
					if err != nil || string(o) != "?" {
						if start < r {
							t.new("encrun").num("lo", start).num("hi", r-1).end()
						}
						t.new("enc").num("lo", r).list("v", [][]byte{o}).end()
						start = r + 1
					}
				}
				if start < lo+0x10000 {
					t.new("encrun").num("lo", start).num("hi", lo+0xffff).end()
				}
			})
			count("calls", 0x10000)
		}
		// bytes that are no part of valid UTF-8
		for b := 0; b < 256; b++ {
			plain(t, "enc", []byte{byte(b)})
		}
		for i := 0; i < pick(3000, 65536); i++ {
			x := rng.Intn(65536)
			if *thorough {
				x = i
			}
			plain(t, "enc", []byte{byte(x >> 8), byte(x)})
		}
		for i := 0; i < pick(6000, 100000); i++ {
			s := make([]byte, 1+rng.Intn(6))
			for k := range s {
				s[k] = byte(rng.Intn(256))
				if rng.Intn(3) > 0 {
					s[k] = []byte{0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xea, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff, 'A'}[rng.Intn(24)]
				}
			}
			plain(t, "enc", s)
		}
		// each rune of the BMP once more, in any order
		all := rng.Perm(0x10000)
		for len(all) > 0 {
			n := 1 + rng.Intn(900)
			if n > len(all) {
				n = len(all)
			}
			var s []byte
			for _, r := range all[:n] {
				s = utf8.AppendRune(s, rune(r))
			}
			plain(t, "enc", s)
			all = all[n:]
		}
	}
	drivers["C15"] = func() {
		t := open("TraceCodec", 900000)
		// every code and every rune, in any order; by four in a text so that
		// the expressible ones are not all mixed with others
		codes := allCodes()
		for i := 0; i < len(codes); i += 4 {
			var s []byte
			for _, c := range codes[i : i+4] {
				s = append(s, byte(0x80+c>>8), byte(c))
			}
			trip(t, "dec", s)
		}
		var ok []rune
		for _, r := range rng.Perm(0x10000) {
			o, err := cp949.To([]byte(string(rune(r))))
			if err == nil && string(o) != "?" || r == '?' {
				ok = append(ok, rune(r))
			} else if r%16 == 0 {
				trip(t, "enc", []byte(string(rune(r))))
			}
		}
		for i := 0; i < len(ok); i += 3 {
			n := i + 3
			if n > len(ok) {
				n = len(ok)
			}
			trip(t, "enc", []byte(string(ok[i:n])))
		}
		// long texts that both sides can express
		for i := 0; i < pick(60, 500); i++ {
			n := someLen(3000)
			if i < pick(2, 8) {
				n = 40000 + rng.Intn(10000)
			}
			var rs []rune
			for k := 0; k < n; k++ {
				if len(ok) == 0 || rng.Intn(4) == 0 {
					rs = append(rs, rune(rng.Intn(128)))
				} else {
					rs = append(rs, ok[rng.Intn(len(ok))])
				}
			}
			trip(t, "enc", []byte(string(rs)))
			if m, err := cp949.To([]byte(string(rs))); err == nil {
				trip(t, "dec", m)
			}
		}
		for i := 0; i < pick(1500, 20000); i++ {
			kind := []string{"dec", "enc"}[i%2]
			trip(t, kind, input(kind, rng.Intn(6)))
		}
	}
	drivers["C16"] = func() {
		t := open("TraceCodec", 900000)
		for _, kind := range []string{"dec", "enc"} {
			plain(t, kind, nil)
			plain(t, kind, []byte{})
			known(kind, func(s []byte) { plain(t, kind, s) })
			for i := 0; i < pick(5000, 60000); i++ {
				plain(t, kind, input(kind, rng.Intn(8)))
			}
			for i := 0; i < pick(250, 3000); i++ {
				plain(t, kind, input(kind, someLen(1200)))
			}
			for i := 0; i < pick(3, 30); i++ {
				plain(t, kind, input(kind, 8000+rng.Intn(8000)))
			}
			for _, n := range bigLens(pick(6, 30)) {
				plain(t, kind, bigText(kind, n))
			}
			for _, s := range exactTexts(kind, pick(16, 18)) {
				plain(t, kind, s)
			}
			// every length of the result around where buffers grow
			for n := 0; n < pick(140, 1200); n++ {
				s := bytes.Repeat([]byte("x"), n)
				plain(t, kind, s)
				if kind == "dec" {
					plain(t, kind, append(clone(s), 0xb0, 0xa1))
					plain(t, kind, append(clone(s), 0xb0))
					plain(t, kind, append(append([]byte{0xb0, 0xa1}, s...), 0xff, 0xff))
				} else {
					plain(t, kind, append(clone(s), "한"...))
					plain(t, kind, append(clone(s), "한"[:2]...))
				}
			}
			for n := 1; n < pick(120, 700); n += 1 + rng.Intn(3) {
				plain(t, kind, bytes.Repeat([]byte(map[string]string{"dec": "\xb0\xa1", "enc": "가"}[kind]), n))
			}
		}
		bigCodec("C16")
		// a text cut everywhere
		for i := 0; i < pick(60, 600); i++ {
			s := someCodes(6)
			for k := range s {
				plain(t, "dec", s[:k])
				plain(t, "dec", s[k:])
			}
		}
	}
	drivers["C21"] = func() { transforms("dec") }
	drivers["C22"] = func() { transforms("enc") }
	// there and back, of characters which both sides have
	drivers["C15windows"] = func() {
		t := open("TraceCodec", 700000)
		for _, kind := range []string{"dec", "enc"} {
			there, back := oneShot(kind), oneShot(other(kind))
			w := whole{"there and back", func(b []byte) ([]byte, error) {
				v, err := there(b)
				if err != nil {
					return nil, err
				}
				return back(v)
			}}
			assigned := codePairs(kind + "back")
			seen := map[string]bool{}
			for _, u := range assigned {
				seen[string(u)] = true
			}
			var us [][]byte
			for _, u := range telling(kind) {
				if seen[string(u)] {
					us = append(us, u)
				}
			}
			rowsOf(t, kind+"back", w, "conv", us, 1)
			some := append(someOf(assigned, pick(5000, 17200)), assigned[:128]...)
			pairs(t, kind+"back", w.name, w.f, some, func(x int) bool { return x%pick(40, 8) == 0 })
		}
	}
	drivers["C21windows"] = func() { bigTransforms("dec") }
	drivers["C22windows"] = func() { bigTransforms("enc") }
}

func transformer(kind string) transform.Transformer {
	e := someEncoding()
	if kind == "dec" {
		return e.NewDecoder()
	}
	return e.NewEncoder()
}

// once records one call of Transform.
func once(t *trace, tr transform.Transformer, kind string, src []byte, dn int, eof bool) (nd, ns int, err error) {
	what := about(fmt.Sprintf("Transform[%s] dst %d, atEOF %v", kind, dn, eof), src)
	t.scenario(what)
	t.guard(what, func() {
		const pad = 16
		mem := make([]byte, dn+pad)
		for i := range mem {
			mem[i] = 0xA5
		}
		dst := mem[:dn]
		if rng.Intn(2) == 0 {
			dst = mem[:dn:dn]
		}
		arg := append(clone(src), 0x5A, 0x5A)[:len(src)]
		nd, ns, err = tr.Transform(dst, arg, eof)
		clean := bytes.Equal(arg, src) && arg[:len(src)+2][len(src)] == 0x5A && arg[:len(src)+2][len(src)+1] == 0x5A
		for _, b := range mem[dn:] {
			clean = clean && b == 0xA5
		}
		var got []byte
		if nd >= 0 && nd <= dn {
			got = dst[:nd]
		}
		t.new("tr").str("kind", kind).bytes("src", src).yes("eof", eof).num("dn", dn).num("ns", ns).num("nd", nd).
			bytes("dst", got).str("e", errName(err)).yes("clean", clean).end()
		if nd < 0 || nd > dn || ns < 0 || ns > len(src) {
			panic("counts out of range")
		}
	})
	count("calls", 1)
	return nd, ns, err
}

func transforms(kind string) {
	t := open("TraceCodec", 700000)
	tr := transformer(kind)
	// the arguments the specification enumerates
	for _, v := range loadVectors() {
		if v.Kind == kind {
			t.boundary()
			nd, ns, err := once(t, tr, kind, v.Src, v.Dn, v.Eof)
			count("vectors", 1)
			if nd != v.Nd || ns != v.Ns || errName(err) != v.E {
				count("vectors_other_than_model", 1)
			}
		}
	}
	for i := 0; i < pick(12000, 150000); i++ {
		t.boundary()
		n := rng.Intn(6)
		if i%8 == 0 {
			n = rng.Intn(40)
		}
		src := input(kind, n)
		dn := rng.Intn(10)
		switch rng.Intn(4) {
		case 0:
			dn = 2*len(src) + rng.Intn(3)
		case 1:
			dn = rng.Intn(3*len(src) + 4)
		}
		if rng.Intn(16) == 0 {
			tr.Reset()
		}
		if rng.Intn(64) == 0 {
			tr = transformer(kind)
		}
		once(t, tr, kind, src, dn, rng.Intn(2) == 0)
	}
	known(kind, func(src []byte) {
		for _, dn := range []int{3 * len(src), rng.Intn(3*len(src) + 1)} {
			t.boundary()
			once(t, tr, kind, src, dn, rng.Intn(2) == 0)
		}
	})
	// from beginning to end, as a caller with limited buffers does it
	for i := 0; i < pick(400, 4000); i++ {
		src := input(kind, rng.Intn(60))
		dcap, scap := 3+rng.Intn(12), 4+rng.Intn(12)
		at, have := 0, 0
		for k := 0; k < 400; k++ {
			t.boundary()
			end := at + have
			eof := end == len(src)
			nd, ns, err := once(t, tr, kind, src[at:end], dcap, eof)
			at, have = at+ns, have-ns
			if err == nil && eof || nd == 0 && ns == 0 && (eof || have >= scap) {
				break
			}
			if err != transform.ErrShortDst {
				more := 1 + rng.Intn(scap)
				if have+more > scap {
					more = scap - have
				}
				if at+have+more > len(src) {
					more = len(src) - at - have
				}
				have += more
			}
		}
	}
	// very long sources
	for _, n := range bigLens(pick(4, 20)) {
		src := bigText(kind, n)
		for _, dn := range []int{len(src) * 2, []int{len(src), 65535, 65536, 70000, 32767, 131072, 3 * len(src)}[rng.Intn(7)]} {
			t.boundary()
			once(t, tr, kind, src, dn, rng.Intn(2) == 0)
		}
	}
	// each length, with as much room as is needed, or nearly
	for n := 0; n < pick(220, 1100); n++ {
		var src []byte
		for u := pieces(kind); len(src) < n; {
			src = append(src, u...)
		}
		need := 0
		if out, err := oneShot(kind)(clone(src[:n])); err == nil {
			need = len(out)
		}
		for _, dn := range []int{need, need - 1, need + 1, n} {
			if dn >= 0 {
				t.boundary()
				once(t, tr, kind, src[:n], dn, rng.Intn(2) == 0)
			}
		}
	}
	// little text, much room
	for i := 0; i < pick(60, 600); i++ {
		t.boundary()
		once(t, tr, kind, input(kind, 1+rng.Intn(30)), 1<<uint(5+rng.Intn(pick(14, 18)))-1+rng.Intn(3), rng.Intn(2) == 0)
	}
	for _, src := range exactTexts(kind, pick(13, 17)) {
		t.boundary()
		n := len(src)
		once(t, tr, kind, src, []int{n, n - 1, n + 1, 2 * n, n / 2, 512, 4096}[rng.Intn(7)], rng.Intn(2) == 0)
	}
	// long sources
	for i := 0; i < pick(40, 400); i++ {
		t.boundary()
		src := input(kind, 300+rng.Intn(1200))
		once(t, tr, kind, src, []int{len(src) / 3, len(src) * 2, 512, 4096}[rng.Intn(4)], rng.Intn(2) == 0)
	}
}

// transformWays are ways to convert something by Transform.
func transformWays(t *trace, kind string) map[string][]whole {
	short := errors.New("no result")
	one := func(b []byte, eof, exact bool) ([]byte, int, error) {
		tr := transformer(kind)
		dst := make([]byte, 3*len(b)+3)
		nd, ns, err := tr.Transform(dst, b, eof)
		if exact && err == nil {
			dst = make([]byte, nd)
			if rng.Intn(2) == 0 {
				tr.Reset()
			}
			nd, ns, err = tr.Transform(dst, b, eof)
		}
		return dst[:nd], ns, err
	}
	return map[string][]whole{
		"all": {
			{"Transform", func(b []byte) ([]byte, error) {
				v, ns, err := one(b, true, rng.Intn(2) == 0)
				if err == nil && ns != len(b) {
					err = short
				}
				return v, err
			}},
			// dst and src of limited sizes, again and again
			{"Transform by and by", func(b []byte) (out []byte, err error) {
				tr := transformer(kind)
				dst := make([]byte, []int{3, 4, 7, 64, 512, 4096, 3 + rng.Intn(5000)}[rng.Intn(7)])
				win := []int{4, 5, 16, 512, 4096, 4 + rng.Intn(5000)}[rng.Intn(6)]
				for have := 0; ; {
					if have > len(b) {
						have = len(b)
					}
					nd, ns, err := tr.Transform(dst, b[:have], have == len(b))
					if err == transform.ErrShortDst && len(dst)-nd >= 3 && len(b) < 20000 {
						t.new("tr").str("kind", kind).bytes("src", b[:have]).yes("eof", have == len(b)).num("dn", len(dst)).num("ns", ns).num("nd", nd).
							bytes("dst", dst[:nd]).str("e", errName(err)).yes("clean", true).end()
					}
					out = append(out, dst[:nd]...)
					b, have = b[ns:], have-ns
					switch {
					case err == transform.ErrShortDst && (nd > 0 || ns > 0):
					case (err == nil || err == transform.ErrShortSrc) && have < len(b) && (ns > 0 || have < win):
						have += 1 + rng.Intn(win)
						if have > win {
							have = win
						}
					case err == nil && len(b) > 0:
						return out, short
					default:
						return out, err
					}
				}
			}},
		},
		"sunk": {{"Transform, not at the end", func(b []byte) ([]byte, error) {
			v, ns, err := one(b, false, rng.Intn(2) == 0)
			if err == nil && ns != len(b) {
				err = short
			}
			if err == transform.ErrShortSrc && ns < len(b) && len(b)-ns < 4 {
				err = nil
			}
			return v, err
		}}},
	}
}

// bigTransforms are the many and the large conversions by Transform.
func bigTransforms(kind string) {
	t := open("TraceCodec", 700000)
	all := transformWays(t, kind)
	for _, mode := range []string{"all", "sunk"} {
		ways := all[mode]
		allLens(t, kind, mode, pick(6200, 34000), ways...)
		bigs(t, kind, ways...)
		for _, w := range ways {
			somePairs(t, kind, w)
			allWindows(t, kind, w, mode, 4)
		}
	}
}

var _ encoding.Encoding = cp949.NewCP949Encoding()
