package main

import (
	"bytes"
	"io"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/transform"
)

// decCloser makes a Writer which decodes; encoding.Decoder has none.
type decCloser struct {
	d *encoding.Decoder
	w io.Writer
}

func (d decCloser) open() io.Writer { return transform.NewWriter(d.w, d.d) }

// around is text whose length, or that of its conversion, is around n.
func around(kind string, n int) []byte {
	var out []byte
	unit := map[string][]string{
		"dec": {"\xb0\xa1", "\xb0\xa1", "A", "\xc8\xfe\xc1\xa6", "\xff\x41", "\xa1\xad "},
		"enc": {"가", "각", "A", "힣똠", "漢", "é", "😀", "\xff", "\xed\xa0\x80"},
	}[kind]
	mode := rng.Intn(4)
	for len(out) < n {
		u := unit[rng.Intn(len(unit))]
		if mode == 0 {
			u = unit[0]
		}
		if mode == 1 && len(out) > 0 {
			u = unit[0]
		}
		if mode == 1 && len(out) == 0 {
			u = "A"
		}
		out = append(out, u...)
	}
	switch rng.Intn(3) {
	case 0:
		if len(out) > n {
			out = out[:n]
		}
	case 1:
		out = append(out, input(kind, 2)...)
	}
	return out
}

// someEncoding is a CP949Encoding, made in one way or another.
func someEncoding() *cp949.CP949Encoding {
	switch rng.Intn(4) {
	case 0:
		return new(cp949.CP949Encoding)
	case 1:
		e := *cp949.NewCP949Encoding()
		return &e
	}
	return cp949.NewCP949Encoding()
}

func bytesOf(kind string, shared *cp949.CP949Encoding) func([]byte) ([]byte, error) {
	if kind == "dec" {
		return shared.NewDecoder().Bytes
	}
	return shared.NewEncoder().Bytes
}
func stringOf(kind string, shared *cp949.CP949Encoding) func([]byte) ([]byte, error) {
	return func(b []byte) ([]byte, error) {
		var s string
		var err error
		if kind == "dec" {
			s, err = shared.NewDecoder().String(string(b))
		} else {
			s, err = shared.NewEncoder().String(string(b))
		}
		return []byte(s), err
	}
}

// wrapped converts with what x/text puts around encoders and decoders.
func wrapped(t *trace, kind string, text []byte) {
	e := someEncoding()
	if kind == "enc" {
		enc := e.NewEncoder()
		name := ""
		switch rng.Intn(3) {
		case 0:
			name, enc = "HTMLEscapeUnsupported", encoding.HTMLEscapeUnsupported(enc)
		case 1:
			name, enc = "ReplaceUnsupported", encoding.ReplaceUnsupported(enc)
		case 2:
			name, enc = "both", encoding.ReplaceUnsupported(encoding.HTMLEscapeUnsupported(enc))
		}
		conv(t, name, kind, text, enc.Bytes)
		return
	}
	for _, bom := range []string{"\xfe\xff", "\xff\xfe", "\xef\xbb\xbf"} {
		if bytes.HasPrefix(text, []byte(bom)) || len(text) < 3 {
			return
		}
	}
	d := &encoding.Decoder{Transformer: unicode.BOMOverride(e.NewDecoder())}
	conv(t, "BOMOverride", kind, text, d.Bytes)
}

// throughTwo converts there and back within one chain of transformers.
func throughTwo(t *trace, kind string, text []byte) {
	c := transform.Chain(transformer(kind), transformer(other(kind)))
	if rng.Intn(4) == 0 {
		c = transform.Chain(transform.Nop, transformer(kind), transformer(other(kind)), transform.Nop)
	}
	t.boundary()
	what := about("Chain, "+kind, text)
	t.scenario(what)
	t.guard(what, func() {
		mode := "oneshot"
		var v []byte
		var err error
		switch rng.Intn(3) {
		case 0:
			v, _, err = transform.Bytes(c, text)
			if err != nil {
				v = nil
			}
		case 1:
			mode = "all"
			v, err = io.ReadAll(transform.NewReader(bytes.NewReader(text), c))
		case 2:
			mode = "all"
			var out bytes.Buffer
			w := transform.NewWriter(&out, c)
			for _, b := range cutText(text) {
				if _, err = w.Write(b); err != nil {
					break
				}
			}
			if err == nil {
				err = w.Close()
			}
			v = out.Bytes()
		}
		t.new("two").str("kind", kind).str("mode", mode).bytes("s", text).bytes("v", v).str("e", errName(err)).end()
	})
	count("calls", 1)
}

func init() {
	drivers["C23"] = func() {
		bigCodec("C23")
		rt, wt, ct := open("TraceReader", 1200000), open("TraceWriter", 1200000), open("TraceCodec", 1200000)
		shared := someEncoding()
		lens := []int{4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 4100, 6144, 8190, 8191, 8192, 8193, 2048, 2731, 2730, 1365, 1366, 12288, 12289}
		bytesAgain := map[string]func([]byte) ([]byte, error){"dec": shared.NewDecoder().Bytes, "enc": shared.NewEncoder().Bytes}
		again := map[string]transform.Transformer{"dec": transformer("dec"), "enc": transformer("enc")}
		for _, kind := range []string{"dec", "enc"} {
			rd := func(text []byte, end string) {
				follow(rt, about("Reader["+kind+"]", text), kind, &source{pieces: script(text, end), end: end}, someSizes(), 9000, xReader(kind))
			}
			wr := func(text []byte) {
				feed(wt, about("Writer["+kind+"]", text), kind, cutText(text), &sink{}, true, xWriter(kind))
			}
			one := func(text []byte) {
				switch rng.Intn(7) {
				case 4:
					wrapped(ct, kind, text)
				case 5:
					throughTwo(ct, kind, text)
				case 6: // a transformer that is used again, after whatever it was used for
					conv(ct, "the same transformer", kind, text, func(b []byte) ([]byte, error) {
						v, _, err := transform.Bytes(again[kind], b)
						if err != nil {
							v = nil
						}
						return v, err
					})
				case 0:
					conv(ct, "Bytes", kind, text, bytesOf(kind, shared))
				case 1:
					conv(ct, "String", kind, text, stringOf(kind, shared))
				case 2: // the same decoder again
					conv(ct, "Bytes again", kind, text, bytesAgain[kind])
				case 3:
					conv(ct, "transform.Append", kind, text, func(b []byte) ([]byte, error) {
						pre := make([]byte, 3, 3+rng.Intn(len(b)+8))
						v, _, err := transform.Append(transformer(kind), pre, b)
						if err != nil {
							return nil, err
						}
						return v[3:], nil
					})
				}
			}
			for i := 0; i < pick(1200, 12000); i++ {
				rd(input(kind, rng.Intn(8)), endings[rng.Intn(len(endings))])
				wr(input(kind, rng.Intn(8)))
				one(input(kind, rng.Intn(8)))
			}
			for i := 0; i < pick(60, 600); i++ {
				rd(input(kind, someLen(700)), endings[rng.Intn(len(endings))])
				wr(input(kind, someLen(700)))
				one(input(kind, someLen(700)))
			}
			for i := 0; i < pick(len(lens), 12*len(lens)); i++ {
				n := lens[i%len(lens)]
				text := around(kind, n)
				z := &sizes{style: 0, fixed: []int{512, 1000, 4096, 8192}[rng.Intn(4)]}
				end := endings[rng.Intn(len(endings))]
				ps := script(text, end)
				if rng.Intn(2) == 0 {
					ps = []piece{{b: clone(text)}}
				}
				follow(rt, about("Reader["+kind+"]", text), kind, &source{pieces: ps, end: end}, z, 9000, xReader(kind))
				text = around(kind, n)
				cut := cutText(text)
				if rng.Intn(2) == 0 {
					k := rng.Intn(len(text) + 1)
					cut = [][]byte{text[:k], text[k:]}
				}
				feed(wt, about("Writer["+kind+"]", text), kind, cut, &sink{}, true, xWriter(kind))
				one(around(kind, n))
				one(around(kind, n))
			}
			for _, text := range exactTexts(kind, pick(14, 17)) {
				z := &sizes{style: 0, fixed: []int{len(text), 512, 4096, 1 << 18}[rng.Intn(4)]}
				follow(rt, about("Reader["+kind+"]", text), kind, &source{pieces: []piece{{b: text}}, end: "EOF"}, z, 1<<20, xReader(kind))
				feed(wt, about("Writer["+kind+"]", text), kind, [][]byte{text}, &sink{}, true, xWriter(kind))
				one(text)
			}
			for i, n := range bigLens(pick(4, 20)) {
				text := bigText(kind, n)
				z := &sizes{style: 0, fixed: []int{512, 4096, 65536, 1 << 18}[rng.Intn(4)]}
				switch i % 3 {
				case 0:
					follow(rt, about("Reader["+kind+"]", text), kind, &source{pieces: bigScript(text), end: "EOF"}, z, 1<<20, xReader(kind))
				case 1:
					var ps [][]byte
					for _, p := range bigScript(text) {
						ps = append(ps, p.b)
					}
					feed(wt, about("Writer["+kind+"]", text), kind, ps, &sink{}, true, xWriter(kind))
				}
				one(text)
			}
		}
	}
}
