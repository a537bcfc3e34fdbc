package main

import (
	"io"
	"sync"
	"time"

	"github.com/suapapa/go_hangul/encoding/cp949"
)

// Sources, sinks and callers that take their time: nothing in the contracts
// of the Reader and the Writer depends on how long anything takes.

// naps tells at which steps of a scenario somebody sleeps, and how long.
type naps struct {
	step int
	at   map[int]time.Duration
}

func someNaps(within int) *naps {
	ms := []int{20, 120, 260, 520, 1050, 1100, 1300, 2100, 2600, 5200}
	if *thorough {
		ms = append(ms, 10500, 31000)
	}
	z := &naps{at: map[int]time.Duration{}}
	for i := 1 + rng.Intn(3); i > 0; i-- {
		d := time.Duration(ms[rng.Intn(len(ms))]) * time.Millisecond
		z.at[1+rng.Intn(within)] = d
		if d > 3*time.Second {
			break
		}
	}
	return z
}

func (z *naps) next() {
	z.step++
	time.Sleep(z.at[z.step])
}

// together runs scenarios at the same time, each with a trace of its own.
func together(t *trace, what string, fs []func(t *trace)) {
	t.boundary()
	t.scenario(what)
	count("slow", len(fs))
	as := make([]*trace, len(fs))
	var wg sync.WaitGroup
	alone = false
	for i := range fs {
		i := i
		as[i] = t.aside()
		wg.Add(1)
		go func() {
			defer wg.Done()
			as[i].guard(what, func() { fs[i](as[i]) })
		}()
	}
	wg.Wait()
	alone = true
	for _, a := range as {
		t.join(a)
	}
}

func slowReaders(module string, n int) {
	var fs []func(t *trace)
	for ; n > 0; n-- {
		text := someCodes(1 + rng.Intn(5))
		if rng.Intn(4) == 0 {
			text = append(text, 0xB0)
		}
		end := endings[rng.Intn(len(endings))]
		s := &source{pieces: script(text, end), end: end, blankEnd: rng.Intn(4)}
		for rng.Intn(2) == 0 {
			k := rng.Intn(len(s.pieces) + 1)
			s.pieces = append(s.pieces[:k:k], append([]piece{{}}, s.pieces[k:]...)...)
		}
		// the caller naps too
		z := someNaps(2 * (len(s.pieces) + 3))
		s.meanwhile = z.next
		var bufs []int
		for i := 0; i < 10; i++ {
			bufs = append(bufs, []int{1, 2, 3, 4, 8, 64, 512}[rng.Intn(7)])
		}
		fs = append(fs, func(t *trace) {
			s.t = t
			t.new("new").str("kind", "dec").str("what", "slow source").end()
			r, err := cp949.NewReader(s)
			for i, more := 0, 2; i < 200 && more > 0; i++ {
				z.next()
				buf := make([]byte, bufs[i%len(bufs)])
				t.new("begin").num("n", len(buf)).end()
				var n int
				n, err = r.Read(buf)
				t.new("ret").bytes("b", buf[:n]).str("e", errName(err)).end()
				if err != nil {
					more--
				}
			}
		})
	}
	together(open(module, 900000), "slow sources", fs)
}

func slowWriters(n int, fails bool) {
	var fs []func(t *trace)
	for ; n > 0; n-- {
		ps := cutText(someText(1 + rng.Intn(6)))
		s := &sink{none: true}
		if fails {
			s.fail = map[int]string{}
			for k := rng.Intn(3); k >= 0; k-- {
				s.fail[1+rng.Intn(5)] = sinkErrs[rng.Intn(len(sinkErrs))]
			}
		}
		z := someNaps(2 * (len(ps) + 1))
		s.meanwhile = z.next
		fs = append(fs, func(t *trace) {
			s.t = t
			t.new("new").str("kind", "enc").str("what", "slow sink").end()
			var w io.Writer
			w, _ = cp949.NewWriter(s)
			for _, b := range ps {
				z.next()
				put(t, w, b)
			}
		})
	}
	together(open("TraceWriter", 900000), "slow sinks", fs)
}
