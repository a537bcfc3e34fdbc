package main

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/suapapa/go_hangul/encoding/cp949"
)

// job is what one goroutine does, all of it chosen before it starts, so that
// nothing but the code under test can synchronise the goroutines.
type job struct {
	kind  string // "call", "read", "write"
	c     call
	arg   []byte // shared with other goroutines
	p     plan
	src   *source
	kinds string
	x     bool
	cuts  [][]byte
	t     *trace
	to    *trace

	meanwhile func() // what the source or sink waits for, if not nil
}

// concurrent lets goroutines do all kinds of things at the same time.
func concurrent() {
	for i := pick(30, 200); i > 0; i-- {
		nested()
	}
	rounds(pick(6, 30), pick(60, 200), false)
	hot()
}

// hot lets goroutines make a few calls of one function over and over, so
// that they meet within it; of each call, what it gave is recorded once for
// each different result, of which the specification knows one.
func hot() {
	t := open("TraceCalls", 900000)
	budget := time.Duration(pick(25, 300)) * time.Millisecond
	fs := rng.Perm(len(allFns))
	for _, i := range fs {
		f := allFns[i]
		p := newPool()
		calls := []call{someCall(p, f)}
		for k := 1 + rng.Intn(5); k > 0; k-- {
			if rng.Intn(2) == 0 {
				calls = append(calls, calls[rng.Intn(len(calls))].sibling())
			} else {
				calls = append(calls, someCall(p, f))
			}
		}
		if rng.Intn(3) == 0 && f != "Join" {
			for k := range calls {
				calls[k] = someCall(p, allFns[rng.Intn(len(allFns))])
			}
		}
		t.scenario("the same few calls again and again, of " + f)
		const workers = 8
		type seen struct {
			rs    [][]int
			times int
		}
		found := make([][]seen, workers)
		late := make([]*trace, workers)
		how := somePlan()
		shared := cp949.NewCP949Encoding()
		alone = false
		var wg sync.WaitGroup
		end := time.Now().Add(budget)
		for g := 0; g < workers; g++ {
			found[g] = make([]seen, len(calls))
			late[g] = t.aside()
			mine := make([]call, len(calls))
			for k, c := range calls {
				mine[k] = call{f: c.f, runes: append([]rune(nil), c.runes...)}
				for _, b := range c.texts {
					mine[k].texts = append(mine[k].texts, clone(b))
				}
			}
			wg.Add(1)
			go func(g int, state uint32) {
				defer wg.Done()
				var prev result
				var was []int
				var prevCall call
				for n := 0; late[g].events < 6 && (n&15 != 0 || time.Now().Before(end)); n++ {
					state = state*1664525 + 1013904223
					k := int(state>>8) % len(mine)
					c := mine[k]
					late[g].guard(c.f+c.args(), func() {
						var arg []byte
						if takesSlice(c.f) {
							arg = c.texts[0]
						}
						x := c.do(arg, shared, how)
						s := &found[g][k]
						s.times++
						known := false
						for _, r := range s.rs {
							known = known || equalInts(r, x.r)
						}
						if !known && len(s.rs) < 3 {
							s.rs = append(s.rs, x.r)
						}
						// the slice of the call before is still what it was
						if was != nil && !equalInts(was, prev.hold(1).content()) {
							t := late[g]
							t.new("new").end()
							t.new("call").str("f", prevCall.f).raw("a", prevCall.args()).ints("r", prev.r).num("arg", 0).num("id", 1).end()
							t.new("peek").num("id", 1).ints("v", prev.hold(1).content()).end()
						}
						was = nil
						if x.held() {
							prev, prevCall, was = x, c, x.hold(1).content()
						}
					})
				}
			}(g, rng.Uint32())
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(*stall):
			abort("hang")
		}
		alone = true
		beat.Add(1)
		for k, c := range calls {
			var all [][]int
			for g := range found {
			results:
				for _, r := range found[g][k].rs {
					for _, x := range all {
						if equalInts(x, r) {
							continue results
						}
					}
					all = append(all, r)
				}
				count("hot_calls", found[g][k].times)
			}
			for _, r := range all {
				t.boundary()
				t.new("new").end()
				t.new("call").str("f", c.f).raw("a", c.args()).ints("r", r).num("arg", 0).num("id", 0).end()
			}
		}
		for _, l := range late {
			if l.events > 0 {
				t.join(l)
			}
		}
	}
}

// nested lets sources and sinks wait until others, in goroutines of their
// own, have done all kinds of things, some of which do the same again.
func nested() {
	ct, rt, wt := open("TraceCalls", 900000), open("TraceReader", 900000), open("TraceWriter", 900000)
	p, mine := newPool(), newPool()
	shared := cp949.NewCP949Encoding()
	left := 60
	var all []*job
	var within func(depth int) func()
	prepare := func(depth int) *job {
		only := ""
		if rng.Intn(3) == 0 {
			only = allFns[rng.Intn(len(allFns))]
		}
		j := someJob(p, mine, only, ct, rt, wt)
		if depth > 0 {
			j.meanwhile = within(depth - 1)
		}
		all = append(all, j)
		return j
	}
	within = func(depth int) func() {
		return func() {
			for i := rng.Intn(3); i >= 0 && left > 0; i-- {
				left--
				j := prepare(depth)
				done := make(chan struct{})
				go func() {
					j.run(shared)
					close(done)
				}()
				<-done
				beat.Add(1)
			}
		}
	}
	ct.scenario("calls while a source or sink waits for others")
	for left > 0 {
		left--
		prepare(2).run(shared)
		beat.Add(1)
	}
	for _, j := range all {
		j.to.join(j.t)
		count("nested_jobs", 1)
	}
}

func init() {
	// in a fresh program, everybody calls the same function first
	drivers["C25first"] = func() { rounds(1, 2, true) }
}

func rounds(n, each int, fixed bool) {
	ct, rt, wt := open("TraceCalls", 900000), open("TraceReader", 900000), open("TraceWriter", 900000)
	for round := 0; round < n; round++ {
		ct.scenario(fmt.Sprint("concurrent calls, round ", round))
		const workers = 16
		shared := cp949.NewCP949Encoding()
		p := newPool()
		// everybody uses the same arguments
		mine := newPool()
		jobs := make([][]*job, workers)
		only := ""
		if fixed {
			only = allFns[int(*seed)%len(allFns)]
		} else if round%3 == 1 {
			// everybody calls the same function
			only = append(append(append([]string{"SplitMultiElement", "SplitMultiElement"}, sliceFns...), sliceFns...), runeFns...)[rng.Intn(2+2*len(sliceFns)+len(runeFns))]
		}
		for g := range jobs {
			for k := 0; k < each; k++ {
				j := someJob(p, mine, only, ct, rt, wt)
				jobs[g] = append(jobs[g], j)
			}
		}
		alone = false
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := range jobs {
			wg.Add(1)
			go func(js []*job, g int) {
				defer wg.Done()
				<-start
				for _, j := range js {
					j.run(shared)
					if g%4 == 0 {
						runtime.Gosched()
					}
				}
			}(jobs[g], g)
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		close(start)
		select {
		case <-done:
		case <-time.After(*stall):
			abort("hang")
		}
		alone = true
		for _, js := range jobs {
			for _, j := range js {
				j.to.join(j.t)
				count("jobs", 1)
			}
		}
	}
}

// someJob is a job, of one function if only is one.
func someJob(p, mine *pool, only string, ct, rt, wt *trace) *job {
	j := &job{}
	if only == "" && rng.Intn(6) == 0 {
		text := someCodes(rng.Intn(30))
		j.kind, j.t, j.to, j.kinds = "read", rt.aside(), rt, "dec"
		j.x = rng.Intn(2) == 0
		j.src = &source{t: j.t, pieces: script(text, "EOF"), end: "EOF"}
		j.p = somePlan()
	} else if only == "" && rng.Intn(5) == 0 {
		j.kind, j.t, j.to, j.kinds = "write", wt.aside(), wt, "enc"
		j.x = rng.Intn(2) == 0
		j.cuts = cutText(someText(rng.Intn(30)))
	} else {
		j.kind, j.t, j.to = "call", ct.aside(), ct
		q := p
		if rng.Intn(4) == 0 {
			q = mine
		}
		j.c = q.call()
		for i := 0; only != "" && j.c.f != only && i < 1000; i++ {
			j.c = q.call()
		}
		if takesSlice(j.c.f) {
			j.arg = j.c.texts[0]
		}
		j.p = somePlan()
	}
	return j
}

func (j *job) run(shared *cp949.CP949Encoding) {
	switch j.kind {
	case "call":
		j.t.new("new").end()
		args := j.c.args()
		j.t.guard(j.c.f+args, func() {
			x := j.c.do(j.arg, shared, j.p)
			id := 0
			if x.held() {
				id = 1
			}
			j.t.new("call").str("f", j.c.f).raw("a", args).ints("r", x.r).num("arg", 0).num("id", id).end()
			if id == 1 {
				s := x.hold(1)
				o := owner{t: j.t}
				o.peek(s)
				o.write(s)
				runtime.Gosched()
				o.peek(s)
			}
		})
	case "read":
		j.t.new("new").str("kind", "dec").str("what", "concurrent Reader").end()
		j.t.guard("Reader", func() {
			j.src.meanwhile = j.meanwhile
			r, err := cp949.NewReader(j.src)
			if j.x {
				r = shared.NewDecoder().Reader(j.src)
			}
			for i := 0; err == nil && i < 1000; i++ {
				buf := make([]byte, j.p.sizes[i%len(j.p.sizes)])
				j.t.new("begin").num("n", len(buf)).end()
				var n int
				n, err = r.Read(buf)
				j.t.new("ret").bytes("b", buf[:n]).str("e", errName(err)).end()
			}
		})
	case "write":
		j.t.new("new").str("kind", "enc").str("what", "concurrent Writer").end()
		j.t.guard("Writer", func() {
			s := &sink{t: j.t, meanwhile: j.meanwhile}
			w, err := cp949.NewWriter(s)
			if j.x {
				w = shared.NewEncoder().Writer(s)
			}
			if err != nil {
				return
			}
			for _, b := range j.cuts {
				put(j.t, w, b)
			}
		})
	}
}
