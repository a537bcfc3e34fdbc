// Command harness drives the packages of github.com/suapapa/go_hangul
// through their public API, and records what they do as traces for the
// specification in /verif/spec.
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

var (
	outDir   = flag.String("out", ".", "directory for traces")
	seed     = flag.Int64("seed", 1, "seed of every random choice")
	thorough = flag.Bool("thorough", false, "explore more")
	scen     = flag.String("scen", "", "file of scenarios generated from the specification")
	stall    = flag.Duration("stall", 60*time.Second, "time without progress that counts as a hang")
	deadline = flag.Duration("deadline", 0, "time after which the run ends as it is")
	top      = flag.Int("top", 40, "log2 of the largest length that is tried")
	maxHeap  = flag.Uint64("maxheap", 6<<30, "heap that counts as runaway")
)

var rng *rand.Rand

// pick is the quick or the thorough amount.
func pick(q, t int) int {
	if *thorough {
		return t
	}
	return q
}

var drivers = map[string]func(){}

// beat is incremented whenever there is progress.
var beat atomic.Int64

func watchdog() {
	last, since := beat.Load(), time.Now()
	for {
		time.Sleep(250 * time.Millisecond)
		if b := beat.Load(); b != last {
			last, since = b, time.Now()
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		why := ""
		if time.Since(since) > *stall {
			why = "hang"
		} else if m.HeapAlloc > *maxHeap {
			why = "memory"
		}
		if why != "" {
			abort(why)
		}
	}
}

func main() {
	flag.Parse()
	d := drivers[flag.Arg(0)]
	if d == nil {
		fmt.Fprintln(os.Stderr, "no driver", flag.Arg(0))
		os.Exit(4)
	}
	rng = rand.New(rand.NewSource(*seed))
	go watchdog()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tooLate); !ok {
					panic(p)
				}
				count("cut_short", 1)
			}
		}()
		d()
	}()
	closeAll()
	writeStats()
}
