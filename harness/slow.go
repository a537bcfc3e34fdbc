package main

import (
	"fmt"
	"io"
	"strings"
	"time"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
)

// Nothing here is about what the code does, only about how long it takes: it
// may be as slow as it likes, and then less is tried.

// tooLate ends a run which has taken long enough.
type tooLate struct{}

var started = time.Now()

func late() bool { return *deadline > 0 && alone && time.Since(started) > *deadline }

// upTo is log2 of the largest length that is tried.
func upTo(k int) int {
	if k > *top {
		return *top
	}
	return k
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int { return a + b - min(a, b) }

func init() {
	// calibrate finds the length which every function can handle in a second.
	drivers["calibrate"] = func() {
		fs := []func(s string){
			func(s string) { hanja.Convert(s) },
			func(s string) { hangul.AppendPostposition(s, "을", "를") },
			func(s string) { hangul.LastConsonant(s) },
			func(s string) { cp949.To([]byte(s)) },
			func(s string) { cp949.NewCP949Encoding().NewEncoder().Bytes([]byte(s)) },
			func(s string) { cp949.From([]byte(strings.Repeat("\xb0\xa1", len(s)/3))) },
			func(s string) {
				cp949.NewCP949Encoding().NewDecoder().Bytes([]byte(strings.Repeat("\xb0\xa1", len(s)/3)))
			},
			func(s string) {
				if r, err := cp949.NewReader(strings.NewReader(strings.Repeat("\xb0\xa1", len(s)/3))); err == nil {
					io.ReadAll(r)
				}
			},
			func(s string) {
				if w, err := cp949.NewWriter(io.Discard); err == nil {
					w.Write([]byte(s))
				}
			},
		}
		best := 40
		for _, f := range fs {
			for k := 10; k <= 20 && k < best; k += 2 {
				s := strings.Repeat("大", 1<<uint(k)/3)
				took := time.Hour
				for i := 0; i < 2 && took > time.Second; i++ {
					func() {
						defer func() { recover() }()
						at := time.Now()
						f(s)
						if d := time.Since(at); d < took {
							took = d
						}
					}()
				}
				if took > time.Second {
					best = k - 2
				}
			}
		}
		fmt.Println("TOP", best)
	}
}
