// C20: trait models keep derived state consistent with their rules.
package main

import (
	"time"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// clk is a settable clock.
type clk struct{ now time.Time }

func (c *clk) Now() time.Time { return c.now }

var epoch = time.Date(2021, 2, 3, 4, 5, 6, 7, time.UTC)

func lost(err error) bool {
	c := status.Code(err)
	return c == codes.Aborted || c == codes.Unavailable
}

// words calls f with every word of length n over k letters.
func words(k, n int, f func(w []int) bool) {
	w := make([]int, n)
	for {
		if !f(append([]int{}, w...)) {
			return
		}
		i := n - 1
		for i >= 0 {
			w[i]++
			if w[i] < k {
				break
			}
			w[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func pick[T any](all []T, w []int) []T {
	r := make([]T, len(w))
	for i, x := range w {
		r[i] = all[x]
	}
	return r
}

type scenarios []hl.Scenario

func (s *scenarios) enum(name string, shards int, f func(e *hl.E)) {
	*s = append(*s, hl.Scenario{Name: name, Enum: f, Shards: shards})
}

func (s *scenarios) conc(name string, b1, b2 int, body vrt.Body) {
	*s = append(*s, hl.Scenario{Name: name, Cfg: vrt.Config{Mode: vrt.Repo, Bound: b1}, Bound2: b2, Body: body})
}

// par runs the functions concurrently.
func par(fs ...func()) {
	done := make(chan bool, len(fs))
	for _, f := range fs {
		go func() {
			f()
			done <- true
		}()
	}
	for range fs {
		<-done
	}
}

func main() {
	hl.Main("C20", func() []hl.Scenario {
		var s scenarios
		parent(&s)
		vending(&s)
		units(&s)
		fan(&s)
		modes(&s)
		enterLeave(&s)
		meter(&s)
		publication(&s)
		many(&s)
		return s
	})
}
