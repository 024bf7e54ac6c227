package main

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
)

type ctr struct {
	mu sync.Mutex
	n  int
}

func (c *ctr) get() int  { c.mu.Lock(); defer c.mu.Unlock(); return c.n }
func (c *ctr) set(n int) { c.mu.Lock(); defer c.mu.Unlock(); c.n = n }

func main() {
	for _, threads := range []int{2, 3} {
		for b := 0; b <= 3; b++ {
			var st vrt.Stats
			res := map[string]int{}
			t0 := time.Now()
			f := vrt.Explore(&vrt.Config{Mode: vrt.All, Bound: b}, &st, func() (string, string) {
				c := &ctr{}
				var wg sync.WaitGroup
				for i := 0; i < threads; i++ {
					wg.Add(1)
					go func() { defer wg.Done(); c.set(c.get() + 1) }()
				}
				wg.Wait()
				return fmt.Sprint(c.get()), ""
			}, func(x *vrt.Exec) { res[x.Outcome]++ })
			fmt.Println(threads, b, st.Executions, res, f, time.Since(t0), st.MaxSteps)
		}
	}
	// select, timers, deadlock
	var st vrt.Stats
	f := vrt.Explore(&vrt.Config{Mode: vrt.All, Bound: 2}, &st, func() (string, string) {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case x := <-a:
			return fmt.Sprint(x), ""
		case x := <-b:
			return fmt.Sprint(x), ""
		}
	}, nil)
	fmt.Println(len(st.Outcomes), f)
	st = vrt.Stats{}
	f = vrt.Explore(&vrt.Config{Mode: vrt.All, Bound: 1}, &st, func() (string, string) {
		ctx, c := context.WithTimeout(context.Background(), 5*time.Second)
		defer c()
		t0 := time.Now()
		<-ctx.Done()
		return fmt.Sprint(ctx.Err(), time.Since(t0)), ""
	}, func(x *vrt.Exec) { fmt.Println(x.Outcome) })
	fmt.Println(len(st.Outcomes), f)
	st = vrt.Stats{}
	f = vrt.Explore(&vrt.Config{Mode: vrt.All, Bound: 1}, &st, func() (string, string) {
		var a, b sync.Mutex
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }()
		go func() { defer wg.Done(); b.Lock(); a.Lock(); a.Unlock(); b.Unlock() }()
		wg.Wait()
		return "ok", ""
	}, nil)
	fmt.Println(len(st.Outcomes), f)
}
