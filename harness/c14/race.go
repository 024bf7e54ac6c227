package main

import (
	"fmt"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
)

// race lets an update or two race with a Pull that opens, under every schedule within the bound.
// Whatever the schedule, a stream that isn't updates-only ends on what the register holds;
// once it is open every stream sees the next update.
func (r *register) race(two bool) []hl.Scenario {
	al := r.alphabet()
	var out []hl.Scenario
	for i := range al {
		for j := range al {
			if !two && j > 0 || two && (j < i || !hl.Thorough() && (i+j)%3 != 0) {
				continue
			}
			first := []op{al[i]}
			if two {
				first = append(first, al[j])
			}
			next := al[(i+1)%len(al)]
			name := fmt.Sprintf("race/%s/%d", r.name, i)
			if two {
				name = fmt.Sprintf("race2/%s/%d-%d", r.name, i, j)
			}
			out = append(out, hl.Scenario{Name: name, Cfg: vrt.Config{Mode: 1, Bound: 1}, Bound2: 2, Body: func() (string, string) {
				return r.raceOnce(first, next, !two)
			}})
		}
	}
	return out
}

func (r *register) raceOnce(first []op, next op, opening bool) (string, string) {
	var w *world
	vrt.Quiet(func() { w = r.newWorld() })
	defer vrt.Quiet(func() { w.close() })
	b := devB
	if r.oneName {
		b = devA
	}
	var ss []*stream
	open := func(name string, uo bool) { ss = append(ss, w.open(name, rm.Mask{}, uo)) }
	if !opening {
		vrt.Quiet(func() {
			now, err := w.get(devA, rm.Mask{})
			if err != nil {
				panic(err)
			}
			open(b, false)
			if f := ss[0].opened(now); f != "" {
				panic(f)
			}
		})
	} else {
		go open(b, false)
	}
	errs := make([]error, len(first))
	for i, o := range first {
		go func() { _, errs[i] = o.do(w) }()
	}
	vrt.Quiesce()
	var now view
	var fail string
	vrt.Quiet(func() {
		if r.settle != nil {
			r.settle()
			vrt.Quiesce()
		}
		var err error
		now, err = w.get(devA, rm.Mask{})
		if err != nil {
			fail = fmt.Sprintf("get: after %s: %v", names(first), err)
			return
		}
		s := ss[0]
		if s.done && r.keyField != "" {
			s.closed = true
		}
		if !s.closed {
			seen, f := s.drain()
			if f != "" {
				fail = fmt.Sprintf("stream: %s: %v: %s", names(first), s, f)
				return
			}
			want := now
			if len(seen) == 1 && seen[""] == 1 {
				want = r.seeded(now) // all it got was the initial event
			}
			if !s.view.equal(want) && !s.view.equal(now) {
				fail = fmt.Sprintf("event: %s racing with %v, which ends on {%v}, the register holds {%v}", names(first), s, s.view, now)
				return
			}
			s.base = now
		}
		if f := func() string { _, f := w.step(next, now, ss); return f }(); f != "" {
			fail = f
		}
	})
	if fail != "" {
		return "", fail
	}
	return now.String(), ""
}
