package main

import (
	"fmt"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"google.golang.org/protobuf/proto"
)

// rep repeats a pattern up to n elements.
func rep(w []int, n int) (r []int) {
	for len(r) < n {
		r = append(r, w...)
	}
	return r[:n]
}

// orderings are ways to go through n things.
func orderings(n int) map[string][]int {
	r := map[string][]int{}
	for i := 0; i < n; i++ {
		r["up"] = append(r["up"], i)
		r["down"] = append(r["down"], n-1-i)
		r["middle"] = append(r["middle"], (i+n/2)%n)
		r["twice"] = append(r["twice"], i, i)
		j := i / 2
		if i%2 == 1 {
			j = n - 1 - i/2
		}
		r["ends"] = append(r["ends"], j)
		r["again"] = append(r["again"], i, n-1-i)
	}
	return r
}

var orderNames = []string{"up", "down", "middle", "twice", "ends", "again"}

// many has long histories and large configurations.
func many(s *scenarios) {
	sizes := hl.Pick([]int{5, 9, 17, 40}, []int{5, 8, 9, 16, 17, 33, 65, 130})
	s.enum("many/parent", 8, func(e *hl.E) {
		for _, n := range sizes {
			name := func(i int) trait.Name { return trait.Name(fmt.Sprintf("t%03d", i)) }
			for _, on := range orderNames {
				var l []trait.Name
				for _, i := range orderings(n)[on] {
					l = append(l, name(i))
				}
				for _, init := range []int{0, 1, 2, n} { // every which trait is there already
					in := pref{"x": set{}}
					for i := 0; init > 0 && i < n; i += init {
						in["x"][string(name(i))] = true
					}
					hist := map[string][]pop{
						"all":     {{"add", "x", l}, {"remove", "x", l[:len(l)/2]}, {"add", "x", l}, {"remove", "x", l}},
						"remove":  {{"remove", "x", l}, {"add", "x", l}},
						"parts":   {{"add", "x", l[len(l)/3:]}, {"add", "x", l[:len(l)/2]}, {"remove", "x", l[len(l)/3 : 2*len(l)/3]}},
						"replace": {{"delete", "x", nil}, {"child", "x", l[:1]}, {"add", "x", l}},
					}
					for _, t := range l {
						hist["singly"] = append(hist["singly"], pop{"add", "x", []trait.Name{t}})
						hist["alternately"] = append(hist["alternately"], pop{"add", "x", []trait.Name{t, name(0)}}, pop{"remove", "x", []trait.Name{name(n / 2), t}})
						hist["children"] = append(hist["children"], pop{"add", "c" + string(t), l[:2]}, pop{"remove", "c" + string(t), l[:1]}, pop{"add", "x", []trait.Name{t}})
					}
					for _, t := range l {
						hist["singly"] = append(hist["singly"], pop{"remove", "x", []trait.Name{t}})
						hist["children"] = append(hist["children"], pop{"delete", "c" + string(t), nil})
					}
					for _, hn := range []string{"all", "remove", "parts", "replace", "singly", "alternately", "children"} {
						if !e.Case(func() string { return fmt.Sprintf("%d traits %s from every %d: %s", n, on, init, hn) }, func() (string, string) { return parentSeq(in, hist[hn]) }) {
							return
						}
					}
				}
			}
		}
	})
	s.enum("many/modes", 4, func(e *hl.E) {
		for _, n := range sizes { // n values
			for _, k := range []int{1, 3, 20} { // of k modes
				var ls [][]string
				for i := 0; i < k; i++ {
					l := []string{fmt.Sprint("m", i)}
					for j := 0; j < n+i%3; j++ {
						l = append(l, fmt.Sprint("v", j))
					}
					ls = append(ls, l)
				}
				ms := modeList(ls...)
				last := fmt.Sprint("m", k-1)
				for _, step := range []int32{1, -1, 2, -3, int32(n), int32(-n), int32(n - 1), int32(n + 1), 1000, -1000} {
					var ops []modeOp
					for i := 0; i < 2*n+1; i++ {
						o := modeOp{rel: map[string]int32{"m0": step}}
						if k > 1 && i%2 == 0 {
							o.rel[last] = -step
						}
						if i%7 == 6 {
							o = modeOp{values: map[string]string{last: fmt.Sprint("v", i%n)}, mask: true}
						}
						ops = append(ops, o)
					}
					if !e.Case(func() string { return fmt.Sprintf("%d values of %d modes by %d", n, k, step) }, func() (string, string) { return modeSeq(ms, ops) }) {
						return
					}
				}
			}
		}
	})
	s.enum("many/fan", 4, func(e *hl.E) {
		for _, n := range hl.Pick([]int{5, 9, 17}, sizes) {
			var ps []preset
			for i := 0; i < n; i++ {
				ps = append(ps, preset{Name: fmt.Sprint("p", i), Percentage: float32(2 + i/2 + i)})
			}
			opts := func() []resource.Option { return []resource.Option{fanspeedpb.WithPresets(ps...)} }
			for _, step := range []int32{1, -1, 2, -3, int32(n), int32(-n), int32(n - 1)} {
				for _, start := range []*fanSpeed{{Preset: "p0"}, {PresetIndex: int32(n - 1)}, {Percentage: 50.5}, {Percentage: 1}} {
					mask := []string(nil)
					if start.Preset == "" {
						mask = []string{"preset_index"}
						if start.PresetIndex == 0 {
							mask = []string{"percentage"}
						}
					}
					ops := []fanOp{{fs: start, mask: mask}}
					for i := 0; i < n+2; i++ {
						ops = append(ops, fanOp{fs: &fanSpeed{PresetIndex: step}, mask: []string{"preset_index"}, rel: true, server: true})
						switch i % 5 {
						case 2:
							ops = append(ops, fanOp{fs: &fanSpeed{Percentage: ps[i%n].Percentage}, mask: []string{"percentage"}}, fanOp{reverse: true})
						case 3:
							ops = append(ops, fanOp{fs: &fanSpeed{Percentage: 3}, mask: []string{"percentage"}, rel: true, server: true}, fanOp{fs: &fanSpeed{Preset: ps[i%n].Name}})
						}
					}
					if !e.Case(func() string { return fmt.Sprintf("%d presets by %d from %v", n, step, start) }, func() (string, string) { return fanSeq(ps, opts(), nil, ops) }) {
						return
					}
				}
			}
		}
	})
	s.enum("many/enterleave", 4, func(e *hl.E) {
		events := []*elEvent{{Direction: enter}, {Direction: leave}, {}, {Direction: enter, EnterTotal: proto.Int32(2)}}
		for _, in := range []*elEvent{nil, {EnterTotal: proto.Int32(1 << 20), LeaveTotal: proto.Int32(100), Direction: leave}} {
			for p := 1; p <= 4; p++ {
				words(len(events)+1, p, func(w []int) bool {
					w = rep(w, hl.Pick(60, 300))
					for k := 0; k < 4; k++ {
						if !e.Case(func() string {
							return fmt.Sprintf("from %v %v ... via server=%v fresh=%v", in, w[:p], k&1 == 1, k&2 == 2)
						}, func() (string, string) {
							return elSeq(in, events, w, k&1 == 1, k&2 == 2)
						}) {
							return false
						}
					}
					return true
				})
			}
		}
	})
	s.enum("many/publication", 4, func(e *hl.E) {
		for _, n := range sizes {
			for _, on := range orderNames {
				var ops []pubOp
				for i := 0; i < n; i++ {
					id := fmt.Sprintf("x%03d", i)
					ops = append(ops, pubOp{kind: "create", id: id, p: &pub{Id: id, Body: []byte(id), MediaType: "text", Audience: &aud{Name: "a"}}})
				}
				for k, i := range orderings(n)[on] {
					id := fmt.Sprintf("x%03d", i)
					ops = append(ops,
						pubOp{kind: "update", id: id, p: &pub{Body: []byte(fmt.Sprint(k))}, mask: []string{"body"}, version: "current"},
						pubOp{kind: "ack", id: id, version: "stale", receipt: accepted, allow: true},
						pubOp{kind: "ack", id: id, version: "current", receipt: traits.Publication_Audience_Receipt(1 + k%3), allow: true})
					switch k % 4 {
					case 1:
						ops = append(ops, pubOp{kind: "update", id: id, p: &pub{Body: []byte("same"), Audience: &aud{Name: "a"}}}, pubOp{kind: "update", id: id, p: &pub{Body: []byte("same"), Audience: &aud{Name: "a"}}, version: "stale"})
					case 2:
						ops = append(ops, pubOp{kind: "delete", id: id, version: "stale"}, pubOp{kind: "delete", id: id, version: "current"}, pubOp{kind: "create", id: id, p: &pub{Id: id, Body: []byte("again"), Audience: &aud{Name: "b"}}})
					}
				}
				if !e.Case(func() string { return fmt.Sprintf("%d publications %s", n, on) }, func() (string, string) { return pubSeq(ops, newVersions()) }) {
					return
				}
			}
		}
	})
	s.enum("many/vending", 4, func(e *hl.E) {
		ds := []*qty{q(3, 1), q(4, 0.5), q(5, 2), q(1, 1), q(3, 0)}
		for _, st := range []*stock{
			{Consumable: "c", Used: q(3, 0), Remaining: q(3, 5)},
			{Consumable: "c", Used: q(3, 0), Remaining: q(3, 30000)},
			{Consumable: "c", Used: q(5, 1)},
		} {
			for p := 1; p <= 3; p++ {
				words(len(ds), p, func(w []int) bool {
					l := pick(ds, rep(w, hl.Pick(50, 200)))
					return e.Case(func() string { return fmt.Sprintf("%v dispense %v ...", st, w) }, func() (string, string) { return dispenseSeq(st, l, false) })
				})
			}
		}
	})
	s.enum("many/meter", 4, func(e *hl.E) {
		for p := 1; p <= hl.Pick(3, 4); p++ {
			words(6, p, func(w []int) bool {
				l := rep(w, hl.Pick(40, 150))
				return e.Case(func() string { return fmt.Sprintf("%v ...", w) }, func() (string, string) { return meterSeq(nil, l) })
			})
		}
	})
}
