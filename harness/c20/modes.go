package main

import (
	"context"
	"fmt"
	"math"
	"sort"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type modeOp struct {
	values map[string]string // nil for none
	rel    map[string]int32
	mask   bool
}

func (o modeOp) String() string {
	return fmt.Sprintf("{set %v step %v mask=%v}", o.values, o.rel, o.mask)
}

func modeList(l ...[]string) *traits.Modes {
	m := &traits.Modes{}
	for _, x := range l {
		mode := &traits.Modes_Mode{Name: x[0]}
		for _, v := range x[1:] {
			mode.Values = append(mode.Values, &traits.Modes_Value{Name: v})
		}
		m.Modes = append(m.Modes, mode)
	}
	return m
}

func modeVals(m *traits.Modes, name string) (r []string) {
	for _, x := range m.Modes {
		if x.Name == name {
			for _, v := range x.Values {
				r = append(r, v.Name)
			}
		}
	}
	return
}

// modeAllowed reports what is wrong about new as a result of o on old.
func modeAllowed(ms *traits.Modes, old map[string]string, o modeOp, now map[string]string) string {
	all := set{}
	for k := range old {
		all[k] = true
	}
	for k := range now {
		all[k] = true
	}
	for k := range o.values {
		all[k] = true
	}
	for k := range o.rel {
		all[k] = true
	}
	for _, k := range sortedSet(all) {
		got, has := now[k]
		vals := modeVals(ms, k)
		adj, stepped := o.rel[k]
		given, explicit := o.values[k]
		ov, had := old[k]
		if stepped && len(vals) > 0 && (adj != 0 || !explicit) {
			want := vals[0]
			for i, v := range vals {
				if had && v == ov {
					n := int64(len(vals))
					want = vals[((int64(i)+int64(adj))%n+n)%n]
					break
				}
			}
			if got != want && !(adj == 0 && has == had && got == ov) {
				return fmt.Sprintf("%q stepped by %d from %q is %q, want %q", k, adj, ov, got, want)
			}
			continue
		}
		if explicit {
			if got != given {
				return fmt.Sprintf("%q was set to %q but is %q", k, given, got)
			}
			continue
		}
		if had {
			if has && got != ov {
				return fmt.Sprintf("%q became %q from %q although not mentioned", k, got, ov)
			}
			if !has && o.values == nil {
				return fmt.Sprintf("%q was lost although not mentioned", k)
			}
			continue
		}
		if has {
			return fmt.Sprintf("%q = %q appeared", k, got)
		}
	}
	return ""
}

func modeSeq(ms *traits.Modes, ops []modeOp) (string, string) {
	given := proto.Clone(ms).(*traits.Modes)
	m := modepb.NewModelModes(given)
	return modeRun(m, ms, ops)
}

func modeReq(o modeOp) *traits.UpdateModeValuesRequest {
	req := &traits.UpdateModeValuesRequest{Name: "n"}
	if o.values != nil {
		req.ModeValues = &traits.ModeValues{Values: map[string]string{}}
		for k, v := range o.values {
			req.ModeValues.Values[k] = v
		}
	}
	if o.rel != nil {
		req.Relative = &traits.ModeValuesRelative{Values: map[string]int32{}}
		for k, v := range o.rel {
			req.Relative.Values[k] = v
		}
	}
	if o.mask {
		req.UpdateMask = &fieldmaskpb.FieldMask{Paths: []string{"values"}}
	}
	return req
}

func modeRun(m *modepb.Model, ms *traits.Modes, ops []modeOp) (string, string) {
	srv := modepb.NewModelServer(m)
	if !proto.Equal(m.Modes(), ms) {
		return "", fmt.Sprintf("mode-config: configured with %v, has %v", ms, m.Modes())
	}
	cur := m.ModeValues().GetValues()
	for _, x := range ms.Modes {
		av := m.AvailableValues(x.Name)
		if len(av) != len(x.Values) {
			return "", fmt.Sprintf("mode-config: %q has %v, configured %v", x.Name, av, x.Values)
		}
		for i := range av {
			if !proto.Equal(av[i], x.Values[i]) {
				return "", fmt.Sprintf("mode-config: %q has %v, configured %v", x.Name, av, x.Values)
			}
		}
		if len(x.Values) > 0 && cur[x.Name] != x.Values[0].Name {
			return "", fmt.Sprintf("mode-initial: %q starts as %q of %v", x.Name, cur[x.Name], x.Values)
		}
	}
	for k := range cur {
		if len(modeVals(ms, k)) == 0 {
			return "", fmt.Sprintf("mode-initial: starts as %v with %v", cur, ms)
		}
	}
	for i, o := range ops {
		got, err := srv.UpdateModeValues(context.Background(), modeReq(o))
		hl.Step(1)
		now := m.ModeValues()
		if err != nil || !proto.Equal(got, now) {
			return "", fmt.Sprintf("mode: step %d %v on %v: %v, %v; now %v", i, o, cur, got, err, now)
		}
		if why := modeAllowed(ms, cur, o, now.Values); why != "" {
			return "", fmt.Sprintf("mode: step %d %v on %v gave %v: %s", i, o, cur, now.Values, why)
		}
		cur = now.Values
	}
	return fmt.Sprint(sortedMap(cur)), ""
}

func sortedMap(m map[string]string) (r []string) {
	for k, v := range m {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return
}

func modes(s *scenarios) {
	lists := []*traits.Modes{
		modepb.DefaultModes,
		modeList([]string{"m", "a", "b", "c"}, []string{"n", "x", "y"}),
		modeList([]string{"m", "a"}),
		modeList([]string{"m", "a", "b", "c", "d", "e"}, []string{"empty"}),
		modeList([]string{"temperature", "hot", "cold"}, []string{"q", "p"}),
		modeList(),
	}
	for li, ms := range lists {
		first, second := "m", "n"
		if len(ms.Modes) > 0 {
			first = ms.Modes[0].Name
		}
		if len(ms.Modes) > 1 {
			second = ms.Modes[1].Name
		}
		last := append([]string{"v"}, modeVals(ms, first)...)
		lv := last[len(last)-1]
		ops := []modeOp{
			{values: map[string]string{first: lv}},
			{values: map[string]string{first: "unknown"}},
			{values: map[string]string{first: lv}, mask: true},
			{values: map[string]string{first: lv, second: "z"}},
			{rel: map[string]int32{first: 1}},
			{rel: map[string]int32{first: -1}},
			{rel: map[string]int32{first: 1}, mask: true},
			{rel: map[string]int32{first: 0}},
			{rel: map[string]int32{first: 2, second: -1}},
			{rel: map[string]int32{first: -4, second: 3}},
			{rel: map[string]int32{second: 1}},
			{rel: map[string]int32{"nosuch": 1}},
			{rel: map[string]int32{first: math.MaxInt32}},
			{rel: map[string]int32{first: math.MinInt32}},
			{values: map[string]string{first: lv}, rel: map[string]int32{first: 0}},
			{values: map[string]string{first: lv}, rel: map[string]int32{first: 1}},
			{values: map[string]string{second: "z"}, rel: map[string]int32{first: 1}},
			{values: map[string]string{}, rel: map[string]int32{first: -2}},
		}
		s.enum(fmt.Sprintf("mode/%d", li), 4, func(e *hl.E) {
			words(len(ops), hl.Pick(3, 4), func(w []int) bool {
				p := pick(ops, w)
				return e.Case(func() string { return fmt.Sprint(ms, p) }, func() (string, string) { return modeSeq(ms, p) })
			})
		})
		s.enum(fmt.Sprintf("mode/%d/steps", li), 1, func(e *hl.E) {
			for a := int32(-12); a <= 12; a++ {
				for b := int32(-12); b <= 12; b++ {
					for _, x := range []int32{0, math.MaxInt32 - 3, math.MinInt32 + 3} {
						p := []modeOp{{rel: map[string]int32{first: a}}, {rel: map[string]int32{first: b, second: a}}, {rel: map[string]int32{first: x, second: x}}}
						if !e.Case(func() string { return fmt.Sprint(ms, p) }, func() (string, string) { return modeSeq(ms, p) }) {
							return
						}
					}
				}
			}
		})
	}
	s.enum("mode/default", 1, func(e *hl.E) {
		e.Case(func() string { return "NewModel" }, func() (string, string) { return modeRun(modepb.NewModel(), modepb.DefaultModes, nil) })
	})
	race := func(ops ...modeOp) vrt.Body {
		return func() (string, string) {
			ms := lists[1]
			m := modepb.NewModelModes(ms)
			srv := modepb.NewModelServer(m)
			steps := map[string]int{}
			var bad error
			var fs []func()
			for _, o := range ops {
				fs = append(fs, func() {
					_, err := srv.UpdateModeValues(context.Background(), modeReq(o))
					if err == nil {
						for k, v := range o.rel {
							steps[k] += int(v)
						}
					} else if !lost(err) {
						bad = err
					}
				})
			}
			par(fs...)
			if bad != nil {
				return "", "mode-race: " + bad.Error()
			}
			now := m.ModeValues().Values
			for _, k := range []string{"m", "n"} {
				vals := modeVals(ms, k)
				n := len(vals)
				if want := vals[(steps[k]%n+n)%n]; now[k] != want {
					return "", fmt.Sprintf("mode-race: %v ended as %v, want %q for %q", ops, now, want, k)
				}
			}
			return fmt.Sprint(sortedMap(now)), ""
		}
	}
	a, b, c := modeOp{rel: map[string]int32{"m": 1}}, modeOp{rel: map[string]int32{"m": -2, "n": 1}}, modeOp{rel: map[string]int32{"n": 1}}
	s.conc("mode/race/same", 3, 5, race(a, a))
	s.conc("mode/race/two", 3, 5, race(a, b))
	s.conc("mode/race/other", 3, 5, race(a, c))
	s.conc("mode/race/three", 1, 2, race(a, b, c))
}
