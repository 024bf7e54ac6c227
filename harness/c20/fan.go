package main

import (
	"context"
	"fmt"
	"math"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type (
	fanSpeed = traits.FanSpeed
	preset   = fanspeedpb.Preset
)

// fanOp is one request.
type fanOp struct {
	fs      *fanSpeed
	mask    []string // nil for none
	rel     bool
	server  bool
	reverse bool
}

func (o fanOp) String() string {
	if o.reverse {
		return "reverse"
	}
	return fmt.Sprintf("{%v mask=%q relative=%v server=%v}", o.fs, o.mask, o.rel, o.server)
}

func (o fanOp) has(p string) bool {
	if o.mask == nil {
		return true
	}
	for _, m := range o.mask {
		if m == p {
			return true
		}
	}
	return false
}

// fanConsistent reports what is inconsistent between the parts of v.
func fanConsistent(ps []preset, v *fanSpeed) string {
	if v.Preset == "" {
		if v.PresetIndex != -1 && !(v.PresetIndex == 0 && len(ps) == 0) {
			return fmt.Sprintf("no preset but index %d", v.PresetIndex)
		}
		for _, p := range ps {
			if p.Percentage == v.Percentage {
				return fmt.Sprintf("no preset, but %v is that of %q", v.Percentage, p.Name)
			}
		}
		return ""
	}
	i := int(v.PresetIndex)
	if i < 0 || i >= len(ps) {
		return fmt.Sprintf("preset %q with index %d", v.Preset, i)
	}
	if ps[i].Name != v.Preset {
		return fmt.Sprintf("preset %q with the index of %q", v.Preset, ps[i].Name)
	}
	if ps[i].Percentage != v.Percentage {
		return fmt.Sprintf("preset %q at %v", v.Preset, v.Percentage)
	}
	return ""
}

func clamp(i, n int64) int64 { return max(0, min(i, n-1)) }

// fanAllowed returns whether v is a proper result of o on old (err == nil).
func fanAllowed(ps []preset, old *fanSpeed, o fanOp, v *fanSpeed) string {
	dir := old.Direction
	if o.has("direction") {
		dir = o.fs.GetDirection()
	}
	if v.Direction != dir {
		return fmt.Sprintf("the direction is %v, want %v", v.Direction, dir)
	}
	isPreset := func(i int64) bool {
		return int64(v.PresetIndex) == i && v.Preset == ps[i].Name && v.Percentage == ps[i].Percentage
	}
	unchanged := v.Percentage == old.Percentage && v.Preset == old.Preset && v.PresetIndex == old.PresetIndex
	if o.has("preset") && o.fs.Preset != "" {
		// the first and most specific
		if v.Preset != o.fs.Preset {
			return "the preset is not the one asked for"
		}
		return ""
	}
	pct := o.fs.Percentage
	if o.rel {
		pct += old.Percentage
	}
	pctOK := v.Percentage == pct || v.Percentage == float32(math.Max(0, math.Min(100, float64(pct))))
	n := int64(len(ps))
	idx := o.has("preset_index")
	if o.rel {
		if idx && o.fs.PresetIndex != 0 && n > 0 {
			if int64(v.PresetIndex) != clamp(int64(old.PresetIndex)+int64(o.fs.PresetIndex), n) {
				return "the index was not adjusted by the given number of steps"
			}
			return ""
		}
		if o.has("percentage") {
			if !pctOK {
				return "the percentage was not adjusted by the given amount"
			}
			return ""
		}
		if !unchanged {
			return "nothing was asked for, but the speed changed"
		}
		return ""
	}
	if idx && n > 0 {
		if isPreset(clamp(int64(o.fs.PresetIndex), n)) && (o.mask != nil || o.fs.PresetIndex != 0 || o.fs.Percentage == 0) {
			return "" // as asked
		}
		given := o.fs.PresetIndex != 0 || o.mask != nil
		// an index repeating the current one does not outrank a percentage; a negative index may mean none
		if given && o.fs.PresetIndex != old.PresetIndex && o.fs.PresetIndex >= 0 {
			return "the index is not the one asked for"
		}
	}
	if o.has("percentage") {
		if pctOK {
			return ""
		}
		if o.fs.Percentage == 0 && o.mask == nil && unchanged && (o.fs.PresetIndex == 0 || n == 0) {
			return "" // nothing about speed was given
		}
		return "the percentage is not the one asked for"
	}
	if !unchanged {
		return "nothing was asked for, but the speed changed"
	}
	return ""
}

func runFan(m *fanspeedpb.Model, srv *fanspeedpb.ModelServer, o fanOp) (*fanSpeed, error) {
	if o.reverse {
		return srv.ReverseFanSpeedDirection(context.Background(), &traits.ReverseFanSpeedDirectionRequest{Name: "n"})
	}
	var mask *fieldmaskpb.FieldMask
	if o.mask != nil {
		mask = &fieldmaskpb.FieldMask{Paths: o.mask}
	}
	fs := proto.Clone(o.fs).(*fanSpeed)
	if o.server {
		return srv.UpdateFanSpeed(context.Background(), &traits.UpdateFanSpeedRequest{Name: "n", FanSpeed: fs, UpdateMask: mask, Relative: o.rel})
	}
	var opts []resource.WriteOption
	if mask != nil {
		opts = append(opts, resource.WithUpdateMask(mask))
	}
	return m.UpdateFanSpeed(fs, opts...)
}

func fanSeq(ps []preset, opts []resource.Option, init *fanSpeed, ops []fanOp) (string, string) {
	m := fanspeedpb.NewModel(opts...)
	srv := fanspeedpb.NewModelServer(m)
	cur := m.FanSpeed()
	if why := fanConsistent(ps, cur); why != "" {
		return "", fmt.Sprintf("fan-initial: starts as %v: %s", cur, why)
	}
	if init != nil {
		bad := init.Direction != cur.Direction
		if init.Preset != "" {
			bad = bad || init.Preset != cur.Preset
		} else if init.PresetIndex > 0 {
			bad = bad || init.PresetIndex != cur.PresetIndex
		} else {
			bad = bad || init.Percentage != cur.Percentage
		}
		if bad {
			return "", fmt.Sprintf("fan-initial: configured with %v, starts as %v", init, cur)
		}
	}
	for i, o := range ops {
		got, err := runFan(m, srv, o)
		hl.Step(1)
		now := m.FanSpeed()
		fail := func(why string) (string, string) {
			return "", fmt.Sprintf("fan: step %d %v on %v gave %v, %v (now %v): %s", i, o, cur, got, err, now, why)
		}
		if err != nil {
			known := o.reverse || o.fs.Preset == ""
			for _, p := range ps {
				known = known || p.Name == o.fs.Preset
			}
			if known {
				return fail("a proper request was refused")
			}
			if !proto.Equal(cur, now) {
				return fail("an error changed the fan speed")
			}
			continue
		}
		if !proto.Equal(got, now) {
			return fail("the result is not the new fan speed")
		}
		if why := fanConsistent(ps, now); why != "" {
			return fail(why)
		}
		if o.reverse {
			w := proto.Clone(cur).(*fanSpeed)
			switch cur.Direction {
			case traits.FanSpeed_FORWARD:
				w.Direction = traits.FanSpeed_BACKWARD
			case traits.FanSpeed_BACKWARD:
				w.Direction = traits.FanSpeed_FORWARD
			default:
				w.Direction = now.Direction
			}
			if !proto.Equal(w, now) {
				return fail("not the reverse")
			}
		} else if why := fanAllowed(ps, cur, o, now); why != "" {
			return fail(why)
		}
		cur = now
	}
	return fmt.Sprint(cur), ""
}

func fan(s *scenarios) {
	custom := []preset{{Name: "a", Percentage: 20}, {Name: "b", Percentage: 50}, {Name: "c", Percentage: 80}}
	type config struct {
		name string
		ps   []preset
		opts []resource.Option
		init *fanSpeed
	}
	configs := []config{
		{"default", fanspeedpb.DefaultPresets, nil, nil},
		{"custom", custom, []resource.Option{fanspeedpb.WithPresets(custom...)}, nil},
		{"one", custom[:1], []resource.Option{fanspeedpb.WithPresets(custom[:1]...)}, nil},
		{"none", nil, []resource.Option{fanspeedpb.WithPresets()}, nil},
	}
	for _, c := range configs {
		ops := []fanOp{{reverse: true}}
		names := []string{"", "nosuch"}
		for _, p := range c.ps {
			names = append(names, p.Name)
		}
		// single fields, each by model and server, without and with a mask
		for _, server := range []bool{false, true} {
			for _, n := range names {
				ops = append(ops, fanOp{fs: &fanSpeed{Preset: n}, server: server}, fanOp{fs: &fanSpeed{Preset: n}, mask: []string{"preset"}, server: server})
			}
			for _, i := range []int32{-1, 0, 1, 2, 9, math.MaxInt32, math.MinInt32} {
				ops = append(ops, fanOp{fs: &fanSpeed{PresetIndex: i}, server: server}, fanOp{fs: &fanSpeed{PresetIndex: i}, mask: []string{"preset_index"}, server: server})
				if server {
					ops = append(ops, fanOp{fs: &fanSpeed{PresetIndex: i}, server: true, rel: true}, fanOp{fs: &fanSpeed{PresetIndex: i}, mask: []string{"preset_index"}, server: true, rel: true})
				}
			}
			for _, p := range []float32{0, 20, 40, 33, 100} {
				ops = append(ops, fanOp{fs: &fanSpeed{Percentage: p}, server: server}, fanOp{fs: &fanSpeed{Percentage: p}, mask: []string{"percentage"}, server: server})
				if server {
					ops = append(ops, fanOp{fs: &fanSpeed{Percentage: p}, server: true, rel: true}, fanOp{fs: &fanSpeed{Percentage: -p}, mask: []string{"percentage"}, server: true, rel: true})
				}
			}
			for _, d := range []traits.FanSpeed_Direction{1, 2} {
				ops = append(ops, fanOp{fs: &fanSpeed{Direction: d}, server: server}, fanOp{fs: &fanSpeed{Direction: d}, mask: []string{"direction"}, server: server})
			}
		}
		// combinations of fields and masks
		var combos []fanOp
		for _, n := range append(names, "") {
			for _, i := range []int32{-1, 0, 1, 2, 9} {
				for _, p := range []float32{0, 20, 33, 40} {
					for bits := -1; bits < 16; bits++ {
						var mask []string
						for k, f := range []string{"percentage", "preset", "preset_index", "direction"} {
							if bits >= 0 && bits>>k&1 == 1 {
								mask = append(mask, f)
							}
						}
						if bits == 0 {
							continue
						}
						fs := &fanSpeed{Preset: n, PresetIndex: i, Percentage: p, Direction: 2}
						combos = append(combos, fanOp{fs: fs, mask: mask, server: true}, fanOp{fs: fs, mask: mask})
						if n == "" {
							combos = append(combos, fanOp{fs: fs, mask: mask, server: true, rel: true})
						}
					}
				}
			}
		}
		s.enum("fan/"+c.name+"/pairs", 4, func(e *hl.E) {
			n := 2
			if c.name == "custom" && hl.Thorough() {
				n = 3
			}
			words(len(ops), n, func(w []int) bool {
				p := pick(ops, w)
				return e.Case(func() string { return fmt.Sprint(p) }, func() (string, string) { return fanSeq(c.ps, c.opts, c.init, p) })
			})
		})
		s.enum("fan/"+c.name+"/fields", 4, func(e *hl.E) {
			froms := []*fanSpeed{{Percentage: 20, Direction: 1}, {Percentage: 33, Direction: 1}, {Percentage: 15}, {Percentage: 50}, {Percentage: 100}, {Percentage: 0}}
			for _, f := range froms {
				for _, o := range combos {
					if !e.Case(func() string { return fmt.Sprint(f, o) }, func() (string, string) {
						return fanSeq(c.ps, c.opts, nil, []fanOp{{fs: f}, o, {reverse: true}})
					}) {
						return
					}
				}
			}
		})
		s.enum("fan/"+c.name+"/initial", 1, func(e *hl.E) {
			for _, n := range names {
				if n == "nosuch" {
					continue
				}
				for i := int32(-1); i < int32(max(1, len(c.ps))); i++ {
					for _, p := range []float32{0, 20, 33, 40, 100} {
						for d := traits.FanSpeed_Direction(0); d <= 2; d++ {
							in := &fanSpeed{Preset: n, PresetIndex: i, Percentage: p, Direction: d}
							// only unambiguous configurations
							if n != "" && (i > 0 || p != 0) || i != 0 && p != 0 && !(i == -1 && n == "") || i == -1 && n != "" {
								continue
							}
							for order := 0; order < 2; order++ {
								opts := append([]resource.Option{fanspeedpb.WithInitialFanSpeed(proto.Clone(in).(*fanSpeed))}, c.opts...)
								if order == 1 {
									opts = append(append([]resource.Option{}, c.opts...), fanspeedpb.WithInitialFanSpeed(proto.Clone(in).(*fanSpeed)))
								}
								if !e.Case(func() string { return fmt.Sprint(in, order) }, func() (string, string) {
									return fanSeq(c.ps, opts, in, []fanOp{{reverse: true}})
								}) {
									return
								}
							}
						}
					}
				}
			}
		})
	}
	s.enum("fan/derive", 1, func(e *hl.E) {
		// the exported derivation, for one changed part
		for _, ps := range [][]preset{fanspeedpb.DefaultPresets, custom} {
			m := fanspeedpb.NewModel(fanspeedpb.WithPresets(ps...))
			var olds, news []*fanSpeed
			for i, p := range ps {
				olds = append(olds, &fanSpeed{Preset: p.Name, PresetIndex: int32(i), Percentage: p.Percentage})
			}
			olds = append(olds, &fanSpeed{PresetIndex: -1, Percentage: 33})
			for _, o := range olds {
				add := func(f func(n *fanSpeed)) {
					n := proto.Clone(o).(*fanSpeed)
					f(n)
					news = append(news, o, n)
				}
				add(func(n *fanSpeed) {})
				for _, p := range ps {
					add(func(n *fanSpeed) { n.Preset = p.Name })
					add(func(n *fanSpeed) { n.Percentage = p.Percentage })
				}
				for _, i := range []int32{0, 1, 2, 3, 9, -5} {
					add(func(n *fanSpeed) { n.PresetIndex = i })
				}
				for _, x := range []float32{0, 33, 34, 100} {
					add(func(n *fanSpeed) { n.Percentage = x })
				}
			}
			for k := 0; k < len(news); k += 2 {
				old, in := news[k], news[k+1]
				if !e.Case(func() string { return fmt.Sprint(old, in) }, func() (string, string) {
					hl.Step(1)
					out := proto.Clone(in).(*fanSpeed)
					m.DeriveValues(old, out)
					if why := fanConsistent(ps, out); why != "" {
						return "", fmt.Sprintf("fan-derive: %v then %v gives %v: %s", old, in, out, why)
					}
					ok := true
					switch {
					case in.Preset != old.Preset:
						ok = out.Preset == in.Preset
					case in.PresetIndex != old.PresetIndex:
						ok = int64(out.PresetIndex) == clamp(int64(in.PresetIndex), int64(len(ps)))
					default:
						ok = out.Percentage == in.Percentage
					}
					if !ok {
						return "", fmt.Sprintf("fan-derive: %v then %v gives %v", old, in, out)
					}
					return fmt.Sprint(out), ""
				}) {
					return
				}
			}
		}
	})
	race := func(ops ...fanOp) vrt.Body {
		return func() (string, string) {
			m := fanspeedpb.NewModel(fanspeedpb.WithPresets(custom...), fanspeedpb.WithInitialFanSpeed(&fanSpeed{Preset: "b", PresetIndex: 1, Percentage: 50, Direction: 1}))
			srv := fanspeedpb.NewModelServer(m)
			start := m.FanSpeed()
			oks := make([]bool, len(ops))
			var fs []func()
			var bad error
			for i, o := range ops {
				fs = append(fs, func() {
					_, err := runFan(m, srv, o)
					oks[i] = err == nil
					if err != nil && !lost(err) {
						bad = err
					}
				})
			}
			par(fs...)
			now := m.FanSpeed()
			if bad != nil {
				return "", "fan-race: " + bad.Error()
			}
			if why := fanConsistent(custom, now); why != "" {
				return "", fmt.Sprintf("fan-race: %v from %v ended as %v: %s", ops, start, now, why)
			}
			// some order of the successful ones explains the result
			var todo []int
			for i := range ops {
				if oks[i] {
					todo = append(todo, i)
				}
			}
			if !orders(todo, func(p []int) bool {
				r := fanspeedpb.NewModel(fanspeedpb.WithPresets(custom...), fanspeedpb.WithInitialFanSpeed(start))
				rs := fanspeedpb.NewModelServer(r)
				for _, i := range p {
					runFan(r, rs, ops[i])
				}
				return proto.Equal(r.FanSpeed(), now)
			}) {
				return "", fmt.Sprintf("fan-race: %v from %v (done: %v) ended as %v", ops, start, oks, now)
			}
			return fmt.Sprint(now), ""
		}
	}
	up := fanOp{fs: &fanSpeed{PresetIndex: 1}, server: true, rel: true}
	down := fanOp{fs: &fanSpeed{PresetIndex: -1}, server: true, rel: true, mask: []string{"preset_index"}}
	pct := fanOp{fs: &fanSpeed{Percentage: 5}, server: true, rel: true, mask: []string{"percentage"}}
	set := fanOp{fs: &fanSpeed{Preset: "a"}, mask: []string{"preset"}}
	rev := fanOp{reverse: true}
	all := []fanOp{up, down, pct, set, rev}
	for i, a := range all {
		for j, b := range all[:i+1] {
			s.conc(fmt.Sprintf("fan/race/%d-%d", i, j), 2, 3, race(a, b))
		}
	}
}

// orders reports whether f holds of some permutation of l.
func orders(l []int, f func([]int) bool) bool {
	var rec func(p, rest []int) bool
	rec = func(p, rest []int) bool {
		if len(rest) == 0 {
			return f(p)
		}
		for i := range rest {
			r := append(append([]int{}, rest[:i]...), rest[i+1:]...)
			if rec(append(append([]int{}, p...), rest[i]), r) {
				return true
			}
		}
		return false
	}
	return rec(nil, l)
}
