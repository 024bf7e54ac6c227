package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// equiv is one way to configure equivalence, with values to write.
type equiv struct {
	name string
	opt  resource.Option // nil for none
	same func(x, y proto.Message) bool
	vals []proto.Message
}

func byRule(r rule) func(x, y proto.Message) bool {
	return func(x, y proto.Message) bool { return refMsg(x.ProtoReflect(), y.ProtoReflect(), r) }
}

func equivs() []equiv {
	f := func(d float64, s string) proto.Message { return &all{DefaultDouble: d, DefaultString: s} }
	w := func(t, d time.Duration, s string) proto.Message {
		m := &all{DefaultString: s, RepeatedWellKnown: nil}
		m.DefaultWellKnown = wk(t, d)
		return m
	}
	ms := time.Millisecond
	exact := []proto.Message{f(1, ""), f(1, "s"), f(2, ""), f(2, "s")}
	return []equiv{
		{"duplicates", resource.WithNoDuplicates(), byRule(rule{}), exact},
		{"float", resource.WithMessageEquivalence(cmp.Equal(cmp.FloatValueApprox(0, 0.0625))), byRule(rule{float: true, margin: 0.0625}),
			[]proto.Message{f(1, ""), f(1.05, ""), f(1.1, ""), f(1.15, ""), f(1.05, "s"), f(0, ""), f(0.05, "")}},
		{"fraction", resource.WithMessageEquivalence(cmp.Equal(cmp.FloatValueApprox(0.25, 0))), byRule(rule{float: true, fraction: 0.25}),
			[]proto.Message{f(8, ""), f(10, ""), f(12, ""), f(8, "s"), f(6.5, "")}},
		{"time", resource.WithMessageEquivalence(cmp.Equal(cmp.ValueOr(cmp.TimeValueWithin(time.Second), cmp.DurationValueWithin(time.Second)))), byRule(rule{tm: true, tmD: time.Second, dur: true, durD: time.Second}),
			[]proto.Message{w(0, 0, ""), w(600*ms, 0, ""), w(1200*ms, 0, ""), w(0, 600*ms, ""), w(600*ms, 1200*ms, ""), w(0, 0, "s")}},
		{"custom", resource.WithEquivalence(resource.ComparerFunc(func(x, y proto.Message) bool {
			a, ok := x.(*all)
			b, ok2 := y.(*all)
			return ok && ok2 && a.DefaultString == b.DefaultString
		})), func(x, y proto.Message) bool { return x.(*all).DefaultString == y.(*all).DefaultString }, exact},
		{"and", resource.WithMessageEquivalence(cmp.And(cmp.Equal(cmp.FloatValueApprox(0, 1)), cmp.Equal(cmp.FloatValueApprox(0, 0.0625)))), byRule(rule{float: true, margin: 0.0625}),
			[]proto.Message{f(1, ""), f(1.05, ""), f(1.5, ""), f(1, "s")}},
		{"or", resource.WithMessageEquivalence(cmp.Or(cmp.Equal(), cmp.Equal(cmp.FloatValueApprox(0, 0.0625)))), byRule(rule{float: true, margin: 0.0625}),
			[]proto.Message{f(1, ""), f(1.05, ""), f(1.1, ""), f(1, "s")}},
		{"none", nil, func(x, y proto.Message) bool { return false }, exact},
	}
}

var smasks = []rm.Mask{{}, rm.MaskOf("default_double", "default_well_known"), rm.MaskOf("default_string")}

func project(m proto.Message, k rm.Mask) proto.Message {
	if m == nil || !k.Set {
		return m
	}
	return rm.Project(m, rm.MaskTree(k.Paths))
}

// seqs enumerates all sequences of n of k numbers.
func seqs(k, n int, f func(s []int) bool) bool {
	s := make([]int, n)
	for {
		if !f(s) {
			return false
		}
		i := n - 1
		for ; i >= 0; i-- {
			if s[i]++; s[i] < k {
				break
			}
			s[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

// held is what a subscriber holds for one item.
type held struct {
	known bool          // as opposed to: no value was received yet, the item had value msg when it subscribed
	msg   proto.Message // nil for nothing
	since proto.Message // of an unknown one, the item's previous value
}

// next says whether a change to now has to be delivered, whether it may be, and what
// is held if it is not.
func (h held) next(q equiv, now proto.Message) (must, may bool) {
	switch {
	case h.msg == nil && now == nil:
		return false, !h.known
	case h.msg == nil || now == nil:
		return true, true
	case !q.same(h.msg, now):
		return true, true
	case !h.known:
		// nothing was received so far
		return false, true
	}
	return false, false
}

func judge(q equiv, h *held, now proto.Message, got []proto.Message, what string) string {
	must, may := h.next(q, now)
	switch {
	case len(got) > 1:
		return fmt.Sprintf("stream-many: %s: %d changes for one write", what, len(got))
	case len(got) == 1 && !may:
		return fmt.Sprintf("stream-equivalent: %s: received %s holding %s", what, rm.Text(got[0]), rm.Text(h.msg))
	case len(got) == 0 && must:
		return fmt.Sprintf("stream-suppressed: %s: %s was not delivered to a subscriber holding %s", what, rm.Text(now), rm.Text(h.msg))
	case len(got) == 1:
		if (got[0] == nil) != (now == nil) || now != nil && !proto.Equal(got[0], now) {
			return fmt.Sprintf("stream-value: %s: received %s, want %s", what, rm.Text(got[0]), rm.Text(now))
		}
		*h = held{known: true, msg: now}
	}
	return ""
}

func news(evs []rm.Ev, id string) (r []proto.Message) {
	for _, e := range evs {
		if id == "" || e.ID == id {
			r = append(r, e.New)
		}
	}
	return
}

type sub struct {
	updatesOnly bool
	mask        rm.Mask
	sink        *rm.Sink
	n           int
	held        map[string]*held
}

func (s *sub) opts() []resource.ReadOption {
	r := []resource.ReadOption{resource.WithUpdatesOnly(s.updatesOnly), resource.WithBackpressure(true)}
	if s.mask.Set {
		r = append(r, resource.WithReadMask(s.mask.PB()))
	}
	return r
}

func (s *sub) String() string { return fmt.Sprintf("updatesOnly=%v mask=%v", s.updatesOnly, s.mask) }

func (s *sub) take() []rm.Ev {
	r := s.sink.Evs[s.n:]
	s.n = len(s.sink.Evs)
	return r
}

// subs are subscriptions of every kind.
func subs() (r []*sub) {
	for _, u := range []bool{false, true} {
		for _, k := range smasks {
			r = append(r, &sub{updatesOnly: u, mask: k, held: map[string]*held{}})
		}
	}
	return
}

// valueSeq writes values and observes every kind of subscription.
func valueSeq(q equiv, init proto.Message, seq []int) (string, string) {
	return hl.Single(func() (string, string) {
		var opts []resource.Option
		if q.opt != nil {
			opts = append(opts, q.opt)
		}
		if init != nil {
			opts = append(opts, resource.WithInitialValue(proto.Clone(init)))
		}
		v := resource.NewValue(opts...)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		open := func(cur proto.Message) ([]*sub, string) {
			ss := subs()
			for _, s := range ss {
				s.sink = rm.CollectV(v.Pull(ctx, s.opts()...))
				s.held[""] = &held{known: !s.updatesOnly || cur == nil, msg: project(cur, s.mask)}
			}
			vrt.Quiesce()
			for _, s := range ss {
				got := s.take()
				if s.updatesOnly || cur == nil {
					if len(got) != 0 {
						return nil, fmt.Sprintf("stream-seed: %v: %s", s, rm.Evs(got))
					}
				} else if len(got) != 1 || !proto.Equal(got[0].New, project(cur, s.mask)) {
					return nil, fmt.Sprintf("stream-seed: %v: %s", s, rm.Evs(got))
				}
			}
			return ss, ""
		}
		all, f := open(init)
		if f != "" {
			return "", f
		}
		var out strings.Builder
		for i, x := range seq {
			if _, err := v.Set(proto.Clone(q.vals[x])); err != nil {
				return "", "set: " + err.Error()
			}
			vrt.Quiesce()
			hl.Step(1)
			for _, s := range all {
				got := s.take()
				if f := judge(q, s.held[""], project(q.vals[x], s.mask), news(got, ""), fmt.Sprintf("write %d of %v, %v", i, seq, s)); f != "" {
					return "", f
				}
				fmt.Fprint(&out, len(got))
			}
			if i == 1 {
				// a later subscription
				late, f := open(q.vals[x])
				if f != "" {
					return "", f
				}
				all = append(all, late...)
			}
		}
		return out.String(), ""
	})
}

// collSeq does the same with a collection: operations on one or two items.
func collSeq(q equiv, include bool, seq []int) (string, string) {
	return hl.Single(func() (string, string) {
		init := map[string]proto.Message{"a": q.vals[0]}
		var opts []resource.Option
		if q.opt != nil {
			opts = append(opts, q.opt)
		}
		opts = append(opts, resource.WithInitialRecord("a", proto.Clone(q.vals[0])))
		c := resource.NewCollection(opts...)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		in := func(m proto.Message) proto.Message {
			if m == nil || include && m.(*all).DefaultString == "s" {
				return nil
			}
			return m
		}
		items := map[string]proto.Message{}
		for k, v := range init {
			items[k] = v
		}
		type idSub struct {
			*sub
			closed bool
		}
		open := func() ([]*sub, []*idSub, string) {
			ss := subs()
			for _, s := range ss {
				o := s.opts()
				if include {
					o = append(o, resource.WithInclude(func(_ string, m proto.Message) bool { return in(m) != nil }))
				}
				s.sink = rm.Collect(c.Pull(ctx, o...))
				for _, id := range []string{"a", "b"} {
					cur := project(in(items[id]), s.mask)
					s.held[id] = &held{known: !s.updatesOnly || cur == nil, msg: cur}
				}
			}
			var ids []*idSub
			for _, s := range subs() {
				if include {
					break
				}
				s.sink = rm.CollectV(c.PullID(ctx, "a", s.opts()...))
				cur := project(items["a"], s.mask)
				s.held["a"] = &held{known: !s.updatesOnly || cur == nil, msg: cur}
				ids = append(ids, &idSub{sub: s})
			}
			vrt.Quiesce()
			for _, s := range ss {
				got := s.take()
				n := 0
				for id := range items {
					if cur := in(items[id]); cur != nil && !s.updatesOnly {
						n++
						if g := news(got, id); len(g) != 1 || !proto.Equal(g[0], project(cur, s.mask)) {
							return nil, nil, fmt.Sprintf("stream-seed: %v: %s", s, rm.Evs(got))
						}
					}
				}
				if len(got) != n {
					return nil, nil, fmt.Sprintf("stream-seed: %v: %s", s, rm.Evs(got))
				}
			}
			for _, s := range ids {
				got := s.take()
				if want := items["a"] != nil && !s.updatesOnly; want != (len(got) == 1) || len(got) > 1 {
					return nil, nil, fmt.Sprintf("stream-seed: id %v: %s", s, rm.Evs(got))
				}
			}
			return ss, ids, ""
		}
		all, ids, f := open()
		if f != "" {
			return "", f
		}
		var out strings.Builder
		n := len(q.vals)
		for i, x := range seq {
			id, now := "a", proto.Message(nil)
			if x > n {
				id, x = "b", (x-n-1)*2
			}
			if x == n {
				c.Delete(id, resource.WithAllowMissing(true))
				delete(items, id)
			} else {
				now = q.vals[x%n]
				if _, err := c.Update(id, proto.Clone(now), resource.WithCreateIfAbsent()); err != nil {
					return "", "update: " + err.Error()
				}
				items[id] = now
			}
			vrt.Quiesce()
			hl.Step(1)
			for _, s := range all {
				got := s.take()
				if len(news(got, id)) != len(got) {
					return "", "stream-other: " + rm.Evs(got)
				}
				if f := judge(q, s.held[id], project(in(now), s.mask), news(got, id), fmt.Sprintf("operation %d of %v, %v", i, seq, s)); f != "" {
					return "", f
				}
				fmt.Fprint(&out, len(got))
			}
			for _, s := range ids {
				got := s.take()
				if s.closed || id != "a" {
					if len(got) > 0 {
						return "", fmt.Sprintf("stream-other: %v: %s", s, rm.Evs(got))
					}
					continue
				}
				if now == nil {
					if s.held["a"].msg != nil {
						s.closed = true
						if !s.sink.Closed {
							return "", fmt.Sprintf("stream-suppressed: operation %d of %v: %v: the stream of a deleted item goes on", i, seq, s)
						}
					}
					if len(got) > 0 {
						return "", fmt.Sprintf("stream-other: %v: %s", s, rm.Evs(got))
					}
					continue
				}
				if f := judge(q, s.held["a"], project(now, s.mask), news(got, ""), fmt.Sprintf("operation %d of %v, item %v", i, seq, s)); f != "" {
					return "", f
				}
			}
			if i == 1 {
				late, lateIDs, f := open()
				if f != "" {
					return "", f
				}
				all, ids = append(all, late...), append(ids, lateIDs...)
			}
		}
		return out.String(), ""
	})
}

// paused checks a subscriber without backpressure that does not read for a while: what it
// receives in the end still changes what it holds, and leaves it with the current value.
func paused(q equiv, coll bool, seq []int, pauses int) (string, string) {
	return hl.Single(func() (string, string) {
		opts := []resource.Option{}
		if q.opt != nil {
			opts = append(opts, q.opt)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var v *resource.Value
		var c *resource.Collection
		gate := make(chan struct{})
		var evs []rm.Ev
		n := len(q.vals)
		if coll {
			c = resource.NewCollection(append(opts, resource.WithInitialRecord("a", proto.Clone(q.vals[0])))...)
			ch := c.Pull(ctx, resource.WithBackpressure(false))
			go func() {
				for range gate {
				drain:
					for {
						select {
						case e, ok := <-ch:
							if !ok {
								return
							}
							evs = append(evs, rm.FromCollection(e))
						case <-gate:
							break drain
						}
					}
				}
			}()
		} else {
			v = resource.NewValue(append(opts, resource.WithInitialValue(proto.Clone(q.vals[0])))...)
			ch := v.Pull(ctx, resource.WithBackpressure(false))
			go func() {
				for range gate {
				drain:
					for {
						select {
						case e, ok := <-ch:
							if !ok {
								return
							}
							evs = append(evs, rm.FromValue(e))
						case <-gate:
							break drain
						}
					}
				}
			}()
		}
		var cur proto.Message = q.vals[0]
		var hold proto.Message
		out := ""
		toggle := func() { gate <- struct{}{}; vrt.Quiesce() }
		reading := false
		for i, x := range seq {
			// bit i of pauses: whether it reads after this write
			if coll && x == n {
				c.Delete("a", resource.WithAllowMissing(true))
				cur = nil
			} else {
				cur = q.vals[x%n]
				if coll {
					c.Update("a", proto.Clone(cur), resource.WithCreateIfAbsent())
				} else {
					v.Set(proto.Clone(cur))
				}
			}
			vrt.Quiesce()
			hl.Step(1)
			read := pauses>>i&1 != 0 || i == len(seq)-1
			if read != reading {
				toggle()
				reading = read
			}
			if !read {
				continue
			}
			for _, e := range evs {
				if e.New != nil && hold != nil && q.same(hold, e.New) && q.opt != nil {
					return "", fmt.Sprintf("paused-equivalent: after write %d of %v, reading after %b: received %s holding %s", i, seq, pauses, rm.Text(e.New), rm.Text(hold))
				}
				if e.New == nil && hold == nil {
					return "", fmt.Sprintf("paused-equivalent: after write %d of %v, reading after %b: the removal of nothing", i, seq, pauses)
				}
				hold = e.New
			}
			out += fmt.Sprint(len(evs))
			evs = nil
			if (hold == nil) != (cur == nil) || cur != nil && !q.same(hold, cur) && q.opt != nil {
				return "", fmt.Sprintf("paused-suppressed: after write %d of %v, reading after %b: the subscriber holds %s but the value is %s", i, seq, pauses, rm.Text(hold), rm.Text(cur))
			}
		}
		return out, ""
	})
}

func streams(s *[]hl.Scenario) {
	for _, q := range equivs() {
		for ii, init := range []proto.Message{nil, q.vals[0]} {
			*s = append(*s, hl.Scenario{Name: fmt.Sprintf("stream/value/%s/%d", q.name, ii), Shards: 4, Enum: func(e *hl.E) {
				seqs(len(q.vals), hl.Pick(4, 5), func(x []int) bool {
					x = append([]int(nil), x...)
					return e.Case(func() string { return fmt.Sprintf("writes of values %v", x) }, func() (string, string) { return valueSeq(q, init, x) })
				})
			}})
		}
		for _, include := range []bool{false, true} {
			*s = append(*s, hl.Scenario{Name: fmt.Sprintf("stream/collection/%s/include=%v", q.name, include), Shards: 8, Enum: func(e *hl.E) {
				seqs(len(q.vals)+3, hl.Pick(4, 5), func(x []int) bool {
					x = append([]int(nil), x...)
					return e.Case(func() string { return fmt.Sprintf("operations %v", x) }, func() (string, string) { return collSeq(q, include, x) })
				})
			}})
		}
		for _, coll := range []bool{false, true} {
			*s = append(*s, hl.Scenario{Name: fmt.Sprintf("paused/%s/coll=%v", q.name, coll), Shards: 8, Enum: func(e *hl.E) {
				k := len(q.vals)
				if coll {
					k++
				}
				n := hl.Pick(4, 5)
				seqs(k, n, func(x []int) bool {
					x = append([]int(nil), x...)
					for p := 0; p < 1<<(n-1); p++ {
						if !e.Case(func() string { return fmt.Sprintf("operations %v, reading after %b", x, p) }, func() (string, string) { return paused(q, coll, x, p) }) {
							return false
						}
					}
					return true
				})
			}})
		}
	}
	models(s)
}

// models checks the models that come with an equivalence.
func models(s *[]hl.Scenario) {
	type model struct {
		name string
		r    rule
		vals []proto.Message
		new  func(ctx context.Context) (set func(m proto.Message) error, get func() proto.Message, ch <-chan proto.Message)
	}
	pull := func(f func(out chan<- proto.Message)) <-chan proto.Message {
		out := make(chan proto.Message)
		go func() { defer close(out); f(out) }()
		return out
	}
	ts := func(ms int64) *timestamppb.Timestamp { return timestamppb.New(time.UnixMilli(ms)) }
	el := func(p float32, start int64, d time.Duration) proto.Message {
		return &traits.EnergyLevel{Quantity: &traits.EnergyLevel_Quantity{Percentage: p}, PluggedIn: p > 60, Flow: &traits.EnergyLevel_Charge{Charge: &traits.EnergyLevel_Transfer{StartTime: ts(start), Time: durationpb.New(d)}}}
	}
	dm := func(c float32, v float32) proto.Message { return &traits.ElectricDemand{Current: c, Voltage: &v} }
	mds := []model{
		{"fanspeed", rule{float: true, margin: 0.01}, []proto.Message{&traits.FanSpeed{Percentage: 50}, &traits.FanSpeed{Percentage: 50.0078125}, &traits.FanSpeed{Percentage: 50.015625}, &traits.FanSpeed{Percentage: 60}, &traits.FanSpeed{Percentage: 60, Direction: 1}},
			func(ctx context.Context) (func(m proto.Message) error, func() proto.Message, <-chan proto.Message) {
				m := fanspeedpb.NewModel(fanspeedpb.WithPresets())
				ch := m.PullFanSpeed(ctx)
				return func(x proto.Message) error { _, err := m.UpdateFanSpeed(x.(*traits.FanSpeed)); return err }, func() proto.Message { return m.FanSpeed() }, pull(func(out chan<- proto.Message) {
					for c := range ch {
						out <- c.Value
					}
				})
			}},
		{"demand", rule{float: true, margin: 0.01}, []proto.Message{dm(1, 240), dm(1.0078125, 240), dm(1.015625, 240), dm(1, 240.0078125), dm(1, 240.015625), dm(5, 240)},
			func(ctx context.Context) (func(m proto.Message) error, func() proto.Message, <-chan proto.Message) {
				m := electricpb.NewModel()
				ch := m.PullDemand(ctx)
				return func(x proto.Message) error { _, err := m.UpdateDemand(x.(*traits.ElectricDemand)); return err }, func() proto.Message { return m.Demand() }, pull(func(out chan<- proto.Message) {
					for c := range ch {
						out <- c.Value
					}
				})
			}},
		{"energylevel", rule{float: true, margin: 0.1, tm: true, tmD: time.Second, dur: true, durD: time.Second}, []proto.Message{el(50, 0, 0), el(50.0625, 0, 0), el(50.125, 0, 0), el(50, 700, 0), el(50, 1400, 0), el(50, 0, 1400*time.Millisecond), el(70, 0, 0)},
			func(ctx context.Context) (func(m proto.Message) error, func() proto.Message, <-chan proto.Message) {
				m := energystoragepb.NewModel()
				ch := m.PullEnergyLevel(ctx)
				return func(x proto.Message) error { _, err := m.UpdateEnergyLevel(x.(*traits.EnergyLevel)); return err }, func() proto.Message { m, _ := m.GetEnergyLevel(); return m }, pull(func(out chan<- proto.Message) {
					for c := range ch {
						out <- c.Value
					}
				})
			}},
	}
	for _, m := range mds {
		*s = append(*s, hl.Scenario{Name: "model/" + m.name, Shards: 4, Enum: func(e *hl.E) {
			seqs(len(m.vals), hl.Pick(4, 5), func(x []int) bool {
				x = append([]int(nil), x...)
				return e.Case(func() string { return fmt.Sprintf("writes of values %v", x) }, func() (string, string) {
					return hl.Single(func() (string, string) {
						ctx, cancel := context.WithCancel(context.Background())
						defer cancel()
						q := equiv{same: byRule(m.r)}
						set, get, ch := m.new(ctx)
						h := &held{known: true, msg: get()}
						var got []proto.Message
						go func() {
							for c := range ch {
								got = append(got, c)
							}
						}()
						vrt.Quiesce()
						if len(got) != 1 || !proto.Equal(got[0], h.msg) {
							return "", fmt.Sprintf("stream-seed: %v", got)
						}
						got = nil
						for i, v := range x {
							if err := set(proto.Clone(m.vals[v])); err != nil {
								return "", "set: " + err.Error()
							}
							vrt.Quiesce()
							if f := judge(q, h, get(), got, fmt.Sprintf("write %d of %v", i, x)); f != "" {
								return "", f
							}
							got = nil
						}
						return "", ""
					})
				})
			})
		}})
	}
	*s = append(*s, hl.Scenario{Name: "model/electric", Shards: 4, Enum: electricModel})
}

// electricModel checks the active mode and the modes of the electric model.
func electricModel(e *hl.E) {
	k := 6
	seqs(k, hl.Pick(4, 5), func(x []int) bool {
		x = append([]int(nil), x...)
		return e.Case(func() string { return fmt.Sprintf("operations %v", x) }, func() (string, string) {
			return hl.Single(func() (string, string) {
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				m := electricpb.NewModel(resource.WithClock(fixed{}))
				var ids []string
				for _, t := range []string{"n", "o"} {
					md, err := m.CreateMode(&traits.ElectricMode{Title: t, Normal: t == "n"})
					if err != nil {
						return "", "create: " + err.Error()
					}
					ids = append(ids, md.Id)
				}
				q := equiv{same: byRule(rule{})}
				var act []proto.Message
				var modes []rm.Ev
				ach, mch := m.PullActiveMode(ctx), m.PullModes(ctx)
				go func() {
					for c := range ach {
						act = append(act, c.ActiveMode)
					}
				}()
				go func() {
					for c := range mch {
						ev := rm.Ev{Kind: c.Type}
						if c.NewValue != nil {
							ev.ID, ev.New = c.NewValue.Id, c.NewValue
						} else {
							ev.ID = c.OldValue.Id
						}
						modes = append(modes, ev)
					}
				}()
				vrt.Quiesce()
				ha := &held{known: true, msg: m.ActiveMode()}
				hm := map[string]*held{}
				for _, md := range m.Modes() {
					hm[md.Id] = &held{known: true, msg: md}
				}
				act, modes = nil, nil
				for i, o := range x {
					var err error
					switch o {
					case 0, 1:
						_, err = m.ChangeActiveMode(ids[o])
					case 2:
						_, err = m.UpdateMode(&traits.ElectricMode{Id: ids[0], Description: "x"}, resource.WithUpdatePaths("description"))
					case 3:
						_, err = m.UpdateMode(&traits.ElectricMode{Id: ids[1], Description: "x"}, resource.WithUpdatePaths("description"))
					case 4:
						_, err = m.UpdateMode(&traits.ElectricMode{Id: ids[1]}, resource.WithUpdatePaths("description"))
					case 5:
						_, err = m.UpdateMode(&traits.ElectricMode{Id: ids[1], Title: "o"}, resource.WithUpdatePaths("title"))
					}
					if err != nil {
						return "", "call: " + err.Error()
					}
					vrt.Quiesce()
					if f := judge(q, ha, m.ActiveMode(), act, fmt.Sprintf("active mode, operation %d of %v", i, x)); f != "" {
						return "", f
					}
					for _, md := range m.Modes() {
						if f := judge(q, hm[md.Id], md, news(modes, md.Id), fmt.Sprintf("modes, operation %d of %v", i, x)); f != "" {
							return "", f
						}
					}
					act, modes = nil, nil
				}
				return "", ""
			})
		})
	})
}

type fixed struct{}

func (fixed) Now() time.Time { return time.Unix(1000, 0) }

func wk(t, d time.Duration) *testproto.WellKnown {
	return &testproto.WellKnown{DefaultTimestamp: timestamppb.New(time.Unix(0, 0).Add(t)), DefaultDuration: durationpb.New(d)}
}
