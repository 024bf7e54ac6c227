package main

import (
	"fmt"
	"math"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"google.golang.org/protobuf/proto"
	pref "google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type place[T any] struct {
	name string
	f    func(v T) proto.Message
}

func check[T any](e *hl.E, key string, places []place[T], vals []T, eq cmp.Message, r rule) bool {
	for _, p := range places {
		for _, a := range vals {
			if !e.Case(func() string { return fmt.Sprintf("%s %+v %s %v and others", key, r, p.name, a) }, func() (string, string) {
				for _, b := range vals {
					x, y := p.f(a), p.f(b)
					if f := verdict(key, eq, x, y, refMsg(x.ProtoReflect(), y.ProtoReflect(), r)); f != "" {
						return "", fmt.Sprintf("%s (%+v)", f, r)
					}
				}
				return "", ""
			}) {
				return false
			}
		}
	}
	return true
}

func tolerance(s *[]hl.Scenario) {
	enum := func(name string, shards int, f func(e *hl.E)) {
		*s = append(*s, hl.Scenario{Name: name, Enum: f, Shards: shards})
	}
	floats := []float64{0, math.Copysign(0, -1), 0.25, 0.5, 0.75, 1, 1.25, 1.5, 2, 3, 4, -0.25, -0.5, -1, -1.5, -2, 1024, 1536, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e-9, math.Nextafter(1, 2), math.Nextafter(1.5, 2)}
	fp := []place[float64]{
		{"double", func(v float64) proto.Message { return &all{DefaultDouble: v} }},
		{"float", func(v float64) proto.Message { return &all{DefaultFloat: float32(v)} }},
		{"optional double", func(v float64) proto.Message { return &all{OptionalDouble: &v} }},
		{"optional float", func(v float64) proto.Message { f := float32(v); return &all{OptionalFloat: &f} }},
		{"list", func(v float64) proto.Message { return &all{RepeatedDouble: []float64{v, 1}} }},
		{"list last", func(v float64) proto.Message { return &all{RepeatedFloat: []float32{1, float32(v)}} }},
		{"map", func(v float64) proto.Message { return &all{MapInt32Double: map[int32]float64{1: v, 2: 1}} }},
		{"map float", func(v float64) proto.Message { return &all{MapInt32Float: map[int32]float32{1: float32(v)}} }},
		{"maybe optional", func(v float64) proto.Message {
			if v == 0.25 {
				return &all{}
			}
			return &all{OptionalDouble: &v}
		}},
		{"length", func(v float64) proto.Message {
			if v == 0.25 {
				return &all{RepeatedDouble: []float64{0}}
			}
			return &all{RepeatedDouble: []float64{0, v}}
		}},
	}
	for _, w := range wraps[1:] {
		fp = append(fp, place[float64]{"double in " + w.name, func(v float64) proto.Message { return w.f(&all{DefaultDouble: v, DefaultInt32: 1}) }})
	}
	for _, margin := range []float64{0, 0.25, 0.5, 1, 4096} {
		for _, fraction := range []float64{0, 0.25, 0.5, 1} {
			enum(fmt.Sprintf("float/%v/%v", fraction, margin), 1, func(e *hl.E) {
				check(e, "float", fp, floats, cmp.Equal(cmp.FloatValueApprox(fraction, margin)), rule{float: true, fraction: fraction, margin: margin})
			})
		}
	}
	var times []*timestamppb.Timestamp
	for _, s := range []int64{-62135596800, -1, 0, 1, 2, 1e9, 253402300799} {
		for _, n := range []int32{0, 1, 500000000, 999999999} {
			times = append(times, &timestamppb.Timestamp{Seconds: s, Nanos: n})
		}
	}
	tp := []place[*timestamppb.Timestamp]{
		{"timestamp", func(v *timestamppb.Timestamp) proto.Message { return v }},
		{"field", func(v *timestamppb.Timestamp) proto.Message { return &testproto.WellKnown{DefaultTimestamp: v} }},
		{"list", func(v *timestamppb.Timestamp) proto.Message {
			return &all{RepeatedWellKnown: []*testproto.WellKnown{{}, {DefaultTimestamp: v}}}
		}},
		{"map", func(v *timestamppb.Timestamp) proto.Message {
			return &all{MapStringWellKnown: map[string]*testproto.WellKnown{"k": {DefaultTimestamp: v}}}
		}},
		{"dynamic", func(v *timestamppb.Timestamp) proto.Message {
			return wraps[5].f(&all{DefaultWellKnown: &testproto.WellKnown{DefaultTimestamp: v}})
		}},
	}
	tols := []time.Duration{0, 1, time.Second, time.Second - 1, 1500 * time.Millisecond, 1e9 * time.Second, 9e9 * time.Second, math.MaxInt64}
	for _, d := range tols {
		enum(fmt.Sprintf("time/%v", d), 1, func(e *hl.E) {
			// a top level timestamp is compared by its fields
			check(e, "time", tp[1:], append(times, nil), cmp.Equal(cmp.TimeValueWithin(d)), rule{tm: true, tmD: d})
		})
	}
	var durs []*durationpb.Duration
	for _, s := range []int64{0, 1, 2, 3, 4, 100, 150, 1e9, 9e9, 1e10, 2e10, 315576000000} {
		for _, n := range []int32{0, 1, 500000000, 999999999} {
			if s == 315576000000 && n != 0 {
				continue
			}
			durs = append(durs, &durationpb.Duration{Seconds: s, Nanos: n})
			if s != 0 || n != 0 {
				durs = append(durs, &durationpb.Duration{Seconds: -s, Nanos: -n})
			}
		}
	}
	dp := []place[*durationpb.Duration]{
		{"field", func(v *durationpb.Duration) proto.Message { return &testproto.WellKnown{DefaultDuration: v} }},
		{"list", func(v *durationpb.Duration) proto.Message {
			return &all{RepeatedWellKnown: []*testproto.WellKnown{{}, {DefaultDuration: v}}}
		}},
		{"map", func(v *durationpb.Duration) proto.Message {
			return &all{MapStringWellKnown: map[string]*testproto.WellKnown{"k": {DefaultDuration: v}}}
		}},
		{"dynamic", func(v *durationpb.Duration) proto.Message {
			return wraps[5].f(&all{DefaultWellKnown: &testproto.WellKnown{DefaultDuration: v}})
		}},
	}
	for _, d := range tols {
		enum(fmt.Sprintf("duration/%v", d), 1, func(e *hl.E) {
			check(e, "duration", dp, append(durs, nil), cmp.Equal(cmp.DurationValueWithin(d)), rule{dur: true, durD: d})
		})
	}
	// no values for which rounding matters
	var pdurs []*durationpb.Duration
	for _, d := range durs {
		if d.Nanos == 0 || d.Seconds < 1000 && d.Seconds > -1000 {
			pdurs = append(pdurs, d)
		}
	}
	for _, p := range []float32{0, 25, 50, 100, 200} {
		enum(fmt.Sprintf("percent/%v", p), 1, func(e *hl.E) {
			check(e, "percent", dp, append(pdurs, nil), cmp.Equal(cmp.DurationValueWithinP(p)), rule{durP: true, p: p})
		})
	}
	// several comparers, on messages with several kinds
	type multi struct {
		f, g float64
		t    int64
		d    int64
		i    int32
		s    string
	}
	var ms []multi
	for _, f := range []float64{0, 0.25, 1} {
		for _, g := range []float64{1, 1.25, 3} {
			for _, t := range []int64{-1, 0, 1, 5} {
				for _, d := range []int64{-1, 0, 1, 5} {
					for _, i := range []int32{0, 1} {
						ms = append(ms, multi{f, g, t, d, i, ""}, multi{f, g, t, d, i, "s"})
					}
				}
			}
		}
	}
	mp := []place[multi]{{"multi", func(v multi) proto.Message {
		m := &all{DefaultDouble: v.f, DefaultInt32: v.i, DefaultString: v.s, RepeatedFloat: []float32{float32(v.g)}, DefaultWellKnown: &testproto.WellKnown{}}
		if v.t >= 0 {
			m.DefaultWellKnown.DefaultTimestamp = &timestamppb.Timestamp{Seconds: v.t}
		}
		if v.d >= 0 {
			m.DefaultWellKnown.DefaultDuration = &durationpb.Duration{Seconds: v.d}
		}
		return m
	}}}
	fv, tv, dv := cmp.FloatValueApprox(0, 0.25), cmp.TimeValueWithin(time.Second), cmp.DurationValueWithin(time.Second)
	fr, tr, dr := rule{float: true, margin: 0.25}, rule{tm: true, tmD: time.Second}, rule{dur: true, durD: time.Second}
	join := func(rs ...rule) (r rule) {
		for _, x := range rs {
			if x.float {
				r.float, r.fraction, r.margin = true, x.fraction, x.margin
			}
			if x.tm {
				r.tm, r.tmD = true, x.tmD
			}
			if x.dur {
				r.dur, r.durD = true, x.durD
			}
		}
		return
	}
	for bits := 0; bits < 8; bits++ {
		var vs []cmp.Value
		var rs []rule
		if bits&1 != 0 {
			vs, rs = append(vs, fv), append(rs, fr)
		}
		if bits&2 != 0 {
			vs, rs = append(vs, tv), append(rs, tr)
		}
		if bits&4 != 0 {
			vs, rs = append(vs, dv), append(rs, dr)
		}
		enum(fmt.Sprintf("several/%d", bits), 2, func(e *hl.E) {
			check(e, "several", mp, ms, cmp.Equal(vs...), join(rs...))
		})
		enum(fmt.Sprintf("several/%d/or", bits), 2, func(e *hl.E) {
			// a disjunction of comparers of different kinds is the same
			check(e, "several", mp, ms, cmp.Equal(cmp.ValueOr(vs...)), join(rs...))
		})
	}
}

// direct calls the value comparers as Equal does: each judges only its own kind, and
// messages that are not there (nil in a list).
func direct(s *[]hl.Scenario) {
	*s = append(*s, hl.Scenario{Name: "direct", Enum: func(e *hl.E) {
		wfs := (&testproto.WellKnown{}).ProtoReflect().Descriptor().Fields()
		comparers := []struct {
			name string
			v    cmp.Value
			own  func(fd pref.FieldDescriptor) bool
		}{
			{"float", cmp.FloatValueApprox(0.5, 1), func(fd pref.FieldDescriptor) bool {
				return fd.Kind() == pref.FloatKind || fd.Kind() == pref.DoubleKind
			}},
			{"time", cmp.TimeValueWithin(time.Second), func(fd pref.FieldDescriptor) bool {
				return fd.Message() == wfs.ByName("default_timestamp").Message() && fd.Message() != nil
			}},
			{"duration", cmp.DurationValueWithin(time.Second), func(fd pref.FieldDescriptor) bool {
				return fd.Message() == wfs.ByName("default_duration").Message() && fd.Message() != nil
			}},
			{"percent", cmp.DurationValueWithinP(10), func(fd pref.FieldDescriptor) bool {
				return fd.Message() == wfs.ByName("default_duration").Message() && fd.Message() != nil
			}},
		}
		for _, c := range comparers {
			for _, fs := range []pref.FieldDescriptors{fields, wfs} {
				for i := 0; i < fs.Len(); i++ {
					fd := fs.Get(i)
					if fd.IsMap() {
						fd = fd.MapValue()
					}
					es := elems(fd, 1)
					e.Case(func() string { return fmt.Sprint(c.name, " ", fs.Get(i).FullName()) }, func() (string, string) {
						for _, x := range es {
							for _, y := range es {
								if _, ok := c.v(fd, x, y); ok != c.own(fd) {
									return "", fmt.Sprintf("direct: %s judges %v and %v: %v", c.name, x, y, ok)
								}
							}
						}
						return "", ""
					})
				}
			}
			e.Case(func() string { return c.name + " nil" }, func() (string, string) {
				for _, fd := range []pref.FieldDescriptor{wfs.ByName("default_timestamp"), wfs.ByName("default_duration")} {
					var none, zero pref.Message = (*timestamppb.Timestamp)(nil).ProtoReflect(), (&timestamppb.Timestamp{}).ProtoReflect()
					if fd.Name() == "default_duration" {
						none, zero = (*durationpb.Duration)(nil).ProtoReflect(), (&durationpb.Duration{}).ProtoReflect()
					}
					for _, x := range []pref.Message{none, zero} {
						for _, y := range []pref.Message{none, zero} {
							eq, ok := c.v(fd, pref.ValueOfMessage(x), pref.ValueOfMessage(y))
							if ok != c.own(fd) || ok && eq != (x.IsValid() == y.IsValid()) {
								return "", fmt.Sprintf("direct: %s of %v (%v) and %v (%v) is %v, %v", c.name, x, x.IsValid(), y, y.IsValid(), eq, ok)
							}
						}
					}
				}
				return "", ""
			})
		}
	}})
}

// logic checks And and Or against the truth tables.
func logic(s *[]hl.Scenario) {
	*s = append(*s, hl.Scenario{Name: "logic", Enum: func(e *hl.E) {
		type res struct{ equal, ok bool }
		all := []res{{false, false}, {true, false}, {false, true}, {true, true}}
		for n := 0; n <= 4; n++ {
			idx := make([]int, n)
			for {
				var rs []res
				for _, i := range idx {
					rs = append(rs, all[i])
				}
				e.Case(func() string { return fmt.Sprint(rs) }, func() (string, string) {
					var vs []cmp.Value
					and, or, any := true, false, false
					mand, mor := true, false
					var msgs []cmp.Message
					for _, r := range rs {
						vs = append(vs, func(pref.FieldDescriptor, pref.Value, pref.Value) (bool, bool) { return r.equal, r.ok })
						msgs = append(msgs, func(x, y proto.Message) bool { return r.equal })
						mand, mor = mand && r.equal, mor || r.equal
						if r.ok {
							any = true
							and, or = and && r.equal, or || r.equal
						}
					}
					hl.Step(4)
					if eq, ok := cmp.ValueAnd(vs...)(nil, pref.Value{}, pref.Value{}); ok != any || ok && eq != and {
						return "", fmt.Sprintf("and: of %v is %v, %v", rs, eq, ok)
					}
					if eq, ok := cmp.ValueOr(vs...)(nil, pref.Value{}, pref.Value{}); ok != any || ok && eq != or {
						return "", fmt.Sprintf("or: of %v is %v, %v", rs, eq, ok)
					}
					if eq := cmp.And(msgs...)(nil, nil); eq != mand {
						return "", fmt.Sprintf("message-and: of %v is %v", rs, eq)
					}
					if eq := cmp.Or(msgs...)(nil, nil); eq != mor {
						return "", fmt.Sprintf("message-or: of %v is %v", rs, eq)
					}
					return "", ""
				})
				k := n - 1
				for ; k >= 0; k-- {
					if idx[k]++; idx[k] < 4 {
						break
					}
					idx[k] = 0
				}
				if k < 0 {
					break
				}
			}
		}
	}})
}
