// C16: message comparers.
package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	pref "google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

type all = testproto.TestAllTypes

func splitRaw(b pref.RawFields) string {
	m := map[protowire.Number]string{}
	for len(b) > 0 {
		n, _, l := protowire.ConsumeField(b)
		m[n] += fmt.Sprintf("%x", []byte(b[:l]))
		b = b[l:]
	}
	var s []string
	for n, v := range m {
		s = append(s, fmt.Sprint(n, ":", v))
	}
	sort.Strings(s)
	return fmt.Sprint(s)
}

// elems are the values tried for one element of fd's kind.
func elems(fd pref.FieldDescriptor, deep int) (vs []pref.Value) {
	add := func(xs ...any) {
		for _, x := range xs {
			vs = append(vs, pref.ValueOf(x))
		}
	}
	switch fd.Kind() {
	case pref.BoolKind:
		add(false, true)
	case pref.EnumKind:
		add(pref.EnumNumber(0), pref.EnumNumber(1), pref.EnumNumber(99), pref.EnumNumber(-1))
	case pref.Int32Kind, pref.Sint32Kind, pref.Sfixed32Kind:
		add(int32(0), int32(1), int32(-1), int32(math.MaxInt32))
	case pref.Int64Kind, pref.Sint64Kind, pref.Sfixed64Kind:
		add(int64(0), int64(1), int64(-1), int64(math.MaxInt64), int64(1<<53), int64(1<<53+1))
	case pref.Uint32Kind, pref.Fixed32Kind:
		add(uint32(0), uint32(1), uint32(math.MaxUint32))
	case pref.Uint64Kind, pref.Fixed64Kind:
		add(uint64(0), uint64(1), uint64(math.MaxUint64), uint64(1<<63))
	case pref.FloatKind:
		add(float32(0), float32(math.Copysign(0, -1)), float32(1), float32(1.5), float32(-1), float32(math.NaN()), math.Float32frombits(0x7fc00001), float32(math.Inf(1)), float32(math.Inf(-1)))
	case pref.DoubleKind:
		add(0.0, math.Copysign(0, -1), 1.0, 1.5, -1.0, math.NaN(), math.Float64frombits(0x7ff8000000000002), math.Inf(1), math.Inf(-1), math.Nextafter(1, 2))
	case pref.StringKind:
		add("", "a", "b", "ab", "é")
	case pref.BytesKind:
		add([]byte{}, []byte("a"), []byte("b"), []byte{0}, []byte("ab"))
	case pref.MessageKind, pref.GroupKind:
		if deep == 0 {
			return
		}
		for _, m := range nested(fd.Message(), deep-1) {
			vs = append(vs, pref.ValueOfMessage(m.ProtoReflect()))
		}
	}
	return
}

func nested(md pref.MessageDescriptor, deep int) []proto.Message {
	switch md.Name() {
	case "NestedMessage":
		type n = testproto.TestAllTypes_NestedMessage
		r := []proto.Message{&n{}, &n{A: 1}, &n{A: 2}, &n{Corecursive: &all{}}, &n{Corecursive: &all{DefaultInt32: 1}}, &n{Corecursive: &all{DefaultDouble: math.NaN()}}, &n{Corecursive: &all{OptionalBool: proto.Bool(false)}}}
		return r
	case "ForeignMessage":
		type f = testproto.ForeignMessage
		return []proto.Message{&f{}, &f{C: 1}, &f{D: 1}, &f{C: 1, D: 1}}
	case "Timestamp":
		return []proto.Message{&timestamppb.Timestamp{}, &timestamppb.Timestamp{Seconds: 1}}
	case "Duration":
		return []proto.Message{&durationpb.Duration{}, &durationpb.Duration{Seconds: 1}}
	case "WellKnown":
		type w = testproto.WellKnown
		return []proto.Message{&w{}, &w{DefaultTimestamp: &timestamppb.Timestamp{}}, &w{DefaultTimestamp: &timestamppb.Timestamp{Seconds: 1}}, &w{DefaultTimestamp: &timestamppb.Timestamp{Nanos: 1}}, &w{DefaultDuration: &durationpb.Duration{}}, &w{DefaultDuration: &durationpb.Duration{Seconds: 1}}}
	}
	panic(md.Name())
}

func clone(v pref.Value) pref.Value {
	if m, ok := v.Interface().(pref.Message); ok {
		return pref.ValueOfMessage(proto.Clone(m.Interface()).ProtoReflect())
	}
	return v
}

type mutation struct {
	fd   pref.FieldDescriptor
	name string
	set  func(m pref.Message)
}

// variants are the ways to set one field, the first is to clear it.
func variants(fd pref.FieldDescriptor) (r []mutation) {
	add := func(name string, set func(m pref.Message)) {
		r = append(r, mutation{fd, fmt.Sprintf("%s=%s", fd.Name(), name), set})
	}
	add("unset", func(m pref.Message) { m.Clear(fd) })
	switch {
	case fd.IsList():
		es := elems(fd, 1)
		list := func(vs ...pref.Value) {
			add(fmt.Sprint(vs), func(m pref.Message) {
				m.Clear(fd)
				l := m.Mutable(fd).List()
				for _, v := range vs {
					l.Append(clone(v))
				}
			})
		}
		list()
		for _, e := range es {
			list(e)
		}
		list(es[0], es[0])
		list(es[0], es[1])
		list(es[1], es[0])
		list(es[1], es[1])
		if len(es) > 2 {
			list(es[1], es[2])
			list(es[0], es[1], es[2])
		}
	case fd.IsMap():
		es := elems(fd.MapValue(), 1)
		ks := elems(fd.MapKey(), 1)
		mp := func(kv ...pref.Value) {
			add(fmt.Sprint(kv), func(m pref.Message) {
				m.Clear(fd)
				l := m.Mutable(fd).Map()
				for i := 0; i < len(kv); i += 2 {
					l.Set(kv[i].MapKey(), clone(kv[i+1]))
				}
			})
		}
		mp()
		for _, e := range es {
			mp(ks[0], e)
		}
		mp(ks[1], es[0])
		mp(ks[1], es[1])
		mp(ks[0], es[0], ks[1], es[1])
		mp(ks[0], es[1], ks[1], es[0])
		mp(ks[0], es[0], ks[1], es[0])
	default:
		for _, e := range elems(fd, 1) {
			add(fmt.Sprint(e), func(m pref.Message) { m.Set(fd, clone(e)) })
		}
	}
	return
}

var fields = (&all{}).ProtoReflect().Descriptor().Fields()

// verdict compares eq with want both ways.
func verdict(key string, eq cmp.Message, x, y proto.Message, want bool) string {
	hl.Step(2)
	if got := eq(x, y); got != want {
		return fmt.Sprintf("%s: comparing %v with %v gives %v, want %v", key, x, y, got, want)
	}
	if got := eq(y, x); got != want {
		return fmt.Sprintf("%s: comparing %v with %v gives %v, the other way around %v", key, y, x, got, want)
	}
	return ""
}

// wraps put a message within another.
var wraps = []struct {
	name string
	f    func(m *all) proto.Message
}{
	{"plain", func(m *all) proto.Message { return m }},
	{"message", func(m *all) proto.Message {
		return &all{DefaultNestedMessage: &testproto.TestAllTypes_NestedMessage{A: 3, Corecursive: m}}
	}},
	{"list", func(m *all) proto.Message {
		return &all{RepeatedNestedMessage: []*testproto.TestAllTypes_NestedMessage{{A: 1}, {Corecursive: m}, {}}}
	}},
	{"map", func(m *all) proto.Message {
		return &all{MapStringNestedMessage: map[string]*testproto.TestAllTypes_NestedMessage{"k": {Corecursive: m}, "l": {}}}
	}},
	{"oneof", func(m *all) proto.Message {
		return &all{OneofDefault: &testproto.TestAllTypes_OneofDefaultNestedMessage{OneofDefaultNestedMessage: &testproto.TestAllTypes_NestedMessage{Corecursive: m}}}
	}},
	{"dynamic", func(m *all) proto.Message {
		d := dynamicpb.NewMessage(m.ProtoReflect().Descriptor())
		b, _ := proto.Marshal(m)
		if err := proto.Unmarshal(b, d); err != nil {
			panic(err)
		}
		return d
	}},
}

func full() *all {
	m := &all{}
	for i := 0; i < fields.Len(); i++ {
		vs := variants(fields.Get(i))
		vs[min(3, len(vs)-1)].set(m.ProtoReflect())
	}
	return m
}

func defaults(s *[]hl.Scenario) {
	eq := cmp.Equal()
	enum := func(name string, shards int, f func(e *hl.E)) {
		*s = append(*s, hl.Scenario{Name: name, Enum: f, Shards: shards})
	}
	build := func(base *all, ms ...mutation) *all {
		x := proto.Clone(base).(*all)
		for _, m := range ms {
			m.set(x.ProtoReflect())
		}
		return x
	}
	for _, w := range wraps {
		enum("default/field/"+w.name, 2, func(e *hl.E) {
			// every pair of values of each field
			for i := 0; i < fields.Len(); i++ {
				vs := variants(fields.Get(i))
				for _, a := range vs {
					if !e.Case(func() string { return a.name + " and the other values" }, func() (string, string) {
						for _, b := range vs {
							x, y := w.f(build(&all{}, a)), w.f(build(&all{}, b))
							if f := verdict("default", eq, x, y, proto.Equal(x, y)); f != "" {
								return "", f
							}
						}
						return "", ""
					}) {
						return
					}
				}
			}
		})
	}
	enum("default/two", 8, func(e *hl.E) {
		// mutations of a common ancestor in up to two places each
		var ms []mutation
		for i := 0; i < fields.Len(); i++ {
			vs := variants(fields.Get(i))
			ms = append(ms, vs[0], vs[1], vs[2])
		}
		for bi, base := range []*all{{}, full()} {
			for i, a := range ms {
				if !e.Case(func() string { return fmt.Sprintf("base %d with %s and the other mutations", bi, a.name) }, func() (string, string) {
					x := build(base, a)
					for j, b := range ms {
						y := build(base, b)
						if f := verdict("default", eq, x, y, proto.Equal(x, y)); f != "" {
							return "", f
						}
						if bi == 0 || j%7 == i%7 || hl.Thorough() {
							// a second place on both sides, or on one
							c := ms[(i*31+j*17)%len(ms)]
							x2, y2 := build(base, a, c), build(base, c, b)
							for _, p := range [][2]*all{{x2, y2}, {x2, x}, {x2, y}} {
								if f := verdict("default", eq, p[0], p[1], proto.Equal(p[0], p[1])); f != "" {
									return "", f
								}
							}
						}
					}
					return "", ""
				}) {
					return
				}
			}
		}
	})
	enum("default/unknown", 1, func(e *hl.E) {
		v := func(n protowire.Number, x uint64) []byte {
			return protowire.AppendVarint(protowire.AppendTag(nil, n, protowire.VarintType), x)
		}
		b := func(n protowire.Number, x string) []byte {
			return protowire.AppendString(protowire.AppendTag(nil, n, protowire.BytesType), x)
		}
		cat := func(bs ...[]byte) (r []byte) {
			for _, b := range bs {
				r = append(r, b...)
			}
			return
		}
		atoms := [][]byte{v(1000, 1), v(1000, 2), v(1001, 1), b(1000, "x"), b(1001, "x"), b(1001, ""), protowire.AppendFixed32(protowire.AppendTag(nil, 1002, protowire.Fixed32Type), 7)}
		raws := [][]byte{nil}
		for _, x := range atoms {
			raws = append(raws, x)
			for _, y := range atoms {
				raws = append(raws, cat(x, y))
			}
		}
		raws = append(raws, cat(atoms[0], atoms[2], atoms[1]), cat(atoms[2], atoms[0], atoms[1]), cat(atoms[1], atoms[2], atoms[0]))
		for _, w := range wraps[:5] {
			for _, x := range raws {
				if !e.Case(func() string { return fmt.Sprintf("%s: unknown fields %x and others", w.name, x) }, func() (string, string) {
					for _, y := range raws {
						for _, base := range []*all{{}, {DefaultInt32: 1}} {
							mx, my := proto.Clone(base).(*all), proto.Clone(base).(*all)
							mx.ProtoReflect().SetUnknown(x)
							my.ProtoReflect().SetUnknown(y)
							px, py := w.f(mx), w.f(my)
							if f := verdict("unknown", eq, px, py, proto.Equal(px, py)); f != "" {
								return "", f
							}
						}
					}
					return "", ""
				}) {
					return
				}
			}
		}
	})
	enum("default/types", 1, func(e *hl.E) {
		st := func(m map[string]any) *structpb.Struct {
			s, err := structpb.NewStruct(m)
			if err != nil {
				panic(err)
			}
			return s
		}
		an := func(m proto.Message) *anypb.Any {
			a, err := anypb.New(m)
			if err != nil {
				panic(err)
			}
			return a
		}
		msgs := []proto.Message{nil, (*all)(nil), (*timestamppb.Timestamp)(nil), &all{}, &timestamppb.Timestamp{}, &durationpb.Duration{}, &timestamppb.Timestamp{Seconds: 1}, &durationpb.Duration{Seconds: 1},
			&emptypb.Empty{}, (*emptypb.Empty)(nil), wrapperspb.Double(0), wrapperspb.Double(1), wrapperspb.Float(1), wrapperspb.Double(math.NaN()), wrapperspb.Bytes(nil), wrapperspb.Bytes([]byte{}), wrapperspb.String(""), &testproto.ForeignMessage{}, &testproto.ForeignMessage{C: 1},
			&testproto.WellKnown{}, st(map[string]any{}), st(map[string]any{"a": 1.0}), st(map[string]any{"a": nil}), st(map[string]any{"a": "1"}), st(map[string]any{"a": []any{1.0, map[string]any{"b": true}}}), st(map[string]any{"a": []any{1.0, map[string]any{"b": false}}}),
			structpb.NewNumberValue(1), structpb.NewNumberValue(math.NaN()), structpb.NewNullValue(), &structpb.Value{}, an(&testproto.ForeignMessage{C: 1}), an(&testproto.ForeignMessage{C: 2}), an(&testproto.ForeignMessage{}), &anypb.Any{},
			dynamicpb.NewMessage((&all{}).ProtoReflect().Descriptor()), dynamicpb.NewMessage((&timestamppb.Timestamp{}).ProtoReflect().Descriptor()),
			&traits.Brightness{}, &traits.Brightness{LevelPercent: 1}, &traits.OnOff{}, &traits.OnOff{State: 1}, &traits.Occupancy{}, &traits.Occupancy{StateChangeTime: timestamppb.New(time.Unix(1, 0))}, &traits.Occupancy{StateChangeTime: timestamppb.New(time.Unix(2, 0))},
			&traits.PullBrightnessResponse_Change{}, &traits.PullOnOffResponse_Change{}, &traits.PullBrightnessResponse_Change{Name: "n"}, &traits.PullOnOffResponse_Change{Name: "n"}, &traits.PullBrightnessResponse{}, &traits.PullOnOffResponse{}, &traits.UpdateBrightnessRequest{Name: "n"}, &traits.GetBrightnessRequest{Name: "n"},
			&all{RepeatedNestedMessage: []*testproto.TestAllTypes_NestedMessage{nil}}, &all{RepeatedNestedMessage: []*testproto.TestAllTypes_NestedMessage{{}}},
			&all{MapStringNestedMessage: map[string]*testproto.TestAllTypes_NestedMessage{"a": nil}}, &all{MapStringNestedMessage: map[string]*testproto.TestAllTypes_NestedMessage{"a": {}}},
			&all{OneofDefault: &testproto.TestAllTypes_OneofDefaultNestedMessage{}}, &all{OneofDefault: &testproto.TestAllTypes_OneofDefaultInt32{}}, &all{OneofDefault: (*testproto.TestAllTypes_OneofDefaultInt32)(nil)}}
		for i, x := range msgs {
			for j, y := range msgs {
				if !e.Case(func() string { return fmt.Sprintf("%d and %d: %T and %T", i, j, x, y) }, func() (string, string) {
					if f := verdict("types", eq, x, y, proto.Equal(x, y)); f != "" {
						return "", f
					}
					return "", ""
				}) {
					return
				}
			}
		}
	})
	enum("default/change_time", 1, func(e *hl.E) {
		type change = traits.PullBrightnessResponse_Change
		times := []*timestamppb.Timestamp{nil, {}, {Seconds: 1}, {Seconds: 2}}
		var cs []*change
		for _, t := range times {
			for _, n := range []string{"", "a"} {
				for _, b := range []*traits.Brightness{nil, {}, {LevelPercent: 1}, {LevelPercent: 1, TargetLevelPercent: 2}} {
					cs = append(cs, &change{Name: n, ChangeTime: t, Brightness: b})
				}
			}
		}
		strip := func(l []*change) *traits.PullBrightnessResponse {
			r := &traits.PullBrightnessResponse{}
			for _, c := range l {
				c := proto.Clone(c).(*change)
				c.ChangeTime = nil
				r.Changes = append(r.Changes, c)
			}
			return r
		}
		lists := [][]*change{nil}
		for _, c := range cs {
			lists = append(lists, []*change{c})
		}
		for i, c := range cs {
			lists = append(lists, []*change{cs[(i*5)%len(cs)], c}, []*change{c, cs[(i*7+9)%len(cs)]})
		}
		for _, a := range lists {
			for _, b := range lists {
				if !e.Case(func() string { return fmt.Sprint(a, b) }, func() (string, string) {
					want := proto.Equal(strip(a), strip(b))
					for _, q := range []cmp.Message{eq, cmp.Equal(cmp.TimeValueWithin(0)), cmp.Equal(cmp.DurationValueWithin(time.Second))} {
						if f := verdict("change_time", q, &traits.PullBrightnessResponse{Changes: a}, &traits.PullBrightnessResponse{Changes: b}, want); f != "" {
							return "", f
						}
						if len(a) == 1 && len(b) == 1 {
							if f := verdict("change_time", q, a[0], b[0], want); f != "" {
								return "", f
							}
						}
					}
					return "", ""
				}) {
					return
				}
			}
		}
	})
	enum("default/change_time/only", 1, func(e *hl.E) {
		// the exception is for change_time of Change only
		str := func(s string) *string { return &s }
		fld := func(n string, num int32) *descriptorpb.FieldDescriptorProto {
			return &descriptorpb.FieldDescriptorProto{Name: str(n), JsonName: str(n), Number: &num, Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_INT64.Enum()}
		}
		fdp := &descriptorpb.FileDescriptorProto{Name: str("verif.proto"), Package: str("verif"), Syntax: str("proto3")}
		names := []string{"Change", "Changes", "Changed", "change", "Foo", "Pull"}
		for _, n := range names {
			fdp.MessageType = append(fdp.MessageType, &descriptorpb.DescriptorProto{Name: str(n), Field: []*descriptorpb.FieldDescriptorProto{fld("change_time", 1), fld("change_times", 2), fld("time", 3), fld("changetime", 4)}})
		}
		fdp.MessageType[5].NestedType = []*descriptorpb.DescriptorProto{{Name: str("Change"), Field: fdp.MessageType[0].Field}}
		file, err := protodesc.NewFile(fdp, nil)
		if err != nil {
			panic(err)
		}
		var mds []pref.MessageDescriptor
		for i := range names {
			mds = append(mds, file.Messages().Get(i))
		}
		mds = append(mds, file.Messages().Get(5).Messages().Get(0))
		for _, md := range mds {
			for i := 0; i < 4; i++ {
				for _, v := range []int64{0, 1} {
					for _, w := range []int64{0, 1, 2} {
						e.Case(func() string { return fmt.Sprint(md.FullName(), i, v, w) }, func() (string, string) {
							x, y := dynamicpb.NewMessage(md), dynamicpb.NewMessage(md)
							x.Set(md.Fields().Get(i), pref.ValueOf(v))
							y.Set(md.Fields().Get(i), pref.ValueOf(w))
							want := v == w || i == 0 && md.Name() == "Change"
							return "", verdict("change_time-only", eq, x, y, want)
						})
					}
				}
			}
		}
	})
}

func main() {
	hl.Main("C16", func() []hl.Scenario {
		var s []hl.Scenario
		defaults(&s)
		tolerance(&s)
		direct(&s)
		logic(&s)
		streams(&s)
		manyElements(&s)
		return s
	})
}
