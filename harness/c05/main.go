// C05: writes respect update, writable-field and reset masks.
package main

import (
	"fmt"
	"sort"
	"strings"

	_ "github.com/smart-core-os/sc-api/go/traits"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/pkg/masks"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

type kase struct {
	old, src proto.Message
	m, w, r  rm.Mask
	more     rm.Mask
	all      bool
}

func (k kase) String() string {
	return fmt.Sprintf("old=%v src=%v mask=%v writable=%v reset=%v more=%v all=%v", rm.Text(k.old), rm.Text(k.src), k.m, k.w, k.r, k.more, k.all)
}

// spec says what must happen: rejected / may be rejected / the result.
func (k kase) spec() (must, may bool, want proto.Message, trees []rm.Tree) {
	w := k.w
	if k.all || !w.Set {
		w = rm.Mask{}
	} else if k.more.Set {
		w = rm.MaskOf(append(append([]string{}, w.Paths...), k.more.Paths...)...)
	}
	if k.m.Set {
		if !rm.ValidPaths(k.old, k.m.Paths) {
			must = true
		} else if w.Set {
			wt := rm.MaskTree(w.Paths)
			if !rm.Overlaps(wt, k.m.Paths) {
				must = true
			} else if !rm.Covers(wt, rm.MaskTree(k.m.Paths)) {
				may = true
			}
		}
	}
	if k.r.Set && !rm.ValidPaths(k.old, k.r.Paths) {
		must = true
	}
	if must {
		return
	}
	want = rm.Write(k.old, k.src, k.m.Paths, w.Paths, !k.m.Set, !w.Set, k.r.Paths)
	for _, t := range []rm.Mask{k.m, w, k.r} {
		if t.Set {
			trees = append(trees, rm.MaskTree(t.Paths))
		}
	}
	return
}

func (k kase) judge(err error, got, before proto.Message) (string, string) {
	must, may, want, trees := k.spec()
	if err != nil {
		if !must && !may {
			return "", fmt.Sprintf("rejected: %v", err)
		}
		c := status.Code(err)
		if c != codes.InvalidArgument && !(k.r.Set && c == codes.Internal && !rm.ValidPaths(k.old, k.r.Paths)) {
			return "", fmt.Sprintf("code: %v", err)
		}
		if before != nil && !proto.Equal(before, k.old) {
			return "", fmt.Sprintf("rejected-but-changed: now %v", rm.Text(before))
		}
		return "rejected", ""
	}
	if must {
		return "", fmt.Sprintf("accepted: an invalid or read-only mask was accepted, result %v", rm.Text(got))
	}
	if !proto.Equal(got, want) && !proto.Equal(rm.Canon(got, trees...), rm.Canon(want, trees...)) {
		return "", fmt.Sprintf("value: got %v want %v", rm.Text(got), rm.Text(want))
	}
	return rm.Text(want), ""
}

// updater runs the case on a bare FieldUpdater.
func (k kase) updater() (string, string) {
	w := k.w
	if k.all {
		w = rm.Mask{}
	} else if w.Set && k.more.Set {
		w = rm.MaskOf(append(append([]string{}, w.Paths...), k.more.Paths...)...)
	}
	u := masks.NewFieldUpdater(masks.WithUpdateMask(k.m.PB()), masks.WithWritableFields(w.PB()), masks.WithResetMask(k.r.PB()))
	dst := proto.Clone(k.old)
	src := proto.Clone(k.src)
	if err := u.Validate(src); err != nil {
		return k.judge(err, nil, dst)
	}
	u.Merge(dst, src)
	return k.judge(nil, dst, nil)
}

func (k kase) opts() []resource.WriteOption {
	var o []resource.WriteOption
	if k.m.Set {
		o = append(o, resource.WithUpdateMask(k.m.PB()))
	}
	if k.r.Set {
		o = append(o, resource.WithResetMask(k.r.PB()))
	}
	if k.more.Set {
		o = append(o, resource.WithMoreWritableFields(k.more.PB()))
	}
	if k.all {
		o = append(o, resource.WithAllFieldsWritable())
	}
	return o
}

func (k kase) ropts() []resource.Option {
	if k.w.Set {
		return []resource.Option{resource.WithWritableFields(k.w.PB())}
	}
	return nil
}

func (k kase) value() (string, string) {
	v := resource.NewValue(append(k.ropts(), resource.WithInitialValue(proto.Clone(k.old)))...)
	got, err := v.Set(proto.Clone(k.src), k.opts()...)
	now := v.Get()
	if err == nil && !proto.Equal(got, now) {
		return "", fmt.Sprintf("get: returned %v but Get gives %v", rm.Text(got), rm.Text(now))
	}
	return k.judge(err, got, now)
}

func (k kase) collection() (string, string) {
	c := resource.NewCollection(append(k.ropts(), resource.WithInitialRecord("a", proto.Clone(k.old)))...)
	got, err := c.Update("a", proto.Clone(k.src), k.opts()...)
	now, ok := c.Get("a")
	if !ok {
		return "", "get: item is gone"
	}
	if err == nil && !proto.Equal(got, now) {
		return "", fmt.Sprintf("get: returned %v but Get gives %v", rm.Text(got), rm.Text(now))
	}
	return k.judge(err, got, now)
}

var writables = []rm.Mask{
	{}, rm.MaskOf(),
	rm.MaskOf("default_string"),
	rm.MaskOf("default_nested_message"),
	rm.MaskOf("default_nested_message.a"),
	rm.MaskOf("default_nested_message.a", "default_nested_message.corecursive"),
	rm.MaskOf("default_nested_message.corecursive.default_string", "repeated_int32"),
	rm.MaskOf("default_string", "repeated_int32", "map_string_string", "default_nested_message.corecursive"),
	rm.MaskOf("default_nested_message", "default_nested_message.a", "default_string"),
	rm.MaskOf("default_int32"),
}

var resets = []rm.Mask{
	{}, rm.MaskOf("default_string"), rm.MaskOf("default_nested_message.corecursive"), rm.MaskOf("repeated_int32", "default_nested_message", "default_nested_message.a"), rm.MaskOf("bogus"),
}

func every[M proto.Message](e *hl.E, layer string, old, src []M, ms, ws, rs []rm.Mask, extra bool) {
	for _, m := range ms {
		for _, w := range ws {
			for _, r := range rs {
				for _, o := range old {
					if e.Stopped() {
						return
					}
					for _, s := range src {
						k := kase{old: o, src: s, m: m, w: w, r: r}
						run := k.updater
						switch layer {
						case "value":
							run = k.value
						case "collection":
							run = k.collection
						}
						if !e.Case(func() string { return layer + " " + k.String() }, func() (string, string) { hl.Step(1); return run() }) && e.Stopped() {
							return
						}
						if extra && w.Set {
							for _, k2 := range []kase{{old: o, src: s, m: m, w: w, r: r, more: rm.MaskOf("default_int32", "default_nested_message.a")}, {old: o, src: s, m: m, w: w, r: r, all: true}} {
								k2 := k2
								run := k2.value
								if layer == "collection" {
									run = k2.collection
								}
								e.Case(func() string { return layer + " " + k2.String() }, func() (string, string) { hl.Step(1); return run() })
							}
						}
					}
				}
			}
		}
	}
}

// fields tries every field of the message type, one at a time next to another.
func fields(e *hl.E) {
	t := &rm.T{}
	fs := t.ProtoReflect().Descriptor().Fields()
	set := func(fd protoreflect.FieldDescriptor, v int, other string, unknown bool) *rm.T {
		x := &rm.T{DefaultString: other}
		if v >= 0 {
			m := x.ProtoReflect()
			m.Set(fd, rm.FieldValue(m, fd, v))
		}
		if unknown {
			x.ProtoReflect().SetUnknown(protoreflect.RawFields{0xf8, 0x7f, byte(len(other) + 1)})
		}
		return x
	}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		n := string(fd.Name())
		if n == "default_string" {
			continue
		}
		sub := ""
		if fd.Message() != nil && !fd.IsList() && !fd.IsMap() {
			sub = n + "." + string(fd.Message().Fields().Get(0).Name())
		}
		for ov := -1; ov <= 2; ov++ {
			for sv := -1; sv <= 3; sv++ {
				if sv == 0 && (fd.IsList() || fd.IsMap()) || ov == 0 && (fd.IsList() || fd.IsMap()) {
					continue
				}
				for u := 0; u < 4; u++ {
					old, src := set(fd, ov, "o", u&1 != 0), set(fd, sv, "s", u&2 != 0)
					ms := []rm.Mask{{}, rm.MaskOf(), rm.MaskOf(n), rm.MaskOf("default_string"), rm.MaskOf(n, "default_string"), rm.MaskOf(n + "." + "x")}
					ws := []rm.Mask{{}, rm.MaskOf(n), rm.MaskOf("default_string")}
					rs := []rm.Mask{{}, rm.MaskOf(n)}
					if sub != "" {
						ms = append(ms, rm.MaskOf(sub), rm.MaskOf(sub, n))
						ws = append(ws, rm.MaskOf(sub))
						rs = append(rs, rm.MaskOf(sub))
					}
					every(e, "updater", []*rm.T{old}, []*rm.T{src}, ms, ws, rs, false)
					if u == 0 {
						every(e, "value", []*rm.T{old}, []*rm.T{src}, ms, ws, rs[:2], false)
					}
				}
			}
		}
	}
}

// traitFields is fields for the messages of the smart core traits.
func traitFields(e *hl.E) {
	var types []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		d := mt.Descriptor()
		n := string(d.Name())
		if strings.HasPrefix(string(d.FullName()), "smartcore.traits.") && !d.IsMapEntry() && !strings.HasSuffix(n, "Request") && !strings.HasSuffix(n, "Response") {
			types = append(types, mt)
		}
		return true
	})
	sort.Slice(types, func(i, j int) bool { return types[i].Descriptor().FullName() < types[j].Descriptor().FullName() })
	vals := []int{-1, 0, 1, 2, 3}
	for _, mt := range types {
		fs := mt.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			fd := fs.Get(i)
			n := string(fd.Name())
			var other protoreflect.FieldDescriptor
			for j := 1; j < fs.Len(); j++ {
				g := fs.Get((i + j) % fs.Len())
				if g.ContainingOneof() == nil || g.ContainingOneof() != fd.ContainingOneof() {
					other = g
					break
				}
			}
			set := func(v, o int) proto.Message {
				m := mt.New()
				if v >= 0 {
					m.Set(fd, rm.FieldValue(m, fd, v))
				}
				if other != nil {
					m.Set(other, rm.FieldValue(m, other, o))
				}
				return m.Interface()
			}
			ms := []rm.Mask{{}, rm.MaskOf(), rm.MaskOf(n), rm.MaskOf(n + ".x")}
			ws := []rm.Mask{{}, rm.MaskOf(n)}
			rs := []rm.Mask{{}, rm.MaskOf(n)}
			if other != nil {
				o := string(other.Name())
				ms = append(ms, rm.MaskOf(o), rm.MaskOf(o, n))
				ws = append(ws, rm.MaskOf(o))
			}
			if fd.Message() != nil && !fd.IsList() && !fd.IsMap() {
				subs := fd.Message().Fields()
				for j := 0; j < subs.Len() && j < 2; j++ {
					s := n + "." + string(subs.Get(j).Name())
					ms = append(ms, rm.MaskOf(s), rm.MaskOf(s, n))
					ws = append(ws, rm.MaskOf(s))
					if j == 0 {
						rs = append(rs, rm.MaskOf(s))
					}
				}
			}
			rep := fd.IsList() || fd.IsMap()
			for _, ov := range vals[:4] {
				for _, sv := range vals {
					if rep && (ov == 0 || sv == 0) {
						continue
					}
					if hl.Pick(1, 0) == 1 && (ov+sv)%2 == 0 && ov != sv {
						continue
					}
					every(e, "updater", []proto.Message{set(ov, 1)}, []proto.Message{set(sv, 2)}, ms, ws, rs, false)
					if sv >= 1 && ov <= 1 {
						every(e, "value", []proto.Message{set(ov, 1)}, []proto.Message{set(sv, 2)}, ms, ws, rs[:1], false)
					}
					if e.Stopped() {
						return
					}
				}
			}
		}
	}
}

// options applies lists of write options: the later update and reset masks win,
// "more" options add up, and "more update" needs a mask to add to.
func options(e *hl.E) {
	type opt struct {
		name  string
		o     func() resource.WriteOption
		apply func(k *kase)
	}
	upd := func(m rm.Mask, paths bool) opt {
		return opt{fmt.Sprintf("update%v/%v", m, paths), func() resource.WriteOption {
			if paths {
				return resource.WithUpdatePaths(m.Paths...)
			}
			return resource.WithUpdateMask(m.PB())
		}, func(k *kase) { k.m = m }}
	}
	moreUpd := func(paths bool, ps ...string) opt {
		return opt{fmt.Sprintf("moreUpdate%v/%v", ps, paths), func() resource.WriteOption {
			if paths {
				return resource.WithMoreUpdatePaths(ps...)
			}
			return resource.WithMoreUpdateMask(rm.MaskOf(ps...).PB())
		}, func(k *kase) {
			if k.m.Set {
				k.m = rm.MaskOf(append(append([]string{}, k.m.Paths...), ps...)...)
			}
		}}
	}
	reset := func(paths bool, ps ...string) opt {
		return opt{fmt.Sprintf("reset%v/%v", ps, paths), func() resource.WriteOption {
			if paths {
				return resource.WithResetPaths(ps...)
			}
			return resource.WithResetMask(rm.MaskOf(ps...).PB())
		}, func(k *kase) { k.r = rm.MaskOf(ps...) }}
	}
	moreW := func(paths bool, ps ...string) opt {
		return opt{fmt.Sprintf("moreWritable%v/%v", ps, paths), func() resource.WriteOption {
			if paths {
				return resource.WithMoreWritablePaths(ps...)
			}
			return resource.WithMoreWritableFields(rm.MaskOf(ps...).PB())
		}, func(k *kase) {
			k.more = rm.MaskOf(append(append([]string{}, k.more.Paths...), ps...)...)
		}}
	}
	const S, N, NA, NC, R, I = "default_string", "default_nested_message", "default_nested_message.a", "default_nested_message.corecursive", "repeated_int32", "default_int32"
	pool := []opt{
		upd(rm.Mask{}, false), upd(rm.MaskOf(), false), upd(rm.MaskOf(S), true), upd(rm.MaskOf(NA, R), false),
		moreUpd(true, NA), moreUpd(false, I), moreUpd(false, "bogus"),
		reset(true, NC), reset(false, R, S),
		moreW(true, S), moreW(false, NA), moreW(true, R), moreW(false),
		{"allWritable", func() resource.WriteOption { return resource.WithAllFieldsWritable() }, func(k *kase) { k.all = true }},
	}
	ws := []rm.Mask{{}, rm.MaskOf(), rm.MaskOf(I), rm.MaskOf(NC, S)}
	olds := []*rm.T{
		{},
		{DefaultString: "o", DefaultInt32: 1, RepeatedInt32: []int32{1}, DefaultNestedMessage: &rm.N{A: 1, Corecursive: &rm.T{DefaultString: "p"}}},
	}
	srcs := []*rm.T{
		{DefaultString: "s", DefaultInt32: 2, RepeatedInt32: []int32{2, 3}, DefaultNestedMessage: &rm.N{A: 2, Corecursive: &rm.T{DefaultString: "q", RepeatedInt32: []int32{4}}}},
		{RepeatedInt32: []int32{5}},
	}
	layers := []string{"value", "empty", "collection", "create", "add"}
	depth := hl.Pick(3, 4)
	var rec func(sel []opt)
	run := func(sel []opt) {
		for _, w := range ws {
			for _, old := range olds {
				for _, src := range srcs {
					for _, layer := range layers {
						if (layer == "empty" || layer == "create" || layer == "add") && old != olds[0] {
							continue // these start from nothing
						}
						k := kase{old: old, src: src, w: w}
						for _, o := range sel {
							o.apply(&k)
						}
						e.Case(func() string {
							s := layer + " " + k.String() + " opts="
							for _, o := range sel {
								s += o.name + " "
							}
							return s
						}, func() (string, string) {
							hl.Step(1)
							var os []resource.WriteOption
							for _, o := range sel {
								os = append(os, o.o())
							}
							return k.layer(layer, os)
						})
						if e.Stopped() {
							return
						}
					}
				}
			}
		}
	}
	rec = func(sel []opt) {
		run(sel)
		if len(sel) == depth {
			return
		}
		for _, o := range pool {
			if e.Stopped() {
				return
			}
			rec(append(append([]opt{}, sel...), o))
		}
	}
	rec(nil)
}

// layer writes with the given options to an existing or a missing value or item.
func (k kase) layer(layer string, os []resource.WriteOption) (string, string) {
	switch layer {
	case "value", "empty":
		o := k.ropts()
		if layer == "value" {
			o = append(o, resource.WithInitialValue(proto.Clone(k.old)))
		}
		v := resource.NewValue(o...)
		got, err := v.Set(proto.Clone(k.src), os...)
		now := v.Get()
		if layer == "empty" && err != nil {
			if now != nil && now.ProtoReflect().IsValid() {
				return "", fmt.Sprintf("rejected-but-changed: now %v", rm.Text(now))
			}
			return k.judge(err, nil, nil)
		}
		if err == nil && !proto.Equal(got, now) {
			return "", fmt.Sprintf("get: returned %v but Get gives %v", rm.Text(got), rm.Text(now))
		}
		return k.judge(err, got, now)
	}
	o := k.ropts()
	if layer == "collection" {
		o = append(o, resource.WithInitialRecord("a", proto.Clone(k.old)))
	}
	c := resource.NewCollection(o...)
	var got proto.Message
	var err error
	switch layer {
	case "collection":
		got, err = c.Update("a", proto.Clone(k.src), os...)
	case "create":
		got, err = c.Update("a", proto.Clone(k.src), append(os, resource.WithCreateIfAbsent())...)
	case "add":
		got, err = c.Add("a", proto.Clone(k.src), os...)
	}
	now, ok := c.Get("a")
	if layer != "collection" && err != nil {
		if ok {
			return "", fmt.Sprintf("rejected-but-changed: item exists: %v", rm.Text(now))
		}
		return k.judge(err, nil, nil)
	}
	if !ok {
		return "", "get: item is gone"
	}
	if err == nil && !proto.Equal(got, now) {
		return "", fmt.Sprintf("get: returned %v but Get gives %v", rm.Text(got), rm.Text(now))
	}
	return k.judge(err, got, now)
}

func pick(x []*rm.T, every int) []*rm.T {
	var out []*rm.T
	for i := range x {
		if i%every == every-1 || i == 0 || i == len(x)-1 {
			out = append(out, x[i])
		}
	}
	return out
}

// many has masks of many paths and of long ones, on large messages.
func many(e *hl.E) {
	depth := hl.Pick(9, 17)
	bm := rm.BigMasks(depth)
	valid := []rm.Mask{}
	for _, m := range bm {
		if rm.ValidPaths(&rm.T{}, m.Paths) {
			valid = append(valid, m)
		}
	}
	olds := []*rm.T{{}, rm.Big(1, depth, 3), rm.Big(2, depth-2, 40)}
	srcs := []*rm.T{{}, rm.Big(2, depth, 20), rm.Big(3, depth/2, 0)}
	for i, m := range bm {
		none := []rm.Mask{{}}
		every(e, "updater", olds, srcs, []rm.Mask{m}, none, none, false)
		every(e, "value", olds[1:2], srcs[1:2], []rm.Mask{m}, none, none, false)
		every(e, "collection", olds[2:], srcs[1:], []rm.Mask{m}, none, none, false)
		// another of them as what is writable, or reset
		for k := 0; k < hl.Pick(6, 24); k++ {
			o := valid[(i*7+k*13)%len(valid)]
			every(e, "updater", olds[1:], srcs[1:], []rm.Mask{{}, m}, []rm.Mask{o}, none, false)
			every(e, "updater", olds[1:], srcs, []rm.Mask{{}, o}, none, []rm.Mask{m}, false)
			if k == 0 {
				every(e, "value", olds[1:2], srcs[1:], []rm.Mask{{}, m}, []rm.Mask{o}, []rm.Mask{{}, valid[(i+k)%len(valid)]}, true)
				every(e, "collection", olds[1:2], srcs[2:], []rm.Mask{{}, m}, []rm.Mask{o}, none, true)
			}
		}
		if e.Stopped() {
			return
		}
	}
}

func main() {
	hl.Main("C05", func() []hl.Scenario {
		n := hl.Pick(2, 3)
		ms := rm.Subsets(rm.Paths, n)
		msV := rm.Subsets(rm.Paths[:12], 2)
		return []hl.Scenario{
			{Name: "fields", Shards: 8, Enum: fields},
			{Name: "many", Shards: 16, Enum: many},
			{Name: "traits", Shards: 16, Enum: traitFields},
			{Name: "options", Shards: 16, Enum: options},
			{Name: "updater", Shards: 16, Enum: func(e *hl.E) {
				every(e, "updater", rm.Small(false), pick(rm.Small(true), hl.Pick(3, 1)), ms, writables, resets, false)
			}},
			{Name: "value", Shards: 16, Enum: func(e *hl.E) {
				every(e, "value", pick(rm.Small(false), hl.Pick(5, 1)), pick(rm.Small(true), hl.Pick(7, 2)), msV, writables, resets, true)
			}},
			{Name: "collection", Shards: 16, Enum: func(e *hl.E) {
				every(e, "collection", pick(rm.Small(false), hl.Pick(5, 1)), pick(rm.Small(true), hl.Pick(7, 2)), msV, writables, resets, true)
			}},
		}
	})
}
