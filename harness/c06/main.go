// C06: reads return exactly the read-mask projection and never mutate.
package main

import (
	"context"
	"fmt"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/masks"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func bytesOf(m proto.Message) string {
	if m == nil {
		return "<nil>"
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

type judge struct {
	m     rm.Mask
	valid bool
	tree  rm.Tree
}

func newJudge(m rm.Mask) judge {
	return judge{m: m, valid: rm.ValidPaths(&rm.T{}, m.Paths), tree: rm.MaskTree(m.Paths)}
}

// check compares one masked read of full.
func (j judge) check(where string, got, full proto.Message) string {
	if full == nil {
		if got != nil {
			return fmt.Sprintf("%s: got %v for nothing", where, rm.Text(got))
		}
		return ""
	}
	if !j.valid {
		return ""
	}
	if got == nil {
		return fmt.Sprintf("%s: got nothing for %v", where, rm.Text(full))
	}
	want := full
	if j.m.Set {
		want = rm.Project(full, j.tree)
	}
	if !proto.Equal(rm.Canon(got, j.tree), rm.Canon(want, j.tree)) {
		return fmt.Sprintf("%s: got %v want %v (mask %v of %v)", where, rm.Text(got), rm.Text(want), j.m, rm.Text(full))
	}
	return ""
}

func filterCase(m rm.Mask, msg *rm.T) (string, string) {
	j := newJudge(m)
	f := masks.NewResponseFilter(masks.WithFieldMask(m.PB()))
	before := bytesOf(msg)
	err := f.Validate(msg)
	if m.Set && (err == nil) != j.valid {
		return "", fmt.Sprintf("validate: error %v though valid=%v", err, j.valid)
	}
	if !m.Set && err != nil {
		return "", fmt.Sprintf("validate: nil mask: %v", err)
	}
	got := f.FilterClone(msg)
	if bytesOf(msg) != before {
		return "", fmt.Sprintf("mutated: FilterClone changed its argument to %v", rm.Text(msg))
	}
	if s := j.check("filter-clone", got, msg); s != "" {
		return "", s
	}
	cp := proto.Clone(msg)
	f.Filter(cp)
	if s := j.check("filter", cp, msg); s != "" {
		return "", s
	}
	if f.FilterClone(nil) != nil {
		return "", "nil: FilterClone(nil) is not nil"
	}
	f.Filter(nil)
	return rm.Text(got), ""
}

func read(m rm.Mask) []resource.ReadOption {
	if !m.Set {
		return nil
	}
	return []resource.ReadOption{resource.WithReadMask(m.PB())}
}

// resources runs masked reads of every kind over a resource holding old and
// then new.
func resources(m rm.Mask, old, new *rm.T) (string, string) {
	return hl.Single(func() (string, string) {
		j := newJudge(m)
		// Value
		v := resource.NewValue(resource.WithInitialValue(proto.Clone(old)))
		s0 := bytesOf(old)
		if s := j.check("value-get", v.Get(read(m)...), old); s != "" {
			return "", s
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var vals []*resource.ValueChange
		vch := v.Pull(ctx, append(read(m), resource.WithBackpressure(true))...)
		go func() {
			for c := range vch {
				vals = append(vals, c)
			}
		}()
		vrt.Quiesce()
		if bytesOf(v.Get()) != s0 {
			return "", "mutated: reading a Value changed it"
		}
		if _, err := v.Set(proto.Clone(new)); err != nil {
			return "", "set: " + err.Error()
		}
		vrt.Quiesce()
		if len(vals) != 2 {
			return "", fmt.Sprintf("value-pull: %d changes", len(vals))
		}
		for i, full := range []proto.Message{old, new} {
			if s := j.check("value-pull", vals[i].Value, full); s != "" {
				return "", s
			}
		}
		if bytesOf(v.Get()) != bytesOf(new) {
			return "", "mutated: pulling a Value changed it"
		}
		// Collection
		c := resource.NewCollection(resource.WithInitialRecord("a", proto.Clone(old)), resource.WithInitialRecord("b", proto.Clone(new)))
		for id, full := range map[string]proto.Message{"a": old, "b": new} {
			g, _ := c.Get(id, read(m)...)
			if s := j.check("collection-get", g, full); s != "" {
				return "", s
			}
		}
		for i, g := range c.List(read(m)...) {
			if s := j.check("list", g, []proto.Message{old, new}[i]); s != "" {
				return "", s
			}
		}
		var chs []*resource.CollectionChange
		cch := c.Pull(ctx, append(read(m), resource.WithBackpressure(true))...)
		go func() {
			for c := range cch {
				chs = append(chs, c)
			}
		}()
		var ids []*resource.ValueChange
		ich := c.PullID(ctx, "a", append(read(m), resource.WithBackpressure(true))...)
		go func() {
			for c := range ich {
				ids = append(ids, c)
			}
		}()
		vrt.Quiesce()
		c.Update("a", proto.Clone(new))
		c.Add("c", proto.Clone(old))
		c.Delete("b")
		vrt.Quiesce()
		want := []struct {
			id       string
			t        types.ChangeType
			old, new proto.Message
		}{
			{"a", types.ChangeType_ADD, nil, old}, {"b", types.ChangeType_ADD, nil, new},
			{"a", types.ChangeType_UPDATE, old, new}, {"c", types.ChangeType_ADD, nil, old}, {"b", types.ChangeType_REMOVE, new, nil},
		}
		if len(chs) != len(want) {
			return "", fmt.Sprintf("collection-pull: %d changes", len(chs))
		}
		for i, w := range want {
			if chs[i].Id != w.id || chs[i].ChangeType != w.t {
				return "", fmt.Sprintf("collection-pull: change %d is %v %v", i, chs[i].Id, chs[i].ChangeType)
			}
			if s := j.check("collection-pull-new", chs[i].NewValue, w.new); s != "" {
				return "", s
			}
			if s := j.check("collection-pull-old", chs[i].OldValue, w.old); s != "" {
				return "", s
			}
		}
		if len(ids) != 2 {
			return "", fmt.Sprintf("pull-id: %d changes", len(ids))
		}
		for i, full := range []proto.Message{old, new} {
			if s := j.check("pull-id", ids[i].Value, full); s != "" {
				return "", s
			}
		}
		for id, full := range map[string]proto.Message{"a": new, "c": old} {
			g, _ := c.Get(id)
			if bytesOf(g) != bytesOf(full) {
				return "", "mutated: reading a Collection changed " + id
			}
		}
		return rm.Text(vals[0].Value) + rm.Text(vals[1].Value), ""
	})
}

func universe() []*rm.T {
	out := rm.Small(false)
	out = append(out, rm.Small(true)...)
	out = append(out,
		&rm.T{DefaultString: "s", RepeatedNestedMessage: []*rm.N{{A: 1}, {A: 2, Corecursive: &rm.T{DefaultString: "x"}}}, MapStringNestedMessage: map[string]*rm.N{"k": {A: 3}}},
		&rm.T{RepeatedInt32: []int32{1, 2}, MapStringString: map[string]string{"k": "v"}, DefaultInt32: 4},
	)
	return out
}

func fields(e *hl.E) {
	t := &rm.T{}
	fs := t.ProtoReflect().Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		n := string(fd.Name())
		for v := -1; v <= 3; v++ {
			for u := 0; u < 2; u++ {
				x := &rm.T{DefaultString: "s"}
				if n != "default_string" && v >= 0 {
					m := x.ProtoReflect()
					m.Set(fd, rm.FieldValue(m, fd, v))
				}
				if u == 1 {
					x.ProtoReflect().SetUnknown(protoreflect.RawFields{0xf8, 0x7f, 2})
				}
				ms := []rm.Mask{{}, rm.MaskOf(), rm.MaskOf(n), rm.MaskOf("default_string"), rm.MaskOf(n, "default_string"), rm.MaskOf("default_string", n+".x"), rm.MaskOf(n + ".x"), rm.MaskOf(n + ".0"), rm.MaskOf(n + ".a"), rm.MaskOf(n+".a.b", n+"."), rm.MaskOf("." + n), rm.MaskOf(n + ".key"), rm.MaskOf("default_bool")}
				if fd.Message() != nil && !fd.IsMap() {
					sf := fd.Message().Fields()
					for k := 0; k < sf.Len() && k < 3; k++ {
						ms = append(ms, rm.MaskOf(n+"."+string(sf.Get(k).Name())), rm.MaskOf(n, n+"."+string(sf.Get(k).Name())))
					}
				}
				for _, m := range ms {
					m := m
					e.Case(func() string { return fmt.Sprintf("mask=%v msg=%v", m, rm.Text(x)) }, func() (string, string) {
						hl.Step(3)
						if o, f := filterCase(m, x); f != "" {
							return o, f
						}
						return resources(m, x, &rm.T{DefaultString: "new"})
					})
				}
			}
		}
	}
}

var _ = time.Now

func main() {
	hl.Main("C06", func() []hl.Scenario {
		ms := rm.Subsets(rm.Paths, hl.Pick(2, 3))
		ms3 := rm.Subsets(rm.Paths, 3)
		us := universe()
		return []hl.Scenario{
			{Name: "fields", Shards: 8, Enum: fields},
			{Name: "many", Shards: 8, Enum: func(e *hl.E) {
				// masks of many paths and of long ones, on large messages
				depth := hl.Pick(9, 17)
				xs := []*rm.T{{}, rm.Big(1, depth, 3), rm.Big(2, depth/2, 0), rm.Big(3, depth-1, hl.Pick(40, 150))}
				for _, m := range rm.BigMasks(depth) {
					for i, x := range xs {
						if !e.Case(func() string { return fmt.Sprintf("mask=%v msg=%v", m, rm.Text(x)) }, func() (string, string) {
							hl.Step(15)
							if o, f := filterCase(m, x); f != "" {
								return o, f
							}
							return resources(m, x, xs[(i+1)%len(xs)])
						}) {
							return
						}
					}
				}
			}},
			{Name: "filter", Shards: 8, Enum: func(e *hl.E) {
				for _, m := range ms3 {
					for _, x := range us {
						m, x := m, x
						if !e.Case(func() string { return fmt.Sprintf("mask=%v msg=%v", m, rm.Text(x)) }, func() (string, string) {
							hl.Step(3)
							return filterCase(m, x)
						}) {
							return
						}
					}
				}
			}},
			{Name: "resources", Shards: 16, Enum: func(e *hl.E) {
				for _, m := range ms {
					for i, x := range us {
						for k, y := range us {
							if !hl.Thorough() && (i*31+k)%11 != 0 || hl.Thorough() && (i+k)%7 != 0 {
								continue
							}
							m, x, y := m, x, y
							if !e.Case(func() string { return fmt.Sprintf("mask=%v old=%v new=%v", m, rm.Text(x), rm.Text(y)) }, func() (string, string) {
								hl.Step(12)
								return resources(m, x, y)
							}) {
								return
							}
						}
					}
				}
			}},
		}
	})
}
