package main

import (
	"context"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

type T = testproto.TestAllTypes
type N = testproto.TestAllTypes_NestedMessage

// valueModel and collectionModel give the core resources the shape of the trait models.
type valueModel struct{ v *resource.Value }

func (m *valueModel) GetValue(opts ...resource.ReadOption) *T {
	t, _ := m.v.Get(opts...).(*T)
	return t
}

func (m *valueModel) UpdateValue(t *T, opts ...resource.WriteOption) (*T, error) {
	r, err := m.v.Set(t, opts...)
	x, _ := r.(*T)
	return x, err
}

func (m *valueModel) PullValue(ctx context.Context, opts ...resource.ReadOption) <-chan *resource.ValueChange {
	return m.v.Pull(ctx, opts...)
}

type collectionModel struct{ c *resource.Collection }

func (m *collectionModel) GetItem(id string, opts ...resource.ReadOption) (*T, bool) {
	r, ok := m.c.Get(id, opts...)
	x, _ := r.(*T)
	return x, ok
}

func (m *collectionModel) ListItems(opts ...resource.ReadOption) (out []*T) {
	for _, r := range m.c.List(opts...) {
		out = append(out, r.(*T))
	}
	return
}

func (m *collectionModel) AddItem(id string, t *T, opts ...resource.WriteOption) (*T, error) {
	r, err := m.c.Add(id, t, opts...)
	x, _ := r.(*T)
	return x, err
}

func (m *collectionModel) UpdateItem(id string, t *T, opts ...resource.WriteOption) (*T, error) {
	r, err := m.c.Update(id, t, opts...)
	x, _ := r.(*T)
	return x, err
}

func (m *collectionModel) DeleteItem(id string, opts ...resource.WriteOption) (*T, error) {
	r, err := m.c.Delete(id, opts...)
	x, _ := r.(*T)
	return x, err
}

func (m *collectionModel) PullItems(ctx context.Context, opts ...resource.ReadOption) <-chan *resource.CollectionChange {
	return m.c.Pull(ctx, opts...)
}

func (m *collectionModel) PullItem(ctx context.Context, id string, opts ...resource.ReadOption) <-chan *resource.ValueChange {
	return m.c.PullID(ctx, id, opts...)
}

func rich(s string) *T {
	return &T{
		DefaultString: s, DefaultInt32: int32(len(s)), DefaultBytes: []byte("bytes" + s), OptionalInt32: i32(4), OptionalString: &s,
		DefaultNestedMessage:   &N{A: 2, Corecursive: &T{DefaultString: s, RepeatedInt32: []int32{7, 8}, DefaultNestedMessage: &N{A: 5}}},
		OneofDefault:           &testproto.TestAllTypes_OneofDefaultNestedMessage{OneofDefaultNestedMessage: &N{A: 3}},
		RepeatedInt32:          []int32{1, 2},
		RepeatedBytes:          [][]byte{[]byte("r" + s)},
		RepeatedNestedMessage:  []*N{{A: 1}, {A: 2, Corecursive: &T{DefaultString: s}}},
		MapStringString:        map[string]string{"k": s},
		MapStringBytes:         map[string][]byte{"k": []byte("m" + s)},
		MapStringNestedMessage: map[string]*N{"k": {A: 4, Corecursive: &T{RepeatedInt32: []int32{6}}}, s: {}},
	}
}

func coreMsgs() []pm {
	return []pm{
		rich("x"),
		&T{DefaultString: "y", DefaultNestedMessage: &N{Corecursive: &T{DefaultBytes: []byte("deep")}}, RepeatedNestedMessage: []*N{{A: 9}},
			MapStringNestedMessage: map[string]*N{"k": {A: 1}, "l": {A: 2}}, OneofDefault: &testproto.TestAllTypes_OneofDefaultInt32{OneofDefaultInt32: 3}},
		&T{RepeatedBytes: [][]byte{[]byte("p"), []byte("q")}, MapStringBytes: map[string][]byte{"z": []byte("zz")}},
	}
}

func coreOpts(extra bool) (out []wopt) {
	add := func(label string, f func(c *sub0) []resource.WriteOption) { out = append(out, wopt{label, f}) }
	is := func(o ...resource.WriteOption) func(*sub0) []resource.WriteOption {
		return func(*sub0) []resource.WriteOption { return o }
	}
	for _, p := range []string{"default_nested_message.a", "default_nested_message.corecursive.repeated_int32", "default_nested_message", "repeated_nested_message", "map_string_nested_message",
		"map_string_bytes", "default_bytes", "repeated_bytes", "oneof_default_nested_message", "oneof_default_int32"} {
		add("mask "+p, is(resource.WithUpdatePaths(p)))
		add("reset "+p, is(resource.WithUpdatePaths("default_string"), resource.WithResetPaths(p)))
	}
	add("mask more", is(resource.WithUpdatePaths("default_nested_message"), resource.WithMoreUpdatePaths("repeated_bytes")))
	add("writable", is(resource.WithMoreWritablePaths("repeated_bytes", "map_string_bytes")))
	add("all writable", is(resource.WithAllFieldsWritable()))
	relative := is(resource.WithUpdatePaths("default_int32", "repeated_int32"), resource.InterceptBefore(func(old, value proto.Message) {
		if !isNil(old) {
			value.(*T).DefaultInt32 += old.(*T).DefaultInt32
			value.(*T).RepeatedInt32 = append(append([]int32{}, old.(*T).RepeatedInt32...), 5)
		}
	}))
	add("mask relative", func(c *sub0) []resource.WriteOption {
		if c.read {
			return nil // interceptors change what the caller gave
		}
		return relative(c)
	})
	add("mask computed", is(resource.WithUpdatePaths("default_bytes"), resource.InterceptAfter(func(old, value proto.Message) {
		v := value.(*T)
		v.DefaultString = "computed"
		v.RepeatedNestedMessage = append(v.RepeatedNestedMessage, &N{A: 77})
		if v.DefaultNestedMessage != nil {
			v.DefaultNestedMessage.A++
		}
		for _, e := range v.MapStringNestedMessage {
			e.A += 10
		}
		if len(v.DefaultBytes) > 0 {
			v.DefaultBytes[0]++
		}
	})))
	add("check", is(resource.WithExpectedCheck(func(m proto.Message) error { use(m); return nil })))
	add("mask readers", is(resource.WithUpdatePaths("default_nested_message", "repeated_bytes"),
		resource.InterceptBefore(func(old, value proto.Message) { use(old); use(value) }),
		resource.InterceptAfter(func(old, value proto.Message) { use(old); use(value) })))
	add("expect as is", func(c *sub0) []resource.WriteOption {
		var cur pm
		switch m := c.w.model.(type) {
		case *valueModel:
			cur = m.v.Get()
		case *collectionModel:
			cur, _ = m.c.Get("a")
		}
		if isNil(cur) {
			return nil
		}
		e := proto.Clone(cur)
		*c.mine = append(*c.mine, e)
		return []resource.WriteOption{resource.WithExpectedValue(e)}
	})
	if extra {
		add("gen", is(resource.WithGenIDIfAbsent(), resource.WithCreateIfAbsent(), resource.WithCreatedCallback(func() {})))
		add("gen callback", func(c *sub0) []resource.WriteOption {
			return []resource.WriteOption{resource.WithGenIDIfAbsent(), resource.WithCreateIfAbsent(), resource.WithIDCallback(func(string) {}), resource.WithCreatedCallback(func() {})}
		})
		add("absent", is(resource.WithExpectAbsent(), resource.WithCreateIfAbsent()))
	}
	return
}

func coreSpecs() (out []*spec) {
	for _, cfg := range []struct {
		name string
		opts func() []resource.Option
	}{
		{"plain", func() []resource.Option { return nil }},
		{"writable", func() []resource.Option {
			return []resource.Option{resource.WithWritablePaths(&T{}, "default_string", "default_int32", "default_nested_message", "repeated_nested_message", "repeated_int32", "default_bytes", "map_string_nested_message")}
		}},
		{"noduplicates", func() []resource.Option { return []resource.Option{resource.WithNoDuplicates()} }},
	} {
		cfg := cfg
		out = append(out,
			&spec{name: "value" + cfg.name, always: []string{"UpdateValue(#0)", "UpdateValue(#1, mask readers)", "UpdateValue(as read)"}, res: (&T{}).ProtoReflect().Descriptor(), mk: func() (any, any) {
				return &valueModel{resource.NewValue(append(cfg.opts(), resource.WithInitialValue(rich("0")))...)}, nil
			}, msgs: coreMsgs, wopts: coreOpts(false)},
			&spec{name: "collection" + cfg.name, always: []string{"AddItem(, #0, gen)", "AddItem(, #1, gen callback)", "AddItem(c, #1)", "UpdateItem(a, #0)", "UpdateItem(a, #0, mask readers)", "UpdateItem(a, as read)", "DeleteItem(a)"}, res: (&T{}).ProtoReflect().Descriptor(), mk: func() (any, any) {
				return &collectionModel{resource.NewCollection(append(cfg.opts(), resource.WithInitialRecord("a", rich("0")), resource.WithInitialRecord("b", &T{DefaultString: "b"}))...)}, nil
			}, keys: map[string][]string{"": {"a", "c"}, "AddItem": {"a", "c", ""}}, msgs: coreMsgs, wopts: coreOpts(true)},
		)
	}
	out = append(out, &spec{name: "valueempty", res: (&T{}).ProtoReflect().Descriptor(), mk: func() (any, any) {
		return &valueModel{resource.NewValue()}, nil
	}, msgs: coreMsgs, wopts: coreOpts(false)})
	return out
}
