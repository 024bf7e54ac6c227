package main

import (
	"fmt"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/ts"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// op is a change to the register.
type op struct {
	label string
	// resp is the register's resource if the operation answers with it.
	do    func(w *world) (resp proto.Message, err error)
	check func(before, after view) string
}

// rpc is an operation made by a request; answers says whether the response is the resource.
func rpc(method string, req proto.Message) op {
	return op{label: fmt.Sprintf("%s{%s}", method, short(req)), do: func(w *world) (proto.Message, error) {
		req := proto.Clone(req)
		if f := ts.NameField(req.ProtoReflect().Type()); f != nil && !req.ProtoReflect().Has(f) {
			ts.Named(req, devA)
		}
		res, err := w.call(method, req)
		if err != nil {
			return nil, err
		}
		if strings.HasPrefix(method, "Delete") {
			return nil, nil
		}
		if res.ProtoReflect().Descriptor() == w.reg.typ() {
			return res, nil
		}
		rf := res.ProtoReflect()
		for i := 0; i < rf.Descriptor().Fields().Len(); i++ {
			if f := rf.Descriptor().Fields().Get(i); f.Message() == w.reg.typ() && !f.IsList() && !f.IsMap() {
				return rf.Get(f).Message().Interface(), nil
			}
		}
		return nil, nil
	}}
}

// local is an operation made on the model, for traits without an update method.
func local(label string, f func(model any) (proto.Message, error)) op {
	return op{label: label, do: func(w *world) (proto.Message, error) { return f(w.model) }}
}

func (r *register) typ() protoreflect.MessageDescriptor { return r.res.ProtoReflect().Descriptor() }

func (r *register) resType() protoreflect.MessageType {
	t, err := protoregistry.GlobalTypes.FindMessageByName(r.typ().FullName())
	if err != nil {
		panic(err)
	}
	return t
}

// body puts the register's key into a resource.
func (r *register) body(m proto.Message) proto.Message {
	m = proto.Clone(m)
	if r.setKey != nil {
		r.setKey(m, r.key)
	}
	return m
}

// bodies are resources to write.
func (r *register) bodies() []proto.Message {
	t := r.resType()
	var out []proto.Message
	for _, m := range r.domain {
		out = append(out, m)
	}
	out = append(out, r.body(t.New().Interface()), r.body(ts.Full(t, 1)), r.body(ts.Full(t, 2)))
	for _, m := range ts.Singles(t, 1) {
		out = append(out, r.body(m))
	}
	return out
}

// paths lists field paths of the resource: all top level ones and some nested.
func (r *register) paths() (top, nested []string) {
	fs := r.typ().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		top = append(top, string(f.Name()))
		if f.Message() == nil || f.IsList() || f.IsMap() {
			continue
		}
		sub := f.Message().Fields()
		for j := 0; j < sub.Len() && j < 3; j++ {
			nested = append(nested, string(f.Name())+"."+string(sub.Get(j).Name()))
		}
	}
	return top, append(nested, r.nested...)
}

// writeMasks are update masks.
func (r *register) writeMasks() []rm.Mask {
	top, nested := r.paths()
	out := []rm.Mask{{}, rm.MaskOf()}
	for _, p := range append(append([]string(nil), top...), nested...) {
		out = append(out, rm.MaskOf(p))
	}
	out = append(out, rm.MaskOf(top...), rm.MaskOf("nope"), rm.MaskOf(top[0], "nope"), rm.MaskOf(top[0]+".nope"), rm.MaskOf(r.writeMask...))
	if len(top) > 1 {
		out = append(out, rm.MaskOf(top[1], top[0]))
	}
	return out
}

// readMasks are masks for reading; masks of a collection keep the id.
func (r *register) readMasks(pairs bool) []rm.Mask {
	top, nested := r.paths()
	out := []rm.Mask{{}}
	if r.idPath == "" {
		out = append(out, rm.MaskOf())
	}
	add := func(ps ...string) {
		if r.idPath != "" {
			ps = append([]string{r.idPath}, ps...)
		}
		out = append(out, rm.MaskOf(ps...))
	}
	for _, p := range append(append([]string(nil), top...), nested...) {
		add(p)
	}
	if pairs {
		all := append(append([]string(nil), top...), nested...)
		for i, p := range all {
			for _, q := range all[i+1:] {
				add(p, q)
			}
		}
	}
	return out
}

// updates builds every update: body x mask x flags.
func (r *register) updates() (out []op) {
	if r.write != nil {
		for _, b := range r.bodies() {
			for _, k := range r.writeMasks() {
				b, k := b, k
				out = append(out, local(fmt.Sprintf("write{%s}mask=%v", short(b), k), func(m any) (proto.Message, error) {
					var opts []resource.WriteOption
					if k.Set {
						opts = append(opts, resource.WithUpdateMask(k.PB()))
					}
					return r.write(m, proto.Clone(b), opts...)
				}))
			}
		}
	}
	if r.update == "" {
		return
	}
	m, _ := r.method(r.update)
	fs := m.In.Descriptor().Fields()
	var body, mask protoreflect.FieldDescriptor
	var flags []protoreflect.FieldDescriptor
	for i := 0; i < fs.Len(); i++ {
		switch f := fs.Get(i); {
		case f.Name() == "update_mask":
			mask = f
		case f.Message() == r.typ() && !f.IsList():
			body = f
		case f.Kind() == protoreflect.BoolKind:
			flags = append(flags, f)
		}
	}
	for _, b := range append(r.bodies(), nil) {
		for _, k := range r.writeMasks() {
			for fl := 0; fl < 1<<len(flags); fl++ {
				req := m.In.New()
				if b != nil {
					req.Set(body, protoreflect.ValueOfMessage(b.ProtoReflect()))
				}
				if k.Set {
					if mask == nil {
						continue
					}
					req.Set(mask, protoreflect.ValueOfMessage(k.PB().ProtoReflect()))
				}
				for i, f := range flags {
					if fl&(1<<i) != 0 {
						req.Set(f, protoreflect.ValueOfBool(true))
					}
				}
				out = append(out, rpc(r.update, req.Interface()))
			}
		}
	}
	return
}

// alphabet are the operations of histories.
func (r *register) alphabet() (out []op) {
	if r.ops != nil {
		return r.ops
	}
	write := func(b proto.Message, ps ...string) {
		if r.write != nil {
			out = append(out, local(fmt.Sprintf("write{%s}%v", short(b), ps), func(m any) (proto.Message, error) {
				var opts []resource.WriteOption
				if len(ps) > 0 {
					opts = append(opts, resource.WithUpdatePaths(ps...))
				}
				return r.write(m, proto.Clone(b), opts...)
			}))
			return
		}
		if r.update == "" {
			return
		}
		m, _ := r.method(r.update)
		req := m.In.New()
		fs := m.In.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			if f := fs.Get(i); f.Message() == r.typ() {
				req.Set(f, protoreflect.ValueOfMessage(b.ProtoReflect()))
			}
		}
		if len(ps) > 0 {
			f := fs.ByName("update_mask")
			if f == nil {
				return
			}
			req.Set(f, protoreflect.ValueOfMessage(rm.MaskOf(ps...).PB().ProtoReflect()))
		}
		out = append(out, rpc(r.update, req.Interface()))
	}
	t := r.resType()
	if len(r.domain) == 0 {
		write(r.body(ts.Full(t, 1)))
		write(r.body(ts.Full(t, 2)))
		write(r.body(ts.Full(t, 3)), string(t.Descriptor().Fields().Get(0).Name()))
	}
	for _, b := range r.domain {
		write(b)
	}
	write(r.body(t.New().Interface()), "nope") // rejected
	return append(out, r.extra...)
}
