package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/internal/verif/ts"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// paths picks masks for a message type: a nested leaf, a list or map, a whole message.
func paths(d protoreflect.MessageDescriptor) (out [][]string) {
	var nested, list, whole, leaf string
	fs := d.Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		n := string(f.Name())
		switch {
		case f.IsList() || f.IsMap():
			if list == "" {
				list = n
			}
		case f.Message() != nil:
			if nested == "" {
				nested = n + "." + string(f.Message().Fields().Get(f.Message().Fields().Len()-1).Name())
			} else if whole == "" {
				whole = n
			}
		default:
			leaf = n
		}
	}
	for _, p := range []string{nested, list, whole, leaf} {
		if p != "" && len(out) < 3 {
			out = append(out, []string{p})
		}
	}
	return
}

// args is one list of arguments: each is a function, as messages are made for every call.
type args struct {
	label string
	fs    []func(c *sub0) reflect.Value
}

func (a args) vals(c *sub0) (out []reflect.Value) {
	for _, f := range a.fs {
		v := f(c)
		if v.IsValid() {
			if v.Kind() == reflect.Slice && (v.Type().Elem() == tWrite || v.Type().Elem() == tRead || v.Type().Elem().Kind() == reflect.String) {
				for i := 0; i < v.Len(); i++ {
					out = append(out, v.Index(i))
				}
				continue
			}
			out = append(out, v)
		}
	}
	return
}

func constant(v any) func(*sub0) reflect.Value {
	return func(*sub0) reflect.Value { return reflect.ValueOf(v) }
}

type choice struct {
	label string
	f     func(*sub0) reflect.Value
}

// argLists lists the argument lists for a method. plain: only those for an ordinary read.
func (sp *spec) argLists(m reflect.Method, res protoreflect.MessageDescriptor, plain bool) []args {
	t := m.Type
	all := []args{{}}
	for i := 1; i < t.NumIn(); i++ {
		cs := sp.choices(m, t.In(i), i == t.NumIn()-1 && t.IsVariadic(), res, plain)
		var next []args
		for _, a := range all {
			for _, c := range cs {
				b := args{label: a.label, fs: append(append([]func(*sub0) reflect.Value{}, a.fs...), c.f)}
				if c.label != "" {
					if b.label != "" {
						b.label += ", "
					}
					b.label += c.label
				}
				next = append(next, b)
			}
		}
		all = next
	}
	return all
}

func (sp *spec) choices(m reflect.Method, t reflect.Type, variadic bool, res protoreflect.MessageDescriptor, plain bool) (out []choice) {
	add := func(label string, v any) { out = append(out, choice{label, constant(v)}) }
	switch {
	case t == tCtx:
		out = append(out, choice{"", func(c *sub0) reflect.Value { return reflect.ValueOf(c.w.ctx) }})
	case variadic && t.Elem() == tRead:
		add("", []resource.ReadOption{})
		if plain {
			return
		}
		if res != nil {
			for _, p := range paths(res) {
				p := p
				add("mask "+strings.Join(p, ","), []resource.ReadOption{resource.WithReadMask(&fieldmaskpb.FieldMask{Paths: p})})
			}
		}
		if strings.HasPrefix(m.Name, "Pull") {
			add("updates only", []resource.ReadOption{resource.WithUpdatesOnly(true)})
			add("lossy", []resource.ReadOption{resource.WithBackpressure(false)})
		}
	case variadic && t.Elem() == tWrite:
		add("", []resource.WriteOption{})
		wo := func(label string, o ...resource.WriteOption) { add(label, o) }
		wo("create", resource.WithCreateIfAbsent())
		wo("allow missing", resource.WithAllowMissing(true))
		if res != nil {
			ps := paths(res)
			for _, p := range ps {
				wo("mask "+strings.Join(p, ","), resource.WithUpdatePaths(p...))
			}
			wo("reset "+ps[0][0], resource.WithResetPaths(ps[0]...), resource.WithUpdatePaths(ps[len(ps)-1]...))
			n := dynamic(res)
			out = append(out, choice{"expect", func(c *sub0) reflect.Value {
				// a precondition that fails, on a message of the caller
				e := proto.Clone(n)
				*c.mine = append(*c.mine, e)
				return reflect.ValueOf([]resource.WriteOption{resource.WithExpectedValue(e)})
			}})
		}
		for _, w := range sp.wopts {
			w := w
			out = append(out, choice{w.label, func(c *sub0) reflect.Value { return reflect.ValueOf(w.mk(c)) }})
		}
	case variadic && t.Elem().Kind() == reflect.String:
		for _, l := range [][]string{{"t"}, {"u", "s", "t"}} {
			s := reflect.MakeSlice(t, 0, 3)
			for _, x := range l {
				s = reflect.Append(s, reflect.ValueOf(x).Convert(t.Elem()))
			}
			add(fmt.Sprint(l), s.Interface())
		}
	case t.Implements(tMsg):
		for i, p := range sp.pool(t) {
			p := p
			out = append(out, choice{fmt.Sprintf("#%d", i), func(c *sub0) reflect.Value {
				v := proto.Clone(p)
				*c.mine = append(*c.mine, v)
				return reflect.ValueOf(v)
			}})
		}
		out = append(out, choice{"nothing", func(c *sub0) reflect.Value {
			v := reflect.New(t.Elem())
			*c.mine = append(*c.mine, v.Interface().(pm))
			return v
		}})
		// what was read is written again
		out = append(out, choice{"as read", func(c *sub0) reflect.Value {
			c.read = true
			for i := len(c.w.list) - 1; i >= 0; i-- {
				if e := c.w.list[i]; reflect.TypeOf(e.msg) == t && e.kind != "twin" {
					return reflect.ValueOf(e.msg)
				}
			}
			return reflect.New(t.Elem())
		}})
	case t.Kind() == reflect.String:
		ks, ok := sp.keys[m.Name]
		if !ok {
			ks = sp.keys[""]
		}
		for _, k := range ks {
			add(k, reflect.ValueOf(k).Convert(t).Interface())
		}
	case t.Kind() == reflect.Int32 && t.Name() != "int32": // an enum
		add("1", reflect.ValueOf(1).Convert(t).Interface())
		add("2", reflect.ValueOf(2).Convert(t).Interface())
	case t.Kind() == reflect.Int:
		add("0", 0)
		add("3", 3)
	case t.Kind() == reflect.Float32:
		add("7", float32(7))
	}
	return
}

func dynamic(d protoreflect.MessageDescriptor) pm {
	return ts.Full(typ(d), 3)
}

// pool lists the messages of Go type t that are written.
func (sp *spec) pool(t reflect.Type) (out []pm) {
	for _, m := range sp.msgs() {
		if reflect.TypeOf(m) == t {
			out = append(out, m)
		}
	}
	if len(out) == 0 {
		mt := reflect.New(t.Elem()).Interface().(pm).ProtoReflect().Type()
		out = append(out, ts.Full(mt, 1), ts.Full(mt, 2))
	}
	return
}

// resourceOf is the message type a method is about.
func resourceOf(t reflect.Type) protoreflect.MessageDescriptor {
	try := func(x reflect.Type) protoreflect.MessageDescriptor {
		if x.Kind() == reflect.Slice {
			x = x.Elem()
		}
		if x.Implements(tMsg) && x.Kind() == reflect.Pointer {
			return reflect.New(x.Elem()).Interface().(pm).ProtoReflect().Descriptor()
		}
		return nil
	}
	for i := 0; i < t.NumOut(); i++ {
		o := t.Out(i)
		if d := try(o); d != nil {
			return d
		}
		if o.Kind() == reflect.Chan {
			e := o.Elem()
			if d := try(e); d != nil {
				return resourceType(d)
			}
			if e.Kind() == reflect.Pointer {
				e = e.Elem()
			}
			for j := 0; j < e.NumField(); j++ {
				if d := try(e.Field(j).Type); d != nil && !strings.HasPrefix(string(d.FullName()), "google.") {
					return d
				}
			}
		}
	}
	for i := 1; i < t.NumIn(); i++ {
		if d := try(t.In(i)); d != nil {
			return d
		}
	}
	return nil
}

// ops lists every call.
func (sp *spec) ops() (out []op) {
	model, server := sp.mk()
	if model != nil {
		t := reflect.TypeOf(model)
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			isRead, isWrite := hasPrefix(m.Name, readPrefixes), hasPrefix(m.Name, writePrefixes)
			if !isRead && !isWrite {
				continue
			}
			res := resourceOf(m.Type)
			if res == nil {
				res = sp.res
			}
			for _, a := range sp.argLists(m, res, false) {
				a, name := a, m.Name
				label := name + "(" + a.label + ")"
				if strings.HasPrefix(name, "Pull") {
					out = append(out, op{label, true, func(w *world) []pm {
						c := &sub0{w: w, mine: new([]pm)}
						ch := reflect.ValueOf(w.model).MethodByName(name).Call(a.vals(c))[0]
						if w.racing {
							go consume(tm.Of(ch))
							return nil
						}
						w.live = append(w.live, sub{where: "a later " + label, st: tm.Of(ch)})
						return nil
					}})
					continue
				}
				out = append(out, op{label, isRead && !isWrite, func(w *world) []pm {
					c := &sub0{w: w, mine: new([]pm)}
					kind := "result"
					if isRead && !isWrite {
						kind = "read"
					}
					in := a.vals(c)
					for _, r := range call(reflect.ValueOf(w.model).MethodByName(name), in) {
						w.harvest(kind, label, r)
					}
					return *c.mine
				}})
			}
		}
	}
	for _, m := range methods(server) {
		m := m
		for _, req := range sp.requests(m, false) {
			req := req
			label := m.Svc.Name + "." + m.Name + "(" + show(req) + ")"
			switch {
			case m.Stream:
				out = append(out, op{label, true, func(w *world) []pm {
					s := w.stream(m, req)
					if w.racing {
						return nil
					}
					w.live = append(w.live, sub{where: label, got: s.got})
					vrt.Quiesce()
					return nil // the request belongs to the server while the stream is open
				}})
			default:
				read := hasPrefix(m.Name, []string{"Get", "List", "Describe"})
				out = append(out, op{label, read, func(w *world) []pm {
					in, resp, _ := w.unary(m, req)
					if resp != nil {
						if read {
							w.see("read", label, resp)
						} else {
							w.see("result", label, resp)
						}
					}
					return []pm{in}
				}})
			}
		}
	}
	return append(out, sp.more...)
}

// resourceIn is the message type a server method is about.
func resourceIn(m *ts.Method) protoreflect.MessageDescriptor {
	res := resourceType(m.In.Descriptor())
	if res == nil {
		res = m.Out.Descriptor()
		if m.Stream {
			fs := res.Fields()
			for i := 0; i < fs.Len(); i++ {
				if fs.Get(i).IsList() && fs.Get(i).Message() != nil {
					res = fs.Get(i).Message()
					if r := resourceType(res); r != nil {
						res = r
					}
					break
				}
			}
		} else if r := resourceType(res); r != nil && strings.HasSuffix(string(res.Name()), "Response") {
			res = r
		}
	}
	return res
}

// masked is req with a read mask, if it can have one.
func masked(m *ts.Method, req pm) pm {
	f := m.In.Descriptor().Fields().ByName("read_mask")
	if f == nil {
		return nil
	}
	out := proto.Clone(req)
	out.ProtoReflect().Set(f, protoreflect.ValueOfMessage((&fieldmaskpb.FieldMask{Paths: paths(resourceIn(m))[0]}).ProtoReflect()))
	return out
}

// requests lists requests for a server method.
func (sp *spec) requests(m *ts.Method, plain bool) []pm {
	all := []protoreflect.Message{m.In.New()}
	res := resourceIn(m)
	fs := m.In.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		var vals []protoreflect.Value
		str := func(ss ...string) {
			for _, s := range ss {
				vals = append(vals, protoreflect.ValueOfString(s))
			}
		}
		optional := false
		switch {
		case f.Name() == "name":
			str("dev")
		case f.IsList() || f.IsMap():
		case f.Message() != nil && f.Message().FullName() == "google.protobuf.FieldMask":
			optional = true
			if !plain {
				for _, p := range paths(res) {
					vals = append(vals, protoreflect.ValueOfMessage((&fieldmaskpb.FieldMask{Paths: p}).ProtoReflect()))
				}
			}
		case f.Message() != nil:
			optional = true
			if !plain {
				t := reflect.TypeOf(typ(f.Message()).New().Interface())
				for _, p := range sp.pool(t) {
					vals = append(vals, protoreflect.ValueOfMessage(p.ProtoReflect()))
				}
				if strings.HasPrefix(string(f.Message().FullName()), "google.") || strings.HasPrefix(string(f.Message().FullName()), "smartcore.types.time.") {
					if len(vals) > 1 {
						vals = vals[:1]
					}
				} else {
					optional = false
				}
			}
		case f.Kind() == protoreflect.StringKind:
			if f.Name() == "page_token" {
				break
			}
			ks, ok := sp.keys[string(f.Name())]
			if !ok {
				ks = sp.keys[""]
			}
			str(ks...)
		case f.Kind() == protoreflect.BoolKind:
			optional = true
			if !plain {
				vals = append(vals, protoreflect.ValueOfBool(true))
			}
		case f.Kind() == protoreflect.Int32Kind:
			optional = true
			if !plain {
				vals = append(vals, protoreflect.ValueOfInt32(1))
			}
		}
		if len(vals) == 0 {
			continue
		}
		var next []protoreflect.Message
		for _, a := range all {
			if optional {
				next = append(next, a)
			}
			for _, v := range vals {
				b := proto.Clone(a.Interface()).ProtoReflect()
				b.Set(f, v)
				next = append(next, b)
			}
		}
		all = next
	}
	var out []pm
	for _, a := range all {
		out = append(out, proto.Clone(a.Interface()))
	}
	return out
}

func typ(d protoreflect.MessageDescriptor) protoreflect.MessageType {
	t, err := protoregistry.GlobalTypes.FindMessageByName(d.FullName())
	if err != nil {
		panic(err)
	}
	return t
}

// call makes a call that may panic: some methods do when they are not given what they document.
func call(f reflect.Value, in []reflect.Value) (out []reflect.Value) {
	defer func() {
		if recover() != nil {
			out = nil
		}
	}()
	return f.Call(in)
}
