package main

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

type pm = proto.Message

// tracked is a message that crossed the API, and a copy made at that moment.
type tracked struct {
	kind, where string
	msg, copy   pm
}

// tracker holds every message the program obtained so far.
type tracker struct {
	list []*tracked
	byP  map[pm]*tracked
	fail string
	lite bool // only remember the messages
}

func newTracker() *tracker { return &tracker{byP: map[pm]*tracked{}} }

func isNil(m pm) bool { return m == nil || !m.ProtoReflect().IsValid() }

// see records a message the API handed out: kind is read, result or event.
func (t *tracker) see(kind, where string, m pm) {
	if isNil(m) {
		return
	}
	if t.lite {
		if t.byP[m] == nil {
			e := &tracked{kind: kind, where: where, msg: m}
			t.list = append(t.list, e)
			t.byP[m] = e
		}
		return
	}
	if at := marked(m.ProtoReflect()); at != "" && t.fail == "" {
		t.fail = fmt.Sprintf("store: %s carries %s, a value a caller put into its own message after the write returned", where, at)
	}
	if e := t.byP[m]; e != nil {
		return
	}
	e := &tracked{kind, where, m, proto.Clone(m)}
	t.list = append(t.list, e)
	t.byP[m] = e
}

// check compares every message with its copy. after says what happened last.
func (t *tracker) check(after string) {
	for _, e := range t.list {
		if t.fail != "" {
			return
		}
		if !proto.Equal(e.msg, e.copy) {
			t.fail = fmt.Sprintf("%s: the message from %s changed after %s: it was {%s}, now {%s}", e.kind, e.where, after, show(e.copy), show(e.msg))
		}
	}
}

// forget drops the results of the write that was just made, if they share the caller's own message.
func (t *tracker) forget(m pm) {
	if e := t.byP[m]; e != nil {
		delete(t.byP, m)
		for i, x := range t.list {
			if x == e {
				t.list = append(t.list[:i:i], t.list[i+1:]...)
				break
			}
		}
	}
}

func show(m pm) string {
	if isNil(m) {
		return "nil"
	}
	s := prototext.MarshalOptions{}.Format(m)
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 220 {
		s = s[:220] + "..."
	}
	return s
}

const mark = "\x01MINE\x01"
const markInt = 0x5A5A5A

// vandalise changes everything in a message in place, the way a caller that owns it may.
func vandalise(m protoreflect.Message) {
	if !m.IsValid() {
		return
	}
	type fv struct {
		f protoreflect.FieldDescriptor
		v protoreflect.Value
	}
	var set []fv
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		set = append(set, fv{f, v})
		return true
	})
	for _, x := range set {
		f, v := x.f, x.v
		switch {
		case f.IsMap():
			var ks []protoreflect.MapKey
			v.Map().Range(func(k protoreflect.MapKey, e protoreflect.Value) bool {
				if f.MapValue().Message() != nil {
					vandalise(e.Message())
				} else if f.MapValue().Kind() == protoreflect.BytesKind {
					scribble(e.Bytes())
				}
				ks = append(ks, k)
				return true
			})
			for _, k := range ks {
				if f.MapValue().Message() == nil {
					v.Map().Set(k, other(f.MapValue(), v.Map().Get(k)))
				}
			}
			if f.MapKey().Kind() == protoreflect.StringKind {
				k := protoreflect.ValueOfString(mark).MapKey()
				if f.MapValue().Message() == nil {
					v.Map().Set(k, other(f.MapValue(), f.MapValue().Default()))
				} else {
					v.Map().Set(k, v.Map().NewValue())
				}
			}
		case f.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				if f.Message() != nil {
					vandalise(l.Get(i).Message())
				} else {
					if f.Kind() == protoreflect.BytesKind {
						scribble(l.Get(i).Bytes())
					}
					l.Set(i, other(f, l.Get(i)))
				}
			}
			if f.Message() != nil && l.Len() > 1 { // the order too
				a, b := l.Get(0), l.Get(1)
				l.Set(0, b)
				l.Set(1, a)
			}
		case f.Message() != nil:
			vandalise(v.Message())
		default:
			if f.Kind() == protoreflect.BytesKind {
				scribble(v.Bytes())
			}
			m.Set(f, other(f, v))
		}
	}
	// fields that were not set
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if m.Has(f) || f.IsMap() || f.IsList() || f.ContainingOneof() != nil && !f.ContainingOneof().IsSynthetic() {
			continue
		}
		if f.Message() == nil {
			m.Set(f, other(f, f.Default()))
		} else {
			m.Set(f, m.NewField(f))
		}
	}
}

func scribble(b []byte) {
	for i := range b {
		b[i] = mark[i%len(mark)]
	}
}

func other(f protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(!v.Bool())
	case protoreflect.EnumKind:
		vs := f.Enum().Values()
		for i := 0; i < vs.Len(); i++ {
			if n := vs.Get(i).Number(); n != v.Enum() && n != 0 {
				return protoreflect.ValueOfEnum(n)
			}
		}
		return v
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(markInt)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(markInt)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(markInt)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(markInt)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(markInt)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(markInt)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(mark)
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(mark))
	}
	panic(f.Kind())
}

// marked finds a value written by vandalise.
func marked(m protoreflect.Message) (at string) {
	if !m.IsValid() {
		return ""
	}
	one := func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		hit := false
		switch x := v.Interface().(type) {
		case string:
			hit = x == mark
		case []byte:
			hit = len(x) > 0 && x[0] == mark[0]
		case int32:
			hit = x == markInt
		case uint32:
			hit = x == markInt
		case int64:
			hit = x == markInt
		case uint64:
			hit = x == markInt
		case float32:
			hit = x == markInt
		case float64:
			hit = x == markInt
		case protoreflect.Message:
			if in := marked(x); in != "" {
				at = string(f.Name()) + "." + in
				return true
			}
		}
		if hit {
			at = string(f.Name())
		}
		return hit
	}
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.IsMap():
			v.Map().Range(func(k protoreflect.MapKey, e protoreflect.Value) bool {
				if s, ok := k.Interface().(string); ok && s == mark {
					at = string(f.Name())
					return false
				}
				return !one(f, e)
			})
		case f.IsList():
			for i := 0; i < v.List().Len() && at == ""; i++ {
				one(f, v.List().Get(i))
			}
		default:
			one(f, v)
		}
		return at == ""
	})
	return at
}
