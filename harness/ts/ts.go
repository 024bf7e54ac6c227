// Package ts describes every generated router and wrapper of the repository, and
// builds requests and responses for their methods from the descriptors.
package ts

import (
	"fmt"
	"reflect"

	"github.com/smart-core-os/sc-golang/pkg/router"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

type Router interface {
	router.Router
	Register(grpc.ServiceRegistrar)
}

type Wrapped interface {
	Unwrap() any
	UnwrapService() (grpc.ClientConnInterface, grpc.ServiceDesc)
}

// Service is one generated router with its wrapper.
type Service struct {
	Pkg, Short, Name string
	Desc             *grpc.ServiceDesc
	NewRouter        func(...router.Option) Router
	NewClient        func(grpc.ClientConnInterface) any
	Wrap             func(server any) Wrapped
	Unwrap           func(Wrapped) any
	Add              func(r Router, name string, client any) any
	Remove           func(r Router, name string) any
	Get              func(r Router, name string) (any, error)
	Factory          func(router.Factory) router.Option
	methods          []*Method
}

type Method struct {
	Svc     *Service
	Name    string
	Full    string // as on the wire
	Stream  bool
	In, Out protoreflect.MessageType
	Unary   *grpc.MethodDesc
	Str     *grpc.StreamDesc
}

func (m *Method) String() string { return m.Svc.Pkg + "." + m.Svc.Name + "." + m.Name }

var services []*Service

func Services() []*Service { return services }

func Find(pkg, name string) *Service {
	for _, s := range services {
		if s.Pkg == pkg && (s.Name == name || s.Short == name) {
			return s
		}
	}
	panic("no service " + pkg + "." + name)
}

func box(c any) any { return c }

// Methods lists the methods the API descriptors give the service.
func (s *Service) Methods() []*Method {
	if s.methods != nil {
		return s.methods
	}
	d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(s.Desc.ServiceName))
	if err != nil {
		panic(err)
	}
	ms := d.(protoreflect.ServiceDescriptor).Methods()
	for i := 0; i < ms.Len(); i++ {
		md := ms.Get(i)
		m := &Method{Svc: s, Name: string(md.Name()), Full: "/" + s.Desc.ServiceName + "/" + string(md.Name()), Stream: md.IsStreamingServer(),
			In: typ(md.Input()), Out: typ(md.Output())}
		if md.IsStreamingClient() {
			panic("client streaming method " + m.Full)
		}
		for j := range s.Desc.Methods {
			if s.Desc.Methods[j].MethodName == m.Name {
				m.Unary = &s.Desc.Methods[j]
			}
		}
		for j := range s.Desc.Streams {
			if s.Desc.Streams[j].StreamName == m.Name {
				m.Str = &s.Desc.Streams[j]
			}
		}
		if m.Stream && m.Str == nil || !m.Stream && m.Unary == nil {
			panic("no handler for " + m.Full)
		}
		s.methods = append(s.methods, m)
	}
	return s.methods
}

func typ(d protoreflect.MessageDescriptor) protoreflect.MessageType {
	t, err := protoregistry.GlobalTypes.FindMessageByName(d.FullName())
	if err != nil {
		panic(err)
	}
	return t
}

// Methods lists every method of every service.
func Methods() (out []*Method) {
	for _, s := range services {
		out = append(out, s.Methods()...)
	}
	return
}

// Call calls the method on a typed client, the way callers do.
// It returns the response or the client stream.
func (m *Method) Call(client any, args ...any) (any, error) {
	f := reflect.ValueOf(client).MethodByName(m.Name)
	if !f.IsValid() {
		panic(fmt.Sprintf("%T has no %s", client, m.Name))
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	out := f.Call(in)
	err, _ := out[1].Interface().(error)
	return out[0].Interface(), err
}

// ---- messages ----

func NameField(t protoreflect.MessageType) protoreflect.FieldDescriptor {
	f := t.Descriptor().Fields().ByName("name")
	if f == nil || f.Kind() != protoreflect.StringKind || f.IsList() {
		return nil
	}
	return f
}

// Named sets the name of a request.
func Named(m proto.Message, name string) proto.Message {
	f := NameField(m.ProtoReflect().Type())
	if name == "" {
		m.ProtoReflect().Clear(f)
	} else {
		m.ProtoReflect().Set(f, protoreflect.ValueOfString(name))
	}
	return m
}

// Full returns a message of type t with every field set, to a value that depends on seed.
func Full(t protoreflect.MessageType, seed int) proto.Message {
	m := t.New()
	fill(m, seed, 0)
	return m.Interface()
}

// Singles returns one message per field of t, with only that field set.
func Singles(t protoreflect.MessageType, seed int) (out []proto.Message) {
	fs := t.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		m := t.New()
		set(m, fs.Get(i), seed, 0)
		out = append(out, m.Interface())
	}
	return
}

// Unknown returns an otherwise empty message with unknown fields.
func Unknown(t protoreflect.MessageType) proto.Message {
	m := t.New()
	b := protowire.AppendTag(nil, 12345, protowire.BytesType)
	m.SetUnknown(protowire.AppendBytes(b, []byte("later")))
	return m.Interface()
}

const maxDepth = 4

func fill(m protoreflect.Message, seed, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if o := f.ContainingOneof(); o != nil && !o.IsSynthetic() && o.Fields().Get(seed%o.Fields().Len()) != f {
			continue
		}
		set(m, f, seed+i, depth)
	}
}

func set(m protoreflect.Message, f protoreflect.FieldDescriptor, seed, depth int) {
	switch {
	case f.IsMap():
		if depth >= maxDepth {
			return
		}
		mp := m.Mutable(f).Map()
		for i := 0; i < 2; i++ {
			v := mp.NewValue()
			if f.MapValue().Message() != nil {
				fill(v.Message(), seed+i, depth+1)
			} else {
				v = scalar(f.MapValue(), seed+i)
			}
			mp.Set(scalar(f.MapKey(), seed+i).MapKey(), v)
		}
	case f.IsList():
		if depth >= maxDepth {
			return
		}
		l := m.Mutable(f).List()
		for i := 0; i < 2; i++ {
			if f.Message() != nil {
				v := l.NewElement()
				fill(v.Message(), seed+i, depth+1)
				l.Append(v)
			} else {
				l.Append(scalar(f, seed+i))
			}
		}
	case f.Message() != nil:
		if depth >= maxDepth {
			return
		}
		fill(m.Mutable(f).Message(), seed, depth+1)
	default:
		m.Set(f, scalar(f, seed))
	}
}

func scalar(f protoreflect.FieldDescriptor, seed int) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(true)
	case protoreflect.EnumKind:
		vs := f.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get((seed % (vs.Len() - 1 + b2i(vs.Len() == 1))) + b2i(vs.Len() > 1)).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(seed%50) + 1)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(seed%50) + 1)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(seed%50) + 1)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(seed%50) + 1)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(seed%50) + 0.5)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(seed%50) + 0.5)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(fmt.Sprintf("%s%d", f.Name(), seed))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(fmt.Sprintf("%s%d", f.Name(), seed)))
	}
	panic(f.Kind())
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
