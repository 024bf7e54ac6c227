package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/dynamicpb"
)

// funcs is a handler made of functions.
type funcs struct {
	u  func(ctx context.Context, dec func(any) error) (any, error)
	s  func(s grpc.ServerStream) error
	on int
}

func (f *funcs) unary(ctx context.Context, dec func(any) error) (any, error) {
	f.on++
	if f.u == nil {
		return nil, nil
	}
	return f.u(ctx, dec)
}
func (f *funcs) stream(s grpc.ServerStream) error {
	f.on++
	if f.s == nil {
		return nil
	}
	return f.s(s)
}

// wrong enumerates unknown methods and mismatched shapes.
func wrong(e *hl.E) {
	check := func(label string, want codes.Code, call func(cc grpc.ClientConnInterface) error) bool {
		return e.Case(func() string { return label }, func() (string, string) {
			return hl.Single(func() (string, string) {
				h := &funcs{}
				cc, _ := connect(false, h)
				g0 := vrt.Goroutines()
				err := call(cc)
				hl.Step(1)
				vrt.Quiesce()
				if status.Code(err) != want {
					return "", fmt.Sprintf("wrong call: %s gives %v, want code %v", label, err, want)
				}
				if h.on > 0 {
					return "", fmt.Sprintf("wrong call: %s calls the handler", label)
				}
				if n := vrt.Goroutines() - g0; n != 0 {
					return "", fmt.Sprintf("wrong call: %s leaves %d goroutines", label, n)
				}
				return fmt.Sprint(want), ""
			})
		})
	}
	open := func(cc grpc.ClientConnInterface, method string, s, c bool) error {
		cs, err := cc.NewStream(context.Background(), &grpc.StreamDesc{StreamName: method, ServerStreams: s, ClientStreams: c}, method)
		if err != nil {
			return err
		}
		return cs.RecvMsg(&msg{})
	}
	for _, m := range []string{"/verif.Script/X", "/verif.Other/U", "/verif.Other/BD", "/verif.Script/", "verif.Script/U", "/U", "", "/verif.Script/u", "/verif.Script/BDD", "/verif.Script/U/", "//verif.Script/SS"} {
		if !check(fmt.Sprintf("Invoke(%q)", m), codes.Unimplemented, func(cc grpc.ClientConnInterface) error {
			return cc.Invoke(context.Background(), m, &msg{}, &msg{})
		}) {
			return
		}
		for i := 0; i < 4; i++ {
			if !check(fmt.Sprintf("NewStream(%q, %b)", m, i), codes.Unimplemented, func(cc grpc.ClientConnInterface) error {
				return open(cc, m, i&1 > 0, i&2 > 0)
			}) {
				return
			}
		}
	}
	for _, sh := range shapes[1:] {
		if sh.server || sh.client {
			if !check(fmt.Sprintf("Invoke(%q)", sh.method), codes.Internal, func(cc grpc.ClientConnInterface) error {
				return cc.Invoke(context.Background(), sh.full(), &msg{}, &msg{})
			}) {
				return
			}
		}
		for i := 0; i < 4; i++ {
			s, c := i&1 > 0, i&2 > 0
			if s == sh.server && c == sh.client {
				continue
			}
			if !check(fmt.Sprintf("NewStream(%q, server %v, client %v)", sh.method, s, c), codes.Internal, func(cc grpc.ClientConnInterface) error {
				return open(cc, sh.full(), s, c)
			}) {
				return
			}
		}
	}
}

// both runs f over the real transport and the wrapper, what it returns must not differ.
func both(e *hl.E, label string, f func(real bool) string) bool {
	return e.Case(func() string { return label }, func() (string, string) {
		var a, b string
		if _, fail := hl.Single(func() (string, string) { a = f(true); return "", "" }); fail != "" {
			return "", "harness: " + label + ": " + fail
		}
		if _, fail := hl.Single(func() (string, string) { b = f(false); return "", "" }); fail != "" {
			return "", "stuck: " + label + ": " + fail
		}
		hl.Step(1)
		if a != b {
			return "", fmt.Sprintf("%s: %s: over gRPC [%s], wrapped [%s]", strings.Fields(label)[0], label, a, b)
		}
		return b, ""
	})
}

// metadataCases sends all sorts of metadata both ways.
func metadataCases(e *hl.E) {
	values := []metadata.MD{nil, {}, {"a": nil}, {"a": {}}, {"a": {""}}, {"a": {"1"}}, {"a": {"1", "2"}}, {"a": {"1"}, "b": {"2"}}, {"a.b_c-d9": {"v w"}},
		{"x-bin": {"\x00\xff"}}, {"x-bin": {"", "\x01"}}, {"a": {"1", "", "1"}}, metadata.Pairs("Upper", "Case", "upper", "case")}
	set := func(how int, setH, sendH func(metadata.MD) error, setT func(metadata.MD), m metadata.MD) {
		m = m.Copy()
		switch how {
		case 0:
			setH(m)
		case 1:
			sendH(m)
		case 2:
			setT(m)
		}
		for _, v := range m {
			for i := range v {
				v[i] = "changed"
			}
		}
	}
	for _, m1 := range values {
		for _, m2 := range values {
			for how := 0; how < 9; how++ {
				h1, h2 := how%3, how/3
				for _, end := range []error{nil, errNamed['E']} {
					for _, sh := range []*shape{&shapes[0], &shapes[2]} {
						if !both(e, fmt.Sprintf("metadata %s %d %v, %d %v, %v", sh.name, h1, m1, h2, m2, end), func(real bool) string {
							h := &funcs{u: func(ctx context.Context, dec func(any) error) (any, error) {
								dec(&msg{})
								st := func(m metadata.MD) { grpc.SetTrailer(ctx, m) }
								sh, eh := func(m metadata.MD) error { return grpc.SetHeader(ctx, m) }, func(m metadata.MD) error { return grpc.SendHeader(ctx, m) }
								set(h1, sh, eh, st, m1)
								set(h2, sh, eh, st, m2)
								return &msg{}, end
							}, s: func(s grpc.ServerStream) error {
								s.RecvMsg(&msg{})
								set(h1, s.SetHeader, s.SendHeader, s.SetTrailer, m1)
								set(h2, s.SetHeader, s.SendHeader, s.SetTrailer, m2)
								return end
							}}
							cc, stop := connect(real, h)
							defer stop()
							if sh.invoke {
								var hd, tr metadata.MD
								err := cc.Invoke(context.Background(), sh.full(), &msg{}, &msg{}, grpc.Header(&hd), grpc.Trailer(&tr))
								return showErr(err) + showMD(hd) + showMD(tr)
							}
							cs, err := cc.NewStream(context.Background(), &grpc.StreamDesc{StreamName: sh.method, ServerStreams: true}, sh.full())
							if err != nil {
								return err.Error()
							}
							cs.SendMsg(&msg{})
							cs.CloseSend()
							err = cs.RecvMsg(&msg{})
							hd, herr := cs.Header()
							s := showErr(err) + showMD(hd) + showErr(herr) + showMD(cs.Trailer())
							for _, md := range []metadata.MD{hd, cs.Trailer()} { // the client's own copies
								for k, v := range md {
									for i := range v {
										v[i] = "changed"
									}
									delete(md, k)
								}
							}
							hd, herr = cs.Header()
							return s + showMD(hd) + showErr(herr) + showMD(cs.Trailer())
						}) {
							return
						}
					}
				}
			}
		}
	}
	// what the client sends arrives
	for vi, m := range values {
		for _, sh := range []*shape{&shapes[0], &shapes[2]} {
			for within := range 3 { // the client is itself a server, that received metadata
				if !both(e, fmt.Sprintf("outgoing metadata %s %v, within %d", sh.name, m, within), func(real bool) string {
					show := func(ctx context.Context) string {
						in, _ := metadata.FromIncomingContext(ctx)
						in = in.Copy()
						for _, k := range []string{":authority", "user-agent"} {
							delete(in, k)
						}
						return showMD(in)
					}
					got := ""
					h := &funcs{u: func(ctx context.Context, dec func(any) error) (any, error) {
						dec(&msg{})
						got = show(ctx)
						in, _ := metadata.FromIncomingContext(ctx)
						for k := range in { // the server's own copy
							delete(in, k)
						}
						return &msg{}, nil
					}, s: func(s grpc.ServerStream) error {
						s.RecvMsg(&msg{})
						got = show(s.Context())
						return nil
					}}
					cc, stop := connect(real, h)
					defer stop()
					own := m.Copy()
					ctx := context.Background()
					if within > 0 {
						ctx = metadata.NewIncomingContext(ctx, metadata.Pairs("a", "received", "secret", "s"))
					}
					if within < 2 {
						ctx = metadata.NewOutgoingContext(ctx, own)
					} else if vi > 0 {
						ctx = metadata.AppendToOutgoingContext(ctx, "b", "1", "b", "2")
					}
					if sh.invoke {
						cc.Invoke(ctx, sh.full(), &msg{}, &msg{})
						return got + showMD(own)
					}
					cs, err := cc.NewStream(ctx, &grpc.StreamDesc{StreamName: sh.method, ServerStreams: true}, sh.full())
					if err != nil {
						return err.Error()
					}
					vrt.Quiesce()
					for k, v := range own {
						for i := range v {
							v[i] = "changed"
						}
						delete(own, k)
					}
					cs.SendMsg(&msg{})
					cs.CloseSend()
					cs.RecvMsg(&msg{})
					return got
				}) {
					return
				}
			}
		}
	}
}

// contents sends messages of all sorts both ways, as generated and as dynamic messages.
func contents(e *hl.E) {
	var ms []*msg
	ms = append(ms, &msg{}, message("c", 1))
	d := (&msg{}).ProtoReflect().Descriptor()
	for i := 0; i < d.Fields().Len(); i++ {
		f := d.Fields().Get(i)
		m := &msg{}
		r := m.ProtoReflect()
		switch {
		case f.IsMap():
			v := r.Mutable(f).Map()
			k := f.MapKey().Default().MapKey()
			if f.MapValue().Message() != nil {
				v.Set(k, v.NewValue())
			} else {
				v.Set(k, f.MapValue().Default())
			}
		case f.IsList():
			l := r.Mutable(f).List()
			l.Append(l.NewElement())
			l.Append(l.NewElement())
		case f.Message() != nil:
			r.Mutable(f)
		default:
			r.Set(f, nonZero(f))
		}
		ms = append(ms, m)
	}
	unk := &msg{DefaultInt32: 1}
	unk.ProtoReflect().SetUnknown(protoreflect.RawFields{0xfa, 0x7f, 1, 'x'})
	ms = append(ms, unk)
	// the same message as other builds of the API know it: all of it, or without most fields
	types := []protoreflect.MessageDescriptor{nil, again(d, false), again(d, true)}
	fresh := func(typ int) proto.Message {
		if typ > 0 {
			return dynamicpb.NewMessage(types[typ])
		}
		return message("old", 7)
	}
	as := func(m *msg, typ int) proto.Message {
		if typ == 0 {
			return proto.Clone(m)
		}
		b, err := proto.Marshal(m)
		if err != nil {
			panic(err)
		}
		r := dynamicpb.NewMessage(types[typ])
		if err := proto.Unmarshal(b, r); err != nil {
			panic(err)
		}
		return r
	}
	same := func(m *msg, got proto.Message) string {
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(got)
		if err != nil {
			panic(err)
		}
		g := &msg{}
		if err := proto.Unmarshal(b, g); err != nil {
			panic(err)
		}
		if proto.Equal(g, m) {
			return "same"
		}
		return showMsg(g)
	}
	for i, m := range ms {
		for dyn := 0; dyn < 81; dyn++ {
			t := []int{dyn % 3, dyn / 3 % 3, dyn / 9 % 3, dyn / 27}
			for _, sh := range []*shape{&shapes[0], &shapes[4]} {
				if !both(e, fmt.Sprintf("contents %s %d %v", sh.name, i, t), func(real bool) string {
					got := ""
					h := &funcs{u: func(ctx context.Context, dec func(any) error) (any, error) {
						in := fresh(t[1])
						err := dec(in)
						got = showErr(err) + same(m, in)
						return as(m, t[2]), nil
					}, s: func(s grpc.ServerStream) error {
						in := fresh(t[1])
						err := s.RecvMsg(in)
						got = showErr(err) + same(m, in)
						return s.SendMsg(as(m, t[2]))
					}}
					cc, stop := connect(real, h)
					defer stop()
					out := fresh(t[3])
					if sh.invoke {
						err := cc.Invoke(context.Background(), sh.full(), as(m, t[0]), out)
						return got + showErr(err) + same(m, out)
					}
					cs, err := cc.NewStream(context.Background(), &grpc.StreamDesc{StreamName: sh.method, ServerStreams: true, ClientStreams: true}, sh.full())
					if err != nil {
						return err.Error()
					}
					cs.SendMsg(as(m, t[0]))
					err = cs.RecvMsg(out)
					return got + showErr(err) + same(m, out)
				}) {
					return
				}
			}
		}
	}
}

// again makes another descriptor of the same message, perhaps of only its first fields.
func again(d protoreflect.MessageDescriptor, thin bool) protoreflect.MessageDescriptor {
	f := protodesc.ToFileDescriptorProto(d.ParentFile())
	if thin {
		for _, m := range f.MessageType {
			if m.GetName() == string(d.Name()) {
				m.Field = m.Field[:3]
				m.OneofDecl = nil
			}
		}
	}
	g, err := protodesc.NewFile(f, protoregistry.GlobalFiles)
	if err != nil {
		panic(err)
	}
	return g.Messages().ByName(d.Name())
}

func nonZero(f protoreflect.FieldDescriptor) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(true)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(f.Enum().Values().Get(f.Enum().Values().Len() - 1).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(-5)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(-5)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(5)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(5)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(0.1)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(0.1)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString("é")
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte{0, 255})
	}
	panic(f.Kind())
}

// misuse: a client that sends after its half-close, a server that answers a
// single-response call twice. Neither may bring anything down.
func misuse(e *hl.E) {
	for _, sh := range shapes[1:] {
		for _, acts := range []string{"HS", "HH", "HHS", "HSS", "SHS", "SHHS", "HSR", "HHR", "SSHH"} {
			label := "misuse " + sh.name + " " + acts
			if !e.Case(func() string { return label }, func() (string, string) {
				return hl.Single(func() (string, string) {
					h := &funcs{u: func(ctx context.Context, dec func(any) error) (any, error) {
						dec(&msg{})
						return &msg{}, nil
					}, s: func(s grpc.ServerStream) error {
						for {
							if err := s.RecvMsg(&msg{}); err != nil {
								break
							}
						}
						return s.SendMsg(&msg{})
					}}
					cc, _ := connect(false, h)
					g0 := vrt.Goroutines()
					ctx, cancel := context.WithCancel(context.Background())
					cs, err := cc.NewStream(ctx, &grpc.StreamDesc{StreamName: sh.method, ServerStreams: sh.server, ClientStreams: sh.client}, sh.full())
					if err != nil {
						return "", "misuse: " + err.Error()
					}
					half := false
					for i, a := range acts {
						hl.Step(1)
						switch a {
						case 'S':
							err := cs.SendMsg(&msg{})
							if half && err == nil {
								return "", fmt.Sprintf("misuse: %s: send %d after the half-close succeeds", label, i)
							}
							if !sh.client {
								half = true
							}
						case 'H':
							if err := cs.CloseSend(); err != nil {
								return "", fmt.Sprintf("misuse: %s: half-close %d fails: %v", label, i, err)
							}
							half = true
						case 'R':
							cs.RecvMsg(&msg{})
						}
					}
					cancel()
					vrt.Quiesce()
					if n := vrt.Goroutines() - g0; n != 0 {
						return "", fmt.Sprintf("misuse: %s leaves %d goroutines", label, n)
					}
					return "", ""
				})
			}) {
				return
			}
		}
	}
	for n := 0; n < 4; n++ {
		for _, ret := range []error{nil, errNamed['E']} {
			label := fmt.Sprintf("misuse %d responses to a client stream, then %v", n, ret)
			if !e.Case(func() string { return label }, func() (string, string) {
				return hl.Single(func() (string, string) {
					h := &funcs{s: func(s grpc.ServerStream) error {
						for i := 0; i < n; i++ {
							if err := s.SendMsg(&msg{}); err != nil {
								return err
							}
						}
						return ret
					}}
					cc, _ := connect(false, h)
					g0 := vrt.Goroutines()
					cs, err := cc.NewStream(context.Background(), &grpc.StreamDesc{StreamName: "CS", ClientStreams: true}, "/verif.Script/CS")
					if err != nil {
						return "", "misuse: " + err.Error()
					}
					err = cs.RecvMsg(&testproto.TestAllTypes{})
					hl.Step(1)
					vrt.Quiesce()
					if (err == nil) != (n == 1 && ret == nil) {
						return "", fmt.Sprintf("misuse: %s: the client sees %v", label, err)
					}
					if g := vrt.Goroutines() - g0; g != 0 {
						return "", fmt.Sprintf("misuse: %s leaves %d goroutines", label, g)
					}
					return "", ""
				})
			}) {
				return
			}
		}
	}
}

func misc() []hl.Scenario {
	return []hl.Scenario{
		{Name: "wrong", Enum: wrong, Shards: 1},
		{Name: "metadata", Enum: metadataCases, Shards: 8},
		{Name: "contents", Enum: contents, Shards: 8},
		{Name: "misuse", Enum: misuse, Shards: 1},
	}
}
