package main

import (
	"context"
	"errors"
	"fmt"
	"io"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/ts"
	"github.com/smart-core-os/sc-golang/pkg/middleware/name"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// nameKinds are message types whose name field is of different kinds.
func nameKinds() (out []protoreflect.MessageType) {
	lab := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
	rep := descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	one := func(msg string, syntax string, f *descriptorpb.FieldDescriptorProto, mod func(*descriptorpb.DescriptorProto)) {
		f.Number = proto.Int32(1)
		if f.Name == nil {
			f.Name = proto.String("name")
		}
		d := &descriptorpb.DescriptorProto{Name: &msg, Field: []*descriptorpb.FieldDescriptorProto{f}}
		if mod != nil {
			mod(d)
		}
		file := &descriptorpb.FileDescriptorProto{Name: proto.String("verif/" + msg + ".proto"), Package: proto.String("verif"), Syntax: &syntax, MessageType: []*descriptorpb.DescriptorProto{d}}
		fd, err := protodesc.NewFile(file, nil)
		if err != nil {
			panic(err)
		}
		out = append(out, dynamicpb.NewMessageType(fd.Messages().Get(0)))
	}
	type F = descriptorpb.FieldDescriptorProto
	one("Str", "proto3", &F{Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: lab}, nil)
	one("Bytes", "proto3", &F{Type: descriptorpb.FieldDescriptorProto_TYPE_BYTES.Enum(), Label: lab}, nil)
	one("Int", "proto3", &F{Type: descriptorpb.FieldDescriptorProto_TYPE_INT32.Enum(), Label: lab}, nil)
	one("Bool", "proto3", &F{Type: descriptorpb.FieldDescriptorProto_TYPE_BOOL.Enum(), Label: lab}, nil)
	one("Msg", "proto3", &F{Type: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), TypeName: proto.String(".verif.Msg"), Label: lab}, nil)
	one("List", "proto3", &F{Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: rep}, nil)
	one("Other", "proto3", &F{Name: proto.String("full_name"), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: lab}, nil)
	one("Upper", "proto3", &F{Name: proto.String("Name"), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: lab}, nil)
	one("JSON", "proto3", &F{Name: proto.String("title"), JsonName: proto.String("name"), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: lab}, nil)
	one("Two", "proto2", &F{Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: lab}, nil)
	one("Default", "proto2", &F{Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: lab, DefaultValue: proto.String("set")}, nil)
	one("Opt", "proto3", &F{Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: lab, Proto3Optional: proto.Bool(true), OneofIndex: proto.Int32(0)}, func(d *descriptorpb.DescriptorProto) {
		d.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("_name")}}
	})
	one("Map", "proto3", &F{Type: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), TypeName: proto.String(".verif.Map.NameEntry"), Label: rep}, func(d *descriptorpb.DescriptorProto) {
		d.NestedType = []*descriptorpb.DescriptorProto{{Name: proto.String("NameEntry"), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}, Field: []*F{
			{Name: proto.String("key"), Number: proto.Int32(1), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: lab},
			{Name: proto.String("value"), Number: proto.Int32(2), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: lab},
		}}}
	})
	return
}

// nameInputs are the messages to put through the interceptors.
func nameInputs() (out []proto.Message) {
	seen := map[protoreflect.FullName]bool{}
	add := func(t protoreflect.MessageType) {
		if seen[t.Descriptor().FullName()] {
			return
		}
		seen[t.Descriptor().FullName()] = true
		ms := append([]proto.Message{t.New().Interface(), ts.Full(t, 1), ts.Unknown(t)}, ts.Singles(t, 2)...)
		out = append(out, ms...)
		f := ts.NameField(t)
		if f == nil {
			return
		}
		for _, m := range ms {
			m = proto.Clone(m)
			out = append(out, ts.Named(m, ""))
			for _, n := range []string{"d", " ", "a/b"} {
				m = proto.Clone(m)
				m.ProtoReflect().Set(f, protoreflect.ValueOfString(n))
				out = append(out, m)
			}
			if f.HasPresence() {
				m = proto.Clone(m)
				m.ProtoReflect().Set(f, protoreflect.ValueOfString(""))
				out = append(out, m)
			}
		}
	}
	for _, m := range ts.Methods() {
		add(m.In)
		add(m.Out)
	}
	add((&testproto.TestAllTypes{}).ProtoReflect().Type())
	for _, t := range nameKinds() {
		add(t)
	}
	return
}

// filled is what the handler should see.
func filled(m proto.Message, deflt string) proto.Message {
	want := proto.Clone(m)
	f := ts.NameField(want.ProtoReflect().Type())
	if f != nil && want.ProtoReflect().Get(f).String() == "" && deflt != "" {
		want.ProtoReflect().Set(f, protoreflect.ValueOfString(deflt))
	}
	return want
}

// same compares, treating a present empty name as an absent one.
func same(a, b proto.Message, deflt string) bool {
	if proto.Equal(a, b) {
		return true
	}
	if f := ts.NameField(a.ProtoReflect().Type()); deflt == "" && f != nil {
		a, b = proto.Clone(a), proto.Clone(b)
		if a.ProtoReflect().Get(f).String() == "" {
			a.ProtoReflect().Clear(f)
		}
		if b.ProtoReflect().Get(f).String() == "" {
			b.ProtoReflect().Clear(f)
		}
		return proto.Equal(a, b)
	}
	return false
}

type ctxKey struct{}

func namesUnary(e *hl.E) {
	ins := nameInputs()
	outcomes := []struct {
		resp any
		err  error
	}{{&testproto.UnaryResponse{Msg: "r"}, nil}, {nil, detailed()}, {"text", errors.New("plain")}}
	for _, deflt := range []string{"d", "", "x y"} {
		ic := name.IfAbsentUnaryInterceptor(deflt)
		for i, in := range ins {
			o := outcomes[i%len(outcomes)]
			if !e.Case(func() string {
				return fmt.Sprintf("default %q, %T %s{%v}", deflt, in, in.ProtoReflect().Descriptor().FullName(), prototext.Format(in))
			}, func() (string, string) {
				hl.Step(1)
				req := proto.Clone(in)
				ctx := context.WithValue(context.Background(), ctxKey{}, 1)
				n := 0
				var bad string
				resp, err := ic(ctx, req, &grpc.UnaryServerInfo{FullMethod: "/x/y"}, func(c context.Context, got any) (any, error) {
					n++
					g, ok := got.(proto.Message)
					if !ok || !same(g, filled(in, deflt), deflt) {
						bad = fmt.Sprintf("name: the handler gets {%v}, want {%v}", got, filled(in, deflt))
					}
					if c.Value(ctxKey{}) != 1 {
						bad = "context: the handler's context is not the caller's"
					}
					return o.resp, o.err
				})
				if bad != "" {
					return "", bad
				}
				if n != 1 {
					return "", fmt.Sprintf("handler: called %d times", n)
				}
				if resp != o.resp || err != o.err {
					return "", fmt.Sprintf("result: the caller gets %v, %v", resp, err)
				}
				return "ok", ""
			}) {
				return
			}
		}
		for i, req := range []any{nil, "", "text", 1, &struct{ Name string }{}, struct{ Name string }{}, map[string]string{"name": ""}} {
			if !e.Case(func() string { return fmt.Sprintf("default %q, %T %v (%d)", deflt, req, req, i) }, func() (string, string) {
				before := fmt.Sprintf("%v", req)
				var got any
				ic(context.Background(), req, &grpc.UnaryServerInfo{}, func(_ context.Context, g any) (any, error) {
					got = g
					return nil, nil
				})
				if fmt.Sprintf("%v", got) != before || fmt.Sprintf("%T", got) != fmt.Sprintf("%T", req) {
					return "", fmt.Sprintf("name: the handler gets %v, want %v", got, before)
				}
				return "ok", ""
			}) {
				return
			}
		}
	}
}

// recvStream hands out messages and then an error.
type recvStream struct {
	serverStream
	in  []proto.Message
	end error
}

func (s *recvStream) RecvMsg(m any) error {
	if len(s.in) == 0 {
		return s.end
	}
	proto.Reset(m.(proto.Message))
	proto.Merge(m.(proto.Message), s.in[0])
	s.in = s.in[1:]
	return nil
}

func namesStream(e *hl.E) {
	byType := map[protoreflect.FullName][]proto.Message{}
	var order []protoreflect.FullName
	for _, m := range nameInputs() {
		n := m.ProtoReflect().Descriptor().FullName()
		if byType[n] == nil {
			order = append(order, n)
		}
		byType[n] = append(byType[n], m)
	}
	h, t := metadata.MD{"h": {"1"}}, metadata.MD{"t": {"1"}}
	for _, deflt := range []string{"d", ""} {
		ic := name.IfAbsentStreamInterceptor(deflt)
		for _, n := range order {
			ms := byType[n]
			for i := range ms {
				for _, end := range []error{io.EOF, detailed()} {
					seq := []proto.Message{ms[i], ms[(i*7+1)%len(ms)], ms[i]}
					if !e.Case(func() string { return fmt.Sprintf("default %q, stream of %s %d", deflt, n, i) }, func() (string, string) {
						hl.Step(1)
						s := &recvStream{in: seq, end: end}
						s.failAt = -1
						s.ctx = context.WithValue(context.Background(), ctxKey{}, 1)
						bad := ""
						final := detailed()
						srv := &stub{"srv"}
						err := ic(srv, s, &grpc.StreamServerInfo{FullMethod: "/x/y"}, func(gotSrv any, ss grpc.ServerStream) error {
							if gotSrv != any(srv) {
								bad = "handler: gets another server"
							}
							for _, m := range seq {
								got := m.ProtoReflect().New().Interface()
								if err := ss.RecvMsg(got); err != nil {
									bad = fmt.Sprintf("receive: fails with %v", err)
								}
								if !same(got, filled(m, deflt), deflt) {
									bad = fmt.Sprintf("name: the handler gets {%v}, want {%v}", got, filled(m, deflt))
								}
							}
							got := seq[0].ProtoReflect().New().Interface()
							if err := ss.RecvMsg(got); err != end {
								bad = fmt.Sprintf("receive: the end is %v, want %v", err, end)
							}
							if ss.Context().Value(ctxKey{}) != 1 {
								bad = "context: the handler's context is not the caller's"
							}
							empty := proto.Clone(ms[0])
							proto.Reset(empty)
							if ss.SetHeader(h) != nil || ss.SendHeader(h) != nil || ss.SendMsg(ms[i]) != nil || ss.SendMsg(empty) != nil {
								bad = "send: fails"
							}
							ss.SetTrailer(t)
							return final
						})
						if bad != "" {
							return "", bad
						}
						if err != final {
							return "", fmt.Sprintf("result: the caller gets %v", err)
						}
						if showMD(s.header) != `{h=["1" "1"]}` || showMD(s.trailer) != showMD(t) || len(s.msgs) != 2 || !proto.Equal(s.msgs[0], ms[i]) || proto.Size(s.msgs[1]) != 0 {
							return "", fmt.Sprintf("send: the caller has %s %v %s", showMD(s.header), s.msgs, showMD(s.trailer))
						}
						return "ok", ""
					}) {
						return
					}
				}
			}
		}
	}
}
