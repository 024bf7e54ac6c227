package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/ts"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/middleware/name"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"
)

// scripted is a server of any service that plays a world's script.
type scripted struct {
	w    *world
	name string
}

// describe is s's description with handlers that play the script.
func describe(s *ts.Service) *grpc.ServiceDesc {
	d := &grpc.ServiceDesc{ServiceName: s.Desc.ServiceName, HandlerType: (*any)(nil), Metadata: s.Desc.Metadata}
	for _, m := range s.Methods() {
		if m.Stream {
			d.Streams = append(d.Streams, grpc.StreamDesc{StreamName: m.Name, ServerStreams: true, Handler: func(srv any, ss grpc.ServerStream) error {
				return srv.(*scripted).stream(m, ss)
			}})
			continue
		}
		d.Methods = append(d.Methods, grpc.MethodDesc{MethodName: m.Name, Handler: func(srv any, ctx context.Context, dec func(any) error, _ grpc.UnaryServerInterceptor) (any, error) {
			x := srv.(*scripted)
			req := m.In.New().Interface()
			if err := dec(req); err != nil {
				return nil, err
			}
			x.w.calls = append(x.w.calls, call{x.name, m.Full, req, ctx})
			if x.w.script.openErr != nil {
				return nil, x.w.script.openErr
			}
			return x.w.script.msgs[0], nil
		}})
	}
	return d
}

func (x *scripted) stream(m *ts.Method, ss grpc.ServerStream) error {
	req := m.In.New().Interface()
	if err := ss.RecvMsg(req); err != nil {
		return err
	}
	x.w.calls = append(x.w.calls, call{x.name, m.Full, req, ss.Context()})
	sc := x.w.script
	if len(sc.header) > 0 {
		if err := ss.SendHeader(sc.header); err != nil {
			return err
		}
	}
	for _, msg := range sc.msgs {
		if err := ss.SendMsg(msg); err != nil {
			return err
		}
	}
	ss.SetTrailer(sc.trailer)
	switch sc.end {
	case nil:
		<-ss.Context().Done()
		return status.FromContextError(ss.Context().Err()).Err()
	case io.EOF:
		return nil
	}
	return sc.end
}

// dial serves through the real transport.
func dial(reg func(grpc.ServiceRegistrar), opts ...grpc.ServerOption) (grpc.ClientConnInterface, func()) {
	l := bufconn.Listen(1 << 16)
	s := grpc.NewServer(append(opts, grpc.WaitForHandlers(false))...)
	reg(s)
	go s.Serve(l)
	cc, err := grpc.NewClient("passthrough:x", grpc.WithIdleTimeout(0),
		grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return l.DialContext(ctx) }),
		grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return cc, func() { cc.Close(); s.Stop() }
}

// childKinds are ways for a scripted server to be registered as a client.
var childKinds = []struct {
	name string
	real bool
	mk   func(s *ts.Service, x *scripted) (grpc.ClientConnInterface, func())
}{
	{"wrapped", false, func(s *ts.Service, x *scripted) (grpc.ClientConnInterface, func()) {
		return wrap.ServerToClient(*describe(s), x), func() {}
	}},
	{"routed", false, func(s *ts.Service, x *scripted) (grpc.ClientConnInterface, func()) {
		r := s.NewRouter()
		r.Add("a", s.NewClient(wrap.ServerToClient(*describe(s), x)))
		cc, _ := s.Wrap(r).UnwrapService()
		return cc, func() {}
	}},
	{"remote", true, func(s *ts.Service, x *scripted) (grpc.ClientConnInterface, func()) {
		return dial(func(r grpc.ServiceRegistrar) { r.RegisterService(describe(s), x) })
	}},
}

// callerKinds are ways to call a router.
var callerKinds = []struct {
	name  string
	real  bool
	deflt bool // a request without a name is for a
	mk    func(s *ts.Service, r ts.Router) (client any, stop func())
}{
	{"wrapper", false, false, func(s *ts.Service, r ts.Router) (any, func()) { return s.Wrap(r), func() {} }},
	{"served", true, false, func(s *ts.Service, r ts.Router) (any, func()) {
		cc, stop := dial(r.Register)
		return s.NewClient(cc), stop
	}},
	{"default name", true, true, func(s *ts.Service, r ts.Router) (any, func()) {
		cc, stop := dial(r.Register, grpc.UnaryInterceptor(name.IfAbsentUnaryInterceptor("a")), grpc.StreamInterceptor(name.IfAbsentStreamInterceptor("a")))
		return s.NewClient(cc), stop
	}},
}

// observe makes the call and returns everything the caller can see.
func observe(m *ts.Method, client any, req proto.Message, k int, waits, hdr bool) string {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var b strings.Builder
	res, err := m.Call(client, ctx, req)
	if !m.Stream {
		if err != nil {
			return showErr(err)
		}
		return fmt.Sprint("ok ", text(res.(proto.Message)))
	}
	if err != nil {
		return "open: " + showErr(err)
	}
	cs := res.(grpc.ClientStream)
	for i := 0; ; i++ {
		if waits && i == k {
			vrt.Quiesce()
			if hdr {
				h, _ := cs.Header()
				fmt.Fprintf(&b, "header %s; ", showMD(h))
			}
			cancel()
		}
		msg := m.Out.New().Interface()
		if err := cs.RecvMsg(msg); err != nil {
			if waits && status.Code(err) == codes.Canceled {
				b.WriteString("cancelled")
				return b.String()
			}
			h, _ := cs.Header()
			fmt.Fprintf(&b, "%s; header %s; trailer %s", showErr(err), showMD(h), showMD(cs.Trailer()))
			return b.String()
		}
		fmt.Fprintf(&b, "%s; ", text(msg))
	}
}

func text(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%x", b)
}

// stacks compares calling a server through a router with calling it directly.
func stacks(real bool) func(e *hl.E) {
	return func(e *hl.E) {
		h := metadata.MD{"h": {"1", "2"}, "h-bin": {"\x00\xff"}}
		t := metadata.MD{"t": {"3"}, "h": {"4"}}
		for mi, m := range ts.Methods() {
			if real && !hl.Thorough() && mi%3 != 2 {
				continue
			}
			msgs := responses(m.Out)
			var scs []*script
			errs := []error{detailed(), status.Error(codes.NotFound, "inner"), status.Error(codes.Unimplemented, "")}
			if m.Stream {
				for _, hd := range []metadata.MD{nil, h} {
					for _, tr := range []metadata.MD{nil, t} {
						for k := 0; k <= 2; k++ {
							for _, end := range append([]error{io.EOF, nil}, errs...) {
								scs = append(scs, &script{header: hd, msgs: msgs[len(msgs)-k:], end: end, trailer: tr})
							}
						}
					}
				}
			} else {
				scs = append(scs, &script{msgs: msgs[:1]}, &script{msgs: msgs[1:2]}, &script{msgs: msgs[2:3]})
				for _, err := range errs {
					scs = append(scs, &script{openErr: err})
				}
			}
			for _, ck := range childKinds {
				for _, cl := range callerKinds {
					if (ck.real || cl.real) != real {
						continue
					}
					for i, sc := range scs {
						name := "a"
						if cl.deflt {
							name = ""
						}
						if i == len(scs)/2 {
							name = "zz" // nobody
						}
						if !e.Case(func() string { return fmt.Sprintf("%v: %s caller, %s client, %q, %s", m, cl.name, ck.name, name, sc) }, func() (string, string) {
							return hl.Single(func() (string, string) {
								req := ts.Named(ts.Full(m.In, 1), "a")
								waits := m.Stream && sc.end == nil
								wd := &world{script: sc}
								direct, stop := ck.mk(m.Svc, &scripted{wd, "a"})
								want := observe(m, m.Svc.NewClient(direct), req, len(sc.msgs), waits, len(sc.header) > 0)
								stop()
								w := &world{script: sc}
								cc, stop1 := ck.mk(m.Svc, &scripted{w, "a"})
								r := m.Svc.NewRouter()
								r.Add("a", m.Svc.NewClient(cc))
								other := &world{}
								r.Add("b", m.Svc.NewClient(&child{other, "b"}))
								client, stop2 := cl.mk(m.Svc, r)
								got := observe(m, client, ts.Named(proto.Clone(req), name), len(sc.msgs), waits && name != "zz", len(sc.header) > 0)
								stop2()
								stop1()
								hl.Step(2)
								if len(other.calls) > 0 {
									return "", "client: another client is called"
								}
								if name == "zz" {
									if len(w.calls) > 0 || !strings.Contains(got, "NotFound") {
										return "", fmt.Sprintf("not found: a name with no client gives %s, %d calls", got, len(w.calls))
									}
									return "none", ""
								}
								if len(w.calls) != 1 || w.calls[0].method != m.Full || !proto.Equal(w.calls[0].req, req) {
									return "", fmt.Sprintf("calls: the client is called %d times %s", len(w.calls), showCalls(w))
								}
								if got != want {
									return "", fmt.Sprintf("transparency: through the router the caller sees\n%s\ndirectly\n%s", got, want)
								}
								return got, ""
							})
						}) {
							return
						}
					}
				}
			}
		}
	}
}

// wrappers checks that each wrapper presents exactly its server.
func wrappers(e *hl.E) {
	for _, s := range ts.Services() {
		if !e.Case(func() string { return s.Pkg + "." + s.Name + " wrapper" }, func() (string, string) {
			r := s.NewRouter()
			w := s.Wrap(r)
			if s.Unwrap(w) != any(r) || w.Unwrap() != any(r) {
				return "", "unwrap: the wrapper unwraps to another server"
			}
			cc, d := w.UnwrapService()
			if cc == nil || d.ServiceName != s.Desc.ServiceName || len(d.Methods) != len(s.Desc.Methods) || len(d.Streams) != len(s.Desc.Streams) {
				return "", fmt.Sprintf("unwrap: the wrapper's service is %s", d.ServiceName)
			}
			if got := wrap.UnwrapFully(w); got != any(r) {
				return "", "unwrap: UnwrapFully gives another server"
			}
			reg := &registrar{}
			r.Register(reg)
			if len(reg.descs) != 1 || reg.descs[0].ServiceName != s.Desc.ServiceName || reg.impls[0] != any(r) {
				return "", fmt.Sprintf("register: Register registers %v", reg.descs)
			}
			hl.Step(1)
			return "ok", ""
		}) {
			return
		}
	}
}

type registrar struct {
	descs []*grpc.ServiceDesc
	impls []any
}

func (r *registrar) RegisterService(d *grpc.ServiceDesc, impl any) {
	r.descs, r.impls = append(r.descs, d), append(r.impls, impl)
}
