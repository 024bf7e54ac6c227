package main

import (
	"context"
	"fmt"
	"io"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/ts"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// ---- where a name leads ----

// route is a way for a router to find, or not find, a client.
type route struct {
	label string
	name  string // of the request
	want  string // the client reached, "" for none
	setup func(s *ts.Service, w *world) ts.Router
}

func added(s *ts.Service, w *world, opts []router.Option, names ...string) ts.Router {
	r := s.NewRouter(opts...)
	for _, n := range names {
		r.Add(n, s.NewClient(&child{w, n}))
	}
	return r
}

func routes() []route {
	plain := func(names ...string) func(*ts.Service, *world) ts.Router {
		return func(s *ts.Service, w *world) ts.Router { return added(s, w, nil, names...) }
	}
	fac := func(s *ts.Service, w *world) router.Option {
		return s.Factory(func(n string) (any, error) { return s.NewClient(&child{w, "made:" + n}), nil })
	}
	fb := func(s *ts.Service, w *world, only string) router.Option {
		return router.WithFallback(func(n string) (any, error) {
			if only != "" && n != only {
				return nil, status.Error(codes.NotFound, "not here")
			}
			return s.NewClient(&child{w, "fb:" + n}), nil
		})
	}
	return []route{
		{"a of a,b", "a", "a", plain("a", "b")},
		{"b of a,b", "b", "b", plain("a", "b")},
		{"c of a,b", "c", "", plain("a", "b")},
		{"A of a,b", "A", "", plain("a", "b")},
		{"a/b of a,b", "a/b", "", plain("a", "b", "")},
		{"no name of a,''", "", "", func(s *ts.Service, w *world) ts.Router {
			r := s.NewRouter()
			r.Add("", s.NewClient(&child{w, ""}))
			r.Remove("")
			r.Add("a", s.NewClient(&child{w, "a"}))
			return r
		}},
		{"no name registered", "", "''", func(s *ts.Service, w *world) ts.Router {
			r := added(s, w, nil, "a")
			r.Add("", s.NewClient(&child{w, "''"}))
			return r
		}},
		{"a replaced", "a", "a2", func(s *ts.Service, w *world) ts.Router {
			r := added(s, w, nil, "a", "b")
			s.Add(r, "a", s.NewClient(&child{w, "a2"}))
			return r
		}},
		{"a removed", "a", "", func(s *ts.Service, w *world) ts.Router {
			r := added(s, w, nil, "a", "b")
			s.Remove(r, "a")
			return r
		}},
		{"factory", "c", "made:c", func(s *ts.Service, w *world) ts.Router {
			return added(s, w, []router.Option{fac(s, w)}, "a")
		}},
		{"factory not needed", "a", "a", func(s *ts.Service, w *world) ts.Router {
			return added(s, w, []router.Option{fac(s, w)}, "a")
		}},
		{"factory fails", "c", "", func(s *ts.Service, w *world) ts.Router {
			return added(s, w, []router.Option{s.Factory(func(n string) (any, error) { return nil, status.Error(codes.Internal, "x") })}, "a")
		}},
		{"factory finds none", "c", "", func(s *ts.Service, w *world) ts.Router {
			return added(s, w, []router.Option{s.Factory(func(n string) (any, error) { return nil, nil })}, "a")
		}},
		{"fallback", "c", "fb:c", func(s *ts.Service, w *world) ts.Router {
			return added(s, w, []router.Option{fac(s, w), fb(s, w, "")}, "a")
		}},
		{"fallback not needed", "a", "a", func(s *ts.Service, w *world) ts.Router {
			return added(s, w, []router.Option{fac(s, w), fb(s, w, "")}, "a")
		}},
		{"fallback fails", "c", "", func(s *ts.Service, w *world) ts.Router {
			return added(s, w, []router.Option{fb(s, w, "d")}, "a")
		}},
		{"fallback fails, factory", "c", "made:c", func(s *ts.Service, w *world) ts.Router {
			return added(s, w, []router.Option{fac(s, w), fb(s, w, "d")}, "a")
		}},
	}
}

// requests returns the requests to try for a type, all naming name.
func requests(t protoreflect.MessageType, name string) (out []proto.Message) {
	out = append(out, t.New().Interface(), ts.Full(t, 1), ts.Full(t, 2), ts.Unknown(t))
	out = append(out, ts.Singles(t, 3)...)
	for _, m := range out {
		ts.Named(m, name)
	}
	return
}

func responses(t protoreflect.MessageType) []proto.Message {
	out := []proto.Message{t.New().Interface(), ts.Full(t, 1), ts.Unknown(t)}
	return append(out, ts.Singles(t, 4)...)
}

// checkCalls compares the calls that arrived with the one that should have.
func checkCalls(m *ts.Method, w *world, rt route, req proto.Message) string {
	if rt.want == "" {
		if len(w.calls) > 0 {
			return fmt.Sprintf("calls: a name with no client reaches %s", w.calls[0].client)
		}
		return ""
	}
	if len(w.calls) != 1 {
		return fmt.Sprintf("calls: %d calls reach the clients, want 1 %s", len(w.calls), showCalls(w))
	}
	c := w.calls[0]
	if c.client != rt.want {
		return fmt.Sprintf("client: the call reaches %q, want %q", c.client, rt.want)
	}
	if c.method != m.Full {
		return fmt.Sprintf("method: the client's %s is called, want %s", c.method, m.Full)
	}
	if !(m.Stream && w.script.openErr != nil) && !proto.Equal(c.req, req) {
		return fmt.Sprintf("request: the client gets {%v}, want {%v}", prototext.Format(c.req), prototext.Format(req))
	}
	return ""
}

func showCalls(w *world) string {
	s := ""
	for _, c := range w.calls {
		s += " " + c.client + c.method
	}
	return s
}

// unary calls the router's method the way a gRPC server does.
func unary(m *ts.Method, r ts.Router, ctx context.Context, req proto.Message) (any, error) {
	return m.Unary.Handler(r, ctx, func(in any) error {
		proto.Merge(in.(proto.Message), req)
		return nil
	}, nil)
}

func unaries(e *hl.E) {
	rts := routes()
	for _, m := range ts.Methods() {
		if m.Stream {
			continue
		}
		one := func(rt route, req proto.Message, sc *script) bool {
			return e.Case(func() string {
				return fmt.Sprintf("%v via %s of {%v}: %s", m, rt.label, prototext.Format(req), sc)
			}, func() (string, string) {
				w := &world{script: sc}
				r := rt.setup(m.Svc, w)
				resp, err := unary(m, r, context.Background(), req)
				hl.Step(1)
				if f := checkCalls(m, w, rt, req); f != "" {
					return "", f
				}
				if rt.want == "" {
					if status.Code(err) != codes.NotFound {
						return "", fmt.Sprintf("not found: a name with no client gives %v", err)
					}
					return "none", ""
				}
				if !sameErr(err, sc.openErr) {
					return "", fmt.Sprintf("status: the caller gets %s, want %s", showErr(err), showErr(sc.openErr))
				}
				if err == nil {
					got, _ := resp.(proto.Message)
					if got == nil || !proto.Equal(got, sc.msgs[0]) {
						return "", fmt.Sprintf("response: the caller gets {%v}, want {%v}", got, sc.msgs[0])
					}
				}
				return m.Name + showErr(err), ""
			})
		}
		ok := &script{msgs: []proto.Message{ts.Full(m.Out, 1)}}
		for _, rt := range rts {
			for _, req := range requests(m.In, rt.name) {
				if !one(rt, req, ok) {
					return
				}
			}
		}
		for _, rt := range rts[:2] {
			for _, err := range failures() {
				if !one(rt, ts.Named(ts.Full(m.In, 1), rt.name), &script{openErr: err}) {
					return
				}
			}
			for _, resp := range responses(m.Out) {
				if !one(rt, ts.Named(ts.Full(m.In, 1), rt.name), &script{msgs: []proto.Message{resp}}) {
					return
				}
			}
		}
		// a caller that gives up while the client works
		if !e.Case(func() string { return fmt.Sprintf("%v cancelled while the client works", m) }, func() (string, string) {
			return hl.Single(func() (string, string) {
				w := &world{script: &script{}}
				r := added(m.Svc, w, nil, "a")
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				var err error
				done := false
				go func() {
					_, err = unary(m, r, ctx, ts.Named(m.In.New().Interface(), "a"))
					done = true
				}()
				vrt.Quiesce()
				if done {
					return "", fmt.Sprintf("status: returns %v before the client answered", err)
				}
				cancel()
				vrt.Quiesce()
				if !done || status.Code(err) != codes.Canceled {
					return "", fmt.Sprintf("status: after cancelling: done=%v, %v", done, err)
				}
				return "cancelled", ""
			})
		}) {
			return
		}
	}
}

// handle calls a streaming method of a router the way a gRPC server does.
func handle(m *ts.Method, r ts.Router, s grpc.ServerStream) error { return m.Str.Handler(r, s) }

func streams(e *hl.E) {
	rts := routes()
	h := metadata.MD{"h": {"1", "2"}, "h-bin": {"\x00\xff"}}
	t := metadata.MD{"t": {"3"}, "h": {"4"}}
	for _, m := range ts.Methods() {
		if !m.Stream {
			continue
		}
		one := func(rt route, req proto.Message, sc *script, failHdr bool, failAt int) bool {
			return e.Case(func() string {
				return fmt.Sprintf("%v via %s of {%v}: %s; caller fails at header %v message %d", m, rt.label, prototext.Format(req), sc, failHdr, failAt)
			}, func() (string, string) {
				return hl.Single(func() (string, string) {
					return playStream(m, rt, req, sc, failHdr, failAt)
				})
			})
		}
		msgs := responses(m.Out)
		basic := &script{header: h, msgs: msgs[:2], end: io.EOF, trailer: t}
		for _, rt := range rts {
			for _, req := range requests(m.In, rt.name) {
				if !one(rt, req, basic, false, -1) {
					return
				}
			}
		}
		full := func(name string) proto.Message { return ts.Named(ts.Full(m.In, 1), name) }
		var scs []*script
		for _, err := range failures() {
			scs = append(scs, &script{openErr: err}, &script{headerErr: err})
		}
		for _, hd := range []metadata.MD{nil, h} {
			for _, tr := range []metadata.MD{nil, t} {
				for k := 0; k <= 2; k++ {
					for _, end := range append([]error{io.EOF, nil}, failures()...) {
						scs = append(scs, &script{header: hd, msgs: msgs[len(msgs)-k:], end: end, trailer: tr})
					}
				}
			}
		}
		scs = append(scs, &script{header: h, msgs: msgs, end: io.EOF, trailer: t})
		for i, sc := range scs {
			if !one(rts[1], full(rts[1].name), sc, false, -1) || !one(rts[i%2*9], full(rts[i%2*9].name), sc, false, -1) {
				return
			}
			if sc.openErr != nil || sc.headerErr != nil {
				continue
			}
			// with nothing to send, sending may not be attempted
			if len(sc.header)+len(sc.msgs) > 0 && !one(rts[1], full(rts[1].name), sc, true, -1) {
				return
			}
			for at := 0; at < len(sc.msgs) && at < 3; at++ {
				if !one(rts[1], full(rts[1].name), sc, false, at) {
					return
				}
			}
		}
	}
}

func playStream(m *ts.Method, rt route, req proto.Message, sc *script, failHdr bool, failAt int) (string, string) {
	w := &world{script: sc}
	r := rt.setup(m.Svc, w)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := &serverStream{ctx: ctx, req: req, failAt: failAt, failHdr: failHdr}
	var err error
	done := false
	go func() {
		err = handle(m, r, s)
		done = true
	}()
	vrt.Quiesce()
	hl.Step(1)
	if f := checkCalls(m, w, rt, req); f != "" {
		return "", f
	}
	if rt.want == "" {
		if !done || status.Code(err) != codes.NotFound {
			return "", fmt.Sprintf("not found: a name with no client gives %v", err)
		}
		return "none", ""
	}
	early := sc.openErr
	if early == nil {
		early = sc.headerErr
	}
	want := sc.msgs
	wantErr := sc.end
	if wantErr == io.EOF {
		wantErr = nil
	}
	waits := early == nil && sc.end == nil
	switch {
	case early != nil:
		want, wantErr = nil, early
	case failHdr:
		// the first failure the caller reports ends the call
		want, wantErr, waits = nil, errCaller, false
	case failAt >= 0 && failAt < len(sc.msgs):
		want, wantErr, waits = sc.msgs[:failAt], errCaller, false
	}
	if done == waits {
		return "", fmt.Sprintf("ending: the call has ended: %v (%v), want %v", done, err, !waits)
	}
	if len(s.msgs) != len(want) {
		return "", fmt.Sprintf("messages: the caller has %d messages, want %d", len(s.msgs), len(want))
	}
	for i := range want {
		if !proto.Equal(s.msgs[i], want[i]) {
			return "", fmt.Sprintf("messages: message %d is {%v}, want {%v}", i, s.msgs[i], want[i])
		}
	}
	if early == nil && !failHdr {
		if showMD(s.header) != showMD(sc.header) || len(sc.header) > 0 && !s.sentHdr && !done {
			return "", fmt.Sprintf("header: the caller has %s (sent %v), want %s", showMD(s.header), s.sentHdr, showMD(sc.header))
		}
	}
	if s.twice {
		return "", "header: sent twice"
	}
	if waits {
		if w.calls[0].ctx.Err() != nil {
			return "", "cancel: the client's call is cancelled while the caller waits"
		}
		cancel()
		vrt.Quiesce()
		if !done || status.Code(err) != codes.Canceled {
			return "", fmt.Sprintf("cancel: after the caller cancels: done=%v, %v", done, err)
		}
		return m.Name + "waits", ""
	}
	if !sameErr(err, wantErr) {
		return "", fmt.Sprintf("status: the caller gets %s, want %s", showErr(err), showErr(wantErr))
	}
	if early == nil && wantErr != errCaller && showMD(s.trailer) != showMD(sc.trailer) {
		return "", fmt.Sprintf("trailer: the caller has %s, want %s", showMD(s.trailer), showMD(sc.trailer))
	}
	cancel() // a gRPC server does when the handler returns
	vrt.Quiesce()
	if w.calls[0].ctx.Err() == nil {
		return "", "cancel: the client's call outlives the caller's"
	}
	return m.Name + showErr(err), ""
}
