package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

// ---- the service: four call shapes whose handlers do what a script says ----

const service = "verif.Script"

type msg = testproto.TestAllTypes

type shape struct {
	name           string
	server, client bool // streams
	invoke         bool // called with Invoke rather than NewStream
	method         string
}

var shapes = []shape{
	{name: "unary", invoke: true, method: "U"},
	{name: "unaryAsStream", method: "U"},
	{name: "serverStream", server: true, method: "SS"},
	{name: "clientStream", client: true, method: "CS"},
	{name: "bidi", server: true, client: true, method: "BD"},
}

func (s *shape) full() string { return "/" + service + "/" + s.method }

// handler is what a test does on the server side.
type handler interface {
	unary(ctx context.Context, dec func(any) error) (any, error)
	stream(s grpc.ServerStream) error
}

type box struct{ h handler }

func stream(srv any, s grpc.ServerStream) error { return srv.(*box).h.stream(s) }

var desc = grpc.ServiceDesc{
	ServiceName: service,
	HandlerType: (*any)(nil),
	Methods: []grpc.MethodDesc{{MethodName: "U", Handler: func(srv any, ctx context.Context, dec func(any) error, _ grpc.UnaryServerInterceptor) (any, error) {
		return srv.(*box).h.unary(ctx, dec)
	}}},
	Streams: []grpc.StreamDesc{
		{StreamName: "SS", Handler: stream, ServerStreams: true},
		{StreamName: "CS", Handler: stream, ClientStreams: true},
		{StreamName: "BD", Handler: stream, ServerStreams: true, ClientStreams: true},
	},
}

// connect returns a client connection to h over the real transport (or the wrapper).
func connect(real bool, h handler) (grpc.ClientConnInterface, func()) {
	if !real {
		return wrap.ServerToClient(desc, &box{h}), func() {}
	}
	l := bufconn.Listen(1 << 16)
	s := grpc.NewServer(grpc.WaitForHandlers(false))
	s.RegisterService(&desc, &box{h})
	go s.Serve(l)
	cc, err := grpc.NewClient("passthrough:x", grpc.WithIdleTimeout(0),
		grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return l.DialContext(ctx) }),
		grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return cc, func() { cc.Close(); s.Stop() }
}

// ---- values ----

func message(from string, n int) *msg {
	return &msg{DefaultString: fmt.Sprint(from, n), RepeatedInt32: []int32{1, int32(n)},
		DefaultNestedMessage:   &testproto.TestAllTypes_NestedMessage{A: int32(n)},
		MapStringNestedMessage: map[string]*testproto.TestAllTypes_NestedMessage{from: {A: int32(n)}}, DefaultBytes: []byte(from)}
}

// scribble changes every part of m.
func scribble(m *msg) {
	m.DefaultString += "!"
	for i := range m.RepeatedInt32 {
		m.RepeatedInt32[i] = 99
	}
	m.DefaultNestedMessage.A = 99
	for _, v := range m.MapStringNestedMessage {
		v.A = 99
	}
	m.MapStringNestedMessage["!"] = nil
	delete(m.MapStringNestedMessage, "!")
	for i := range m.DefaultBytes {
		m.DefaultBytes[i] = '!'
	}
}

func showMsg(m *msg) string {
	for i := 0; i < 9; i++ {
		for _, f := range []string{"c", "s"} {
			if proto.Equal(m, message(f, i)) {
				return fmt.Sprint(f, i)
			}
		}
	}
	if proto.Size(m) == 0 {
		return "empty"
	}
	return "(" + strings.Join(strings.Fields(prototext.Format(m)), " ") + ")"
}

// showErr describes an outcome the way a client is entitled to see it: the code
// and message of a server error, cancellation and expiry as such.
func showErr(err error) string {
	if err == nil {
		return "ok"
	}
	if err == io.EOF {
		return "EOF"
	}
	s, ok := status.FromError(err)
	if !ok {
		return "not a status: " + err.Error()
	}
	switch {
	case s.Code() == codes.Canceled && s.Message() == context.Canceled.Error():
		return "Canceled"
	case s.Code() == codes.DeadlineExceeded && strings.Contains(s.Message(), context.DeadlineExceeded.Error()):
		return "DeadlineExceeded"
	}
	d := ""
	for _, a := range s.Proto().GetDetails() {
		d += fmt.Sprintf(" +%s %x", a.TypeUrl, a.Value)
	}
	return fmt.Sprintf("%v %q%s", s.Code(), s.Message(), d)
}

// showMD shows the user metadata of md.
func showMD(md metadata.MD) string {
	var ks []string
	for k, v := range md {
		if k == "content-type" || k == "grpc-status-details-bin" || len(v) == 0 {
			continue
		}
		ks = append(ks, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, " ") + "}"
}

// ---- logs: what each side saw, by step ----

type logs struct {
	mu   sync.Mutex
	cl   []string // client, this step
	sv   []string // server, this step
	step [][2]string
}

func (l *logs) c(f string, a ...any) {
	l.mu.Lock()
	l.cl = append(l.cl, fmt.Sprintf(f, a...))
	l.mu.Unlock()
}

func (l *logs) s(f string, a ...any) {
	l.mu.Lock()
	l.sv = append(l.sv, fmt.Sprintf(f, a...))
	l.mu.Unlock()
}

// flush ends a step.
func (l *logs) flush() {
	l.mu.Lock()
	sort.Strings(l.cl)
	sort.Strings(l.sv)
	l.step = append(l.step, [2]string{strings.Join(l.cl, "; "), strings.Join(l.sv, "; ")})
	l.cl, l.sv = nil, nil
	l.mu.Unlock()
}

// ---- scripts ----

// A script is a sequence of single-letter steps. Client: R post a receive, S send,
// H half-close, X cancel, D let the deadline pass, M ask for the header. Server:
// r receive, h set header, e send header, t set trailer, s send, and the returns
// q nil, E status, W wrapped status, N plain error, F io.EOF, C its context's error.
type run struct {
	sh   *shape
	log  logs
	ops  chan byte
	sctx context.Context
	n    int // metadata counter
	sent int
	done bool // handler returned
	on   bool // handler entered
}

var errNamed = map[byte]error{
	'E': detailed(),
	'W': fmt.Errorf("outer: %w", status.Error(codes.NotFound, "inner")),
	'N': errors.New("plain"),
	'F': io.EOF,
	'c': fmt.Errorf("gave up: %w", context.Canceled),
	'd': context.DeadlineExceeded,
	'g': custom{},
}

// custom is an error that says itself which status it is.
type custom struct{}

func (custom) Error() string              { return "custom" }
func (custom) GRPCStatus() *status.Status { return status.New(codes.DataLoss, "lost") }

// allCodes are return steps for a status of each code and some more.
func allCodes() string {
	b := ""
	for c := 1; c <= 17; c++ {
		l := byte(0x80 + c)
		b += string([]byte{l})
		errNamed[l] = status.Error(codes.Code(c), fmt.Sprint("code ", c))
	}
	return b
}

func detailed() error {
	s, err := status.New(codes.Aborted, "no: 100% ü\n").WithDetails(&testproto.UnaryRequest{Msg: "why"})
	if err != nil {
		panic(err)
	}
	return s.Err()
}

func okErr(err error) string {
	switch err {
	case nil:
		return "ok"
	case io.EOF:
		return "EOF"
	}
	return "err"
}

func (r *run) md(k string) metadata.MD {
	r.n++
	return metadata.MD{k: {fmt.Sprint("v", r.n)}, k + "-bin": {fmt.Sprint("\x00\xff", r.n)}, fmt.Sprint(k, r.n): {"x", "y"}}
}

func (r *run) meta(op byte, setH, sendH func(metadata.MD) error, setT func(metadata.MD) error) bool {
	switch op {
	case 'h':
		r.log.s("setHeader %s", okErr(setH(r.md("h"))))
	case 'e':
		r.log.s("sendHeader %s", okErr(sendH(r.md("h"))))
	case 't':
		setT(r.md("t"))
		r.log.s("setTrailer")
	default:
		return false
	}
	return true
}

func (r *run) ret(op byte, ctx context.Context) (error, bool) {
	if op == 'q' {
		return nil, true
	}
	if op == 'C' {
		return ctx.Err(), true
	}
	err, ok := errNamed[op]
	return err, ok
}

func (r *run) stream(s grpc.ServerStream) error {
	r.on = true
	defer func() { r.done = true }()
	r.sctx = s.Context()
	reads := make(chan bool, 8)
	defer close(reads)
	go func() {
		for range reads {
			m := message("old", 7) // receiving replaces what was there
			err := s.RecvMsg(m)
			if err == nil {
				r.log.s("recv %s", showMsg(m))
				scribble(m)
			} else {
				r.log.s("recv %s", okErr(err))
			}
		}
	}()
	for op := range r.ops {
		if r.meta(op, s.SetHeader, s.SendHeader, func(m metadata.MD) error { s.SetTrailer(m); return nil }) {
			continue
		}
		switch op {
		case 'r':
			reads <- true
		case 's':
			m := message("s", r.sent)
			r.sent++
			err := s.SendMsg(m)
			scribble(m)
			r.log.s("send %s", okErr(err))
		default:
			err, ok := r.ret(op, s.Context())
			if !ok {
				panic("script: " + string(op))
			}
			return err
		}
	}
	return nil
}

func (r *run) unary(ctx context.Context, dec func(any) error) (any, error) {
	r.on = true
	defer func() { r.done = true }()
	r.sctx = ctx
	for op := range r.ops {
		if r.meta(op, func(m metadata.MD) error { return grpc.SetHeader(ctx, m) }, func(m metadata.MD) error { return grpc.SendHeader(ctx, m) },
			func(m metadata.MD) error { return grpc.SetTrailer(ctx, m) }) {
			continue
		}
		if op == 'r' {
			m := message("old", 7)
			err := dec(m)
			if err == nil {
				r.log.s("recv %s", showMsg(m))
				scribble(m)
			} else {
				r.log.s("recv %s", okErr(err))
				return nil, err
			}
			continue
		}
		err, ok := r.ret(op, ctx)
		if !ok {
			panic("script: " + string(op))
		}
		if err != nil {
			return nil, err
		}
		return message("s", 0), nil
	}
	return nil, nil
}

const deadline = 10 * time.Second

// play runs a script and returns what was seen after every step.
func play(real bool, sh *shape, script string) [][2]string {
	r := &run{sh: sh, ops: make(chan byte, 64)}
	cc, stop := connect(real, r)
	g0 := vrt.Goroutines()
	ctx, cancel := context.WithCancel(metadata.AppendToOutgoingContext(context.Background(), "from", "client"))
	var cancelD context.CancelFunc = func() {}
	if strings.Contains(script, "D") {
		ctx, cancelD = context.WithTimeout(ctx, deadline)
	}
	finish := func() {
		vrt.Quiesce()
		if !r.done {
			close(r.ops)
		}
		cancelD()
		cancel()
		stop()
		vrt.Quiesce()
	}
	if sh.invoke {
		var h, t metadata.MD
		if strings.HasPrefix(script, "X") { // cancelled before the call
			cancel()
			script = script[1:]
		}
		go func() {
			in, out := message("c", 0), message("old", 7)
			err := cc.Invoke(ctx, sh.full(), in, out, grpc.Header(&h), grpc.Trailer(&t))
			scribble(in)
			if err == nil {
				r.log.c("reply %s", showMsg(out))
			} else {
				r.log.c("reply %s", showErr(err))
			}
			r.log.c("header %s", showMD(h))
			r.log.c("trailer %s", showMD(t))
		}()
		vrt.Quiesce()
		r.log.flush()
		for _, op := range []byte(script) {
			switch op {
			case 'X':
				cancel()
			case 'D':
				time.Sleep(2 * deadline)
			default:
				r.ops <- op
			}
			vrt.Quiesce()
			r.log.flush()
		}
	} else {
		if strings.HasPrefix(script, "X") {
			cancel()
			script = script[1:]
		}
		cs, err := cc.NewStream(ctx, &grpc.StreamDesc{StreamName: sh.method, ServerStreams: sh.server, ClientStreams: sh.client}, sh.full())
		sends, recvs, heads := make(chan byte, 64), make(chan byte, 64), make(chan byte, 64)
		if err != nil {
			r.log.c("recv %s", showErr(err)) // as good as a first receive saying so
		} else {
			go func() {
				n := 0
				for op := range sends {
					if op == 'S' {
						m := message("c", n)
						n++
						err := cs.SendMsg(m)
						scribble(m)
						r.log.c("send %s", okErr(err))
					} else {
						r.log.c("closeSend %s", okErr(cs.CloseSend()))
					}
				}
			}()
			go func() {
				for range recvs {
					m := message("old", 7)
					err := cs.RecvMsg(m)
					if err == nil {
						r.log.c("recv %s", showMsg(m))
						scribble(m)
					} else {
						r.log.c("recv %s", showErr(err))
					}
					if err != nil || !sh.server {
						r.log.c("trailer %s", showMD(cs.Trailer()))
					}
				}
			}()
			go func() {
				for range heads {
					h, err := cs.Header()
					r.log.c("header %s %s", showMD(h), showErr(err))
					for k := range h { // this copy is the client's
						delete(h, k)
					}
				}
			}()
		}
		vrt.Quiesce()
		r.log.flush()
		for _, op := range []byte(script) {
			switch op {
			case 'X':
				cancel()
			case 'D':
				time.Sleep(2 * deadline)
			case 'S', 'H':
				sends <- op
			case 'R':
				recvs <- op
			case 'M':
				heads <- op
			default:
				r.ops <- op
			}
			vrt.Quiesce()
			r.log.flush()
		}
		close(sends)
		close(recvs)
		close(heads)
	}
	if !real {
		// the call is over: cancelled or finished by the server
		vrt.Quiesce()
		if n := vrt.Goroutines() - g0; n > 0 && (r.done || !r.on) {
			r.log.s("LEAK %d", n)
		}
	}
	r.log.flush()
	finish()
	return r.log.step
}
