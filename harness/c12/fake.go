package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// ---- scripts: what a client registered with a router does when it is called ----

type script struct {
	openErr   error // opening the stream, or the unary call, fails
	headerErr error
	header    metadata.MD
	msgs      []proto.Message // or the unary response
	end       error           // after the messages: io.EOF, or a failure; nil: wait for the context
	trailer   metadata.MD
}

func (s *script) String() string {
	if s.openErr != nil {
		return "open fails: " + showErr(s.openErr)
	}
	if s.headerErr != nil {
		return "header fails: " + showErr(s.headerErr)
	}
	end := "waits"
	if s.end != nil {
		end = showErr(s.end)
	}
	return fmt.Sprintf("header %s, %d messages, %s, trailer %s", showMD(s.header), len(s.msgs), end, showMD(s.trailer))
}

type call struct {
	client string
	method string
	req    proto.Message
	ctx    context.Context
}

// world records the calls that reach any of its clients.
type world struct {
	script *script
	calls  []call
}

// child is a client connection registered under some name.
type child struct {
	w    *world
	name string
}

func (c *child) Invoke(ctx context.Context, method string, args, reply any, _ ...grpc.CallOption) error {
	w := c.w
	w.calls = append(w.calls, call{c.name, method, proto.Clone(args.(proto.Message)), ctx})
	if w.script.openErr != nil {
		return w.script.openErr
	}
	if w.script.msgs == nil {
		<-ctx.Done()
		return status.FromContextError(ctx.Err()).Err()
	}
	proto.Merge(reply.(proto.Message), w.script.msgs[0])
	return nil
}

func (c *child) NewStream(ctx context.Context, _ *grpc.StreamDesc, method string, _ ...grpc.CallOption) (grpc.ClientStream, error) {
	c.w.calls = append(c.w.calls, call{c.name, method, nil, ctx})
	if c.w.script.openErr != nil {
		return nil, c.w.script.openErr
	}
	return &childStream{w: c.w, call: len(c.w.calls) - 1, ctx: ctx}, nil
}

type childStream struct {
	w      *world
	call   int
	ctx    context.Context
	closed bool
	n      int
	ended  bool
}

func (s *childStream) Header() (metadata.MD, error) {
	if s.w.script.headerErr != nil {
		return nil, s.w.script.headerErr
	}
	return s.w.script.header, nil
}
func (s *childStream) Trailer() metadata.MD {
	if !s.ended {
		return nil
	}
	return s.w.script.trailer
}
func (s *childStream) CloseSend() error         { s.closed = true; return nil }
func (s *childStream) Context() context.Context { return s.ctx }
func (s *childStream) SendMsg(m any) error {
	c := &s.w.calls[s.call]
	if c.req != nil {
		c.method += "+again"
	}
	c.req = proto.Clone(m.(proto.Message))
	return nil
}
func (s *childStream) RecvMsg(m any) error {
	if s.ended {
		return s.w.script.end
	}
	if err := s.ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	if err := s.w.script.headerErr; err != nil {
		return err
	}
	if s.n < len(s.w.script.msgs) {
		proto.Reset(m.(proto.Message))
		proto.Merge(m.(proto.Message), s.w.script.msgs[s.n])
		s.n++
		return nil
	}
	if s.w.script.end == nil {
		<-s.ctx.Done()
		return status.FromContextError(s.ctx.Err()).Err()
	}
	s.ended = true
	return s.w.script.end
}

// ---- the caller's side of a stream ----

type serverStream struct {
	ctx     context.Context
	req     proto.Message
	failAt  int // sending this message fails; -1: never
	failHdr bool
	header  metadata.MD
	sentHdr bool
	msgs    []proto.Message
	trailer metadata.MD
	twice   bool // headers sent twice
}

var errCaller = status.Error(codes.Unavailable, "caller has gone")

func (s *serverStream) SetHeader(md metadata.MD) error {
	if s.sentHdr {
		return errors.New("SetHeader after the header was sent")
	}
	s.header = metadata.Join(s.header, md)
	return nil
}
func (s *serverStream) SendHeader(md metadata.MD) error {
	if s.failHdr {
		return errCaller
	}
	if s.sentHdr {
		s.twice = true
		return errors.New("header sent twice")
	}
	s.header, s.sentHdr = metadata.Join(s.header, md), true
	return nil
}
func (s *serverStream) SetTrailer(md metadata.MD) { s.trailer = metadata.Join(s.trailer, md) }
func (s *serverStream) Context() context.Context  { return s.ctx }
func (s *serverStream) SendMsg(m any) error {
	if !s.sentHdr {
		if s.failHdr {
			return errCaller
		}
		s.sentHdr = true
	}
	if s.failAt == len(s.msgs) {
		return errCaller
	}
	s.msgs = append(s.msgs, proto.Clone(m.(proto.Message)))
	return nil
}
func (s *serverStream) RecvMsg(m any) error {
	if s.req == nil {
		return io.EOF
	}
	proto.Reset(m.(proto.Message))
	proto.Merge(m.(proto.Message), s.req)
	s.req = nil
	return nil
}

// ---- showing ----

func showErr(err error) string {
	if err == nil {
		return "ok"
	}
	if err == io.EOF {
		return "EOF"
	}
	s, ok := status.FromError(err)
	if !ok {
		return "plain " + err.Error()
	}
	d := ""
	for _, a := range s.Proto().GetDetails() {
		d += fmt.Sprintf(" +%s %x", a.TypeUrl, a.Value)
	}
	return fmt.Sprintf("%v %q%s", s.Code(), s.Message(), d)
}

// sameErr: nothing of the error has been lost or changed.
func sameErr(got, want error) bool {
	if got == nil || want == nil {
		return got == want
	}
	return showErr(got) == showErr(want)
}

func showMD(md metadata.MD) string {
	var ks []string
	for k, v := range md {
		if k == "content-type" || k == "grpc-status-details-bin" || len(v) == 0 {
			continue
		}
		ks = append(ks, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, " ") + "}"
}

func detailed() error {
	s, err := status.New(codes.Aborted, "no: 100% ü\n").WithDetails(&testproto.UnaryRequest{Msg: "why"})
	if err != nil {
		panic(err)
	}
	return s.Err()
}

func failures() []error {
	out := []error{detailed(), errors.New("plain"), status.Error(codes.NotFound, "inner"), status.Error(codes.Unimplemented, ""), context.Canceled}
	return out
}
