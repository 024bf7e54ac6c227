package main

import (
	"context"
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
)

// ---- programs: both sides run freely, every schedule must look the same to the client ----

// prog is a server behaviour together with what the client does: it sends n messages
// and half-closes in one goroutine, receives until the end in another, asks for the
// header in a third.
type prog struct {
	name   string
	sh     *shape
	n      int
	serve  func(l *logs, s grpc.ServerStream) error
	answer func(l *logs, ctx context.Context, dec func(any) error) (any, error)
	early  bool // the server ends without waiting for the client's sends
	sends  int  // responses
}

type progHandler struct {
	p    *prog
	l    *logs
	done bool
	on   bool
}

func (h *progHandler) stream(s grpc.ServerStream) error {
	h.on = true
	defer func() { h.done = true }()
	if h.p.serve == nil { // a unary method called as a stream
		r, err := h.p.answer(h.l, s.Context(), s.RecvMsg)
		if err != nil {
			return err
		}
		return s.SendMsg(r)
	}
	return h.p.serve(h.l, s)
}

func (h *progHandler) unary(ctx context.Context, dec func(any) error) (any, error) {
	h.on = true
	defer func() { h.done = true }()
	return h.p.answer(h.l, ctx, dec)
}

func md(k, v string) metadata.MD { return metadata.MD{k: {v}} }

func srvRecv(l *logs, s interface{ RecvMsg(any) error }) (string, error) {
	m := message("old", 7)
	if err := s.RecvMsg(m); err != nil {
		l.s("recv %s", okErr(err))
		return "", err
	}
	n := showMsg(m)
	l.s("recv %s", n)
	scribble(m)
	return n, nil
}

func srvSend(l *logs, s grpc.ServerStream, i int) error {
	m := message("s", i)
	err := s.SendMsg(m)
	scribble(m)
	return err
}

func progs() []*prog {
	fails := map[string]error{"ok": nil, "err": errNamed['E']}
	var r []*prog
	for _, end := range []string{"ok", "err"} {
		ret := fails[end]
		un := func(l *logs, ctx context.Context, dec func(any) error) (any, error) {
			m := message("old", 7)
			if err := dec(m); err != nil {
				l.s("recv %s", okErr(err))
				return nil, err
			}
			l.s("recv %s", showMsg(m))
			scribble(m)
			grpc.SetHeader(ctx, md("h", "1"))
			grpc.SetTrailer(ctx, md("t", "1"))
			if ret != nil {
				return nil, ret
			}
			return message("s", 0), nil
		}
		r = append(r,
			&prog{name: "unary " + end, sh: &shapes[0], n: 1, sends: 1, answer: un},
			&prog{name: "unaryAsStream " + end, sh: &shapes[1], n: 1, sends: 1, answer: un},
			&prog{name: "server stream " + end, sh: &shapes[2], n: 1, sends: 2, serve: func(l *logs, s grpc.ServerStream) error {
				if _, err := srvRecv(l, s); err != nil {
					return err
				}
				s.SetHeader(md("h", "1"))
				for i := 0; i < 2; i++ {
					if err := srvSend(l, s, i); err != nil {
						return err
					}
				}
				s.SetTrailer(md("t", "1"))
				return ret
			}},
			&prog{name: "headers only " + end, sh: &shapes[2], n: 1, serve: func(l *logs, s grpc.ServerStream) error {
				if _, err := srvRecv(l, s); err != nil {
					return err
				}
				s.SetHeader(md("h", "1"))
				return ret
			}},
			&prog{name: "sent header " + end, sh: &shapes[2], n: 1, sends: 1, serve: func(l *logs, s grpc.ServerStream) error {
				if err := s.SendHeader(md("h", "1")); err != nil {
					return err
				}
				if _, err := srvRecv(l, s); err != nil {
					return err
				}
				if err := srvSend(l, s, 0); err != nil {
					return err
				}
				s.SetTrailer(md("t", "1"))
				return ret
			}},
			&prog{name: "client stream " + end, sh: &shapes[3], n: 2, sends: 1, serve: func(l *logs, s grpc.ServerStream) error {
				for {
					if _, err := srvRecv(l, s); err == io.EOF {
						break
					} else if err != nil {
						return err
					}
				}
				s.SetHeader(md("h", "1"))
				if err := srvSend(l, s, 0); err != nil {
					return err
				}
				s.SetTrailer(md("t", "1"))
				return ret
			}},
			&prog{name: "echo " + end, sh: &shapes[4], n: 2, sends: 2, serve: func(l *logs, s grpc.ServerStream) error {
				for i := 0; ; i++ {
					if _, err := srvRecv(l, s); err == io.EOF {
						s.SetTrailer(md("t", "1"))
						return ret
					} else if err != nil {
						return err
					}
					if err := srvSend(l, s, i); err != nil {
						return err
					}
				}
			}},
			&prog{name: "duplex " + end, sh: &shapes[4], n: 2, sends: 2, serve: func(l *logs, s grpc.ServerStream) error {
				got := make(chan error, 1)
				go func() {
					for {
						if _, err := srvRecv(l, s); err != nil {
							got <- err
							return
						}
					}
				}()
				s.SetHeader(md("h", "1"))
				for i := 0; i < 2; i++ {
					if err := srvSend(l, s, i); err != nil {
						return err
					}
				}
				s.SetTrailer(md("t", "1"))
				if err := <-got; err != io.EOF {
					return err
				}
				return ret
			}},
			&prog{name: "early end " + end, sh: &shapes[4], n: 3, sends: 1, early: true, serve: func(l *logs, s grpc.ServerStream) error {
				if _, err := srvRecv(l, s); err != nil {
					return err
				}
				if err := srvSend(l, s, 0); err != nil {
					return err
				}
				s.SetTrailer(md("t", "1"))
				return ret
			}},
			&prog{name: "reader left behind " + end, sh: &shapes[4], n: 3, sends: 1, early: true, serve: func(l *logs, s grpc.ServerStream) error {
				go func() {
					for {
						if _, err := srvRecv(l, s); err != nil {
							return
						}
					}
				}()
				if err := srvSend(l, s, 0); err != nil {
					return err
				}
				s.SetTrailer(md("t", "1"))
				return ret
			}},
		)
	}
	return r
}

// result is what the client saw.
type result struct {
	recvs           []string // responses, then the terminal outcome
	header, trailer string
	sends           string
	server          string
	leak            int
	done            bool
}

func (r *result) String() string {
	return fmt.Sprintf("received %v, header %s, trailer %s, sends [%s]; server [%s]", r.recvs, r.header, r.trailer, r.sends, r.server)
}

// drive makes the call.
func drive(real bool, p *prog, cancelling bool) *result {
	l := &logs{}
	h := &progHandler{p: p, l: l}
	cc, stop := connect(real, h)
	r := &result{}
	g0 := vrt.Goroutines()
	ctx, cancel := context.WithCancel(context.Background())
	if cancelling {
		go func() { vrt.Y(); cancel() }()
	}
	if p.sh.invoke {
		in, out := message("c", 0), message("old", 7)
		var hd, tr metadata.MD
		err := cc.Invoke(ctx, p.sh.full(), in, out, grpc.Header(&hd), grpc.Trailer(&tr))
		scribble(in)
		if err == nil {
			r.recvs = append(r.recvs, showMsg(out), "EOF")
		} else {
			r.recvs = append(r.recvs, showErr(err))
		}
		r.header, r.trailer = showMD(hd), showMD(tr)
	} else if cs, err := cc.NewStream(ctx, &grpc.StreamDesc{StreamName: p.sh.method, ServerStreams: p.sh.server, ClientStreams: p.sh.client}, p.sh.full()); err != nil {
		r.recvs = append(r.recvs, showErr(err))
		r.header, r.trailer = "{}", "{}"
	} else {
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			var s []string
			for i := 0; i < p.n; i++ {
				m := message("c", i)
				err := cs.SendMsg(m)
				scribble(m)
				s = append(s, okErr(err))
				if err != nil {
					break
				}
			}
			s = append(s, okErr(cs.CloseSend()))
			r.sends = strings.Join(s, " ")
		}()
		go func() {
			defer wg.Done()
			hd, err := cs.Header()
			r.header = showMD(hd)
			if err != nil {
				r.header += showErr(err)
			}
		}()
		for {
			m := message("old", 7)
			err := cs.RecvMsg(m)
			if err == nil {
				r.recvs = append(r.recvs, showMsg(m))
				scribble(m)
				if p.sh.server {
					continue
				}
				r.recvs = append(r.recvs, "EOF")
			} else {
				r.recvs = append(r.recvs, showErr(err))
			}
			break
		}
		r.trailer = showMD(cs.Trailer())
		wg.Wait()
		hd, _ := cs.Header()
		if hs := showMD(hd); hs != r.header {
			r.header += " then " + hs
		}
		if ts := showMD(cs.Trailer()); ts != r.trailer {
			r.trailer += " then " + ts
		}
	}
	vrt.Quiesce()
	r.done = h.done || !h.on
	r.leak = vrt.Goroutines() - g0
	if cancelling {
		r.leak = max(r.leak, 0)
	}
	r.server = strings.Join(l.sv, " ")
	cancel()
	stop()
	return r
}

func expected(p *prog) *result {
	var r *result
	if _, fail := hl.Single(func() (string, string) { r = drive(true, p, false); return "", "" }); fail != "" {
		panic(fail)
	}
	return r
}

// sched checks every schedule of p against what the real transport gives.
func sched(p *prog, cancelling bool) func() (string, string) {
	want := expected(p)
	return func() (string, string) {
		got := drive(false, p, cancelling)
		out := got.String()
		bad := func(k, f string, a ...any) (string, string) {
			return out, fmt.Sprintf("%s: %s: got %s, over gRPC %s", k, fmt.Sprintf(f, a...), out, want)
		}
		if !got.done {
			return bad("handler stuck", "the handler did not return")
		}
		if got.leak != 0 {
			return bad("leak", "%d goroutines are left", got.leak)
		}
		full := true
		last := got.recvs[len(got.recvs)-1]
		if cancelling && last == "Canceled" {
			full = false
			for i, m := range got.recvs[:len(got.recvs)-1] {
				if i >= len(want.recvs)-1 || m != want.recvs[i] {
					return bad("messages", "received something else")
				}
			}
			if h := strings.TrimPrefix(got.header, "{} then "); h != "{}" && h != want.header {
				return bad("header", "neither all nor none")
			}
			if got.trailer != "{}" {
				return bad("trailer", "a trailer although the call was cancelled")
			}
		}
		if full {
			if fmt.Sprint(got.recvs) != fmt.Sprint(want.recvs) {
				return bad("messages", "received something else")
			}
			if got.header != want.header {
				return bad("header", "other header")
			}
			if got.trailer != want.trailer {
				return bad("trailer", "other trailer")
			}
		}
		switch {
		case full && !p.early && (got.server != want.server || got.sends != want.sends):
			return bad("server", "the server received something else")
		case strings.Contains(got.server, "EOF") && p.early:
			return bad("server", "the server saw a half-close that was not")
		}
		// the server receives a prefix of what the client sent
		i := 0
		for _, m := range strings.Fields(strings.ReplaceAll(got.server, "recv ", "")) {
			if m == "err" {
				continue
			}
			if m == "EOF" && i == p.n {
				continue
			}
			if m != fmt.Sprint("c", i) {
				return bad("server", "the server received something else")
			}
			i++
		}
		return out, ""
	}
}

func schedules() []hl.Scenario {
	var r []hl.Scenario
	for _, p := range progs() {
		n := strings.ReplaceAll(p.name, " ", "-")
		r = append(r, hl.Scenario{Name: "schedules/" + n, Cfg: vrt.Config{Bound: 2, Mode: vrt.Repo | vrt.Harness}, Bound2: 3, Body: sched(p, false)},
			hl.Scenario{Name: "cancelled/" + n, Cfg: vrt.Config{Bound: 2, Mode: vrt.Repo | vrt.Harness}, Bound2: 3, Body: sched(p, true)})
	}
	return r
}
