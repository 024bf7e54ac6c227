// C17: group execution honours each strategy's contract.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/group"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

type outcome int

const (
	ok      outcome = iota
	okNil           // succeeds with a nil message
	fail            // fails without a message
	failMsg         // fails with a message
	nOut
)

// failures that look like cancellation, which the contract doesn't treat specially
const (
	failCanceled outcome = nOut + 1 + iota // wraps context.Canceled
	failDeadline                           // is exactly context.DeadlineExceeded
	failStatus                             // a status error
	nAll
)

var outNames = []string{"ok", "okNil", "fail", "failMsg", "", "failCanceled", "failDeadline", "failStatus"}

func (o outcome) failed() bool { return o >= fail }

type strat int

const (
	sAll strat = iota
	sMost
	sAny
	sOne
	sFast
	sRace
	sUnspec
	sBogus
	nStrat
)

var stratNames = []string{"all", "most", "any", "one", "fast", "race", "unspecified", "bogus"}
var stratVals = []group.ExecutionStrategy{
	group.ExecutionStrategyAll, group.ExecutionStrategyMost, group.ExecutionStrategyAny, group.ExecutionStrategyOne,
	group.ExecutionStrategyFast, group.ExecutionStrategyRace, group.ExecutionStrategyUnspecified, group.ExecutionStrategy(77),
}

// call is what an execution returned.
type call struct {
	done  bool
	res   []proto.Message
	err   error
	one   bool // res/idx form
	msg   proto.Message
	idx   int
	panic any
}

// exec runs the strategy; direct uses the strategy's own function rather than Execute.
func exec(ctx context.Context, s strat, direct bool, members []group.Member, upto int) (c call) {
	defer func() {
		c.panic = recover()
		c.done = true
	}()
	if !direct {
		c.res, c.err = group.Execute(ctx, stratVals[s], members)
		return
	}
	switch s {
	case sAll, sUnspec, sBogus:
		c.res, c.err = group.ExecuteAll(ctx, members)
	case sMost:
		c.res, c.err = group.ExecuteMost(ctx, members)
	case sAny:
		c.res, c.err = group.ExecuteAny(ctx, members)
	case sOne:
		c.one = true
		c.msg, c.idx, c.err = group.ExecuteOne(ctx, members)
	case sFast:
		c.one = true
		c.msg, c.idx, c.err = group.ExecuteFast(ctx, members)
	case sRace:
		c.one = true
		c.msg, c.idx, c.err = group.ExecuteRace(ctx, members)
	}
	return
}

type member struct {
	i        int
	out      outcome
	obey     bool // returns as soon as its context is cancelled
	go_      chan bool
	ctx      context.Context
	started  bool
	returned bool
	obeyed   bool // returned because of the context
	msg      proto.Message
	err      error
}

type key struct{}

func newMember(i int, o outcome, obey bool) *member {
	m := &member{i: i, out: o, obey: obey, go_: make(chan bool, 1)}
	if o == ok || o == failMsg {
		m.msg = wrapperspb.String(fmt.Sprint("m", i))
	}
	if o.failed() {
		m.err = fmt.Errorf("e%d", i)
	}
	switch o {
	case failCanceled:
		m.err = fmt.Errorf("e%d: %w", i, context.Canceled)
	case failDeadline:
		m.err = context.DeadlineExceeded
	case failStatus:
		m.err = status.Errorf([]codes.Code{codes.Canceled, codes.NotFound, codes.Unavailable}[i%3], "e%d", i)
	}
	return m
}

func (m *member) run(ctx context.Context) (proto.Message, error) {
	m.ctx = ctx
	m.started = true
	defer func() { m.returned = true }()
	if m.obey {
		select {
		case <-m.go_:
		default:
			select {
			case <-m.go_:
			case <-ctx.Done():
				m.obeyed = true
				m.msg, m.err = nil, ctx.Err()
				return nil, m.err
			}
		}
	} else {
		<-m.go_
	}
	return m.msg, m.err
}

// budget is how many failures the strategy tolerates, parallel gathering strategies only.
func budget(s strat, n int) int {
	switch s {
	case sMost:
		return n / 2
	case sAny:
		return n - 1
	}
	return 0
}

func gathers(s strat) bool { return s != sOne && s != sFast && s != sRace }

// ordered releases the members one at a time in the given order, letting everything
// settle in between, and checks the call's state after each step.
func ordered(s strat, direct bool, outs []outcome, obey []bool, order []int, early int) vrt.Body {
	return func() (string, string) {
		n := len(outs)
		base := vrt.Goroutines()
		ms := make([]*member, n)
		fns := make([]group.Member, n)
		for i := range ms {
			ms[i] = newMember(i, outs[i], obey[i])
			fns[i] = ms[i].run
		}
		pctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, "v"))
		defer cancel()
		var c call
		go func() { c = exec(pctx, s, direct, fns, 0) }()
		vrt.Quiesce()
		if c.panic != nil {
			return "", fmt.Sprintf("panic: %v", c.panic)
		}
		var seq []*member // completion order, as observed
		settle := func() {
			vrt.Quiesce()
			// members that gave up because they were cancelled complete now, in any order
			for _, m := range ms {
				if m.obeyed && !contains(seq, m) {
					seq = append(seq, m)
				}
			}
		}
		settle()
		if s == sOne {
			return checkOne(ms, &c, order, settle, base, direct)
		}
		if n > 0 && c.done {
			return "", "early: the call returned before any member did"
		}
		for _, m := range ms {
			if !m.started {
				return "", fmt.Sprintf("not started: member %d was not started", m.i)
			}
			if m.ctx.Value(key{}) != "v" {
				return "", fmt.Sprintf("context: member %d does not get the caller's context values", m.i)
			}
			if m.ctx.Err() != nil {
				return "", fmt.Sprintf("cancelled early: member %d's context is done before anything was decided", m.i)
			}
		}
		decided := false
		for k, i := range order {
			if k == early {
				// the caller gives up
				cancel()
				settle()
				for _, m := range ms {
					if m.ctx.Err() == nil {
						return "", fmt.Sprintf("context: member %d does not observe that the caller's context is cancelled", m.i)
					}
				}
			}
			m := ms[i]
			wasDone := m.ctx.Err() != nil
			if !m.returned {
				m.go_ <- true
				vrt.Quiesce()
				seq = append(seq, m)
			}
			settle()
			if c.panic != nil {
				return "", fmt.Sprintf("panic: %v", c.panic)
			}
			_ = wasDone
			failed, succeeded, returned := 0, 0, 0
			for _, m := range seq {
				returned++
				if m.err != nil {
					failed++
				} else {
					succeeded++
				}
			}
			now := false
			switch s {
			case sFast:
				now = succeeded > 0 || failed == n
			case sRace:
				now = returned > 0
			default:
				now = failed > budget(s, n)
			}
			if now {
				decided = true
			}
			if decided || early >= 0 && k >= early {
				// every other member must have been told
				for _, o := range ms {
					if o.ctx.Err() == nil && decided {
						return "", fmt.Sprintf("not cancelled: the outcome is decided after %v but member %d's context is alive", names(seq), o.i)
					}
				}
			} else {
				succDecided := gathers(s) && n-failed-(n-returned) >= n-budget(s, n) // success can no longer be lost
				for _, o := range ms {
					if !o.returned && o.ctx.Err() != nil && !succDecided {
						return "", fmt.Sprintf("cancelled early: after %v nothing is decided but member %d's context is done", names(seq), o.i)
					}
				}
				if c.done && returned < n {
					return "", fmt.Sprintf("early: the call returned after %v, nothing was decided", names(seq))
				}
			}
			if (s == sFast || s == sRace) && decided && !c.done {
				return "", fmt.Sprintf("late: the outcome is decided after %v but the call has not returned", names(seq))
			}
			if c.done && gathers(s) && returned < n && c.err == nil {
				return "", fmt.Sprintf("early: the call succeeded before member results were in (%v)", names(seq))
			}
		}
		settle()
		if !c.done {
			return "", "stuck: every member returned but the call did not"
		}
		for _, m := range ms {
			if m.ctx.Err() == nil {
				return "", fmt.Sprintf("not cancelled: the call is over but member %d's context is alive", m.i)
			}
		}
		if f := verdict(s, &c, ms, seq, direct); f != "" {
			return "", f
		}
		if g := vrt.Goroutines(); g > base {
			return "", fmt.Sprintf("leak: %d goroutines are left after every member returned", g-base)
		}
		return describe(&c), ""
	}
}

func contains(seq []*member, m *member) bool {
	for _, x := range seq {
		if x == m {
			return true
		}
	}
	return false
}

func names(seq []*member) string {
	var b []string
	for _, m := range seq {
		s := fmt.Sprintf("%d:%s", m.i, outNames[m.out])
		if m.obeyed {
			s = fmt.Sprintf("%d:cancelled", m.i)
		}
		b = append(b, s)
	}
	return "[" + strings.Join(b, " ") + "]"
}

func describe(c *call) string {
	s := ""
	for _, r := range c.res {
		s += show(r) + " "
	}
	return fmt.Sprintf("%s|%v %d %v", s, show(c.msg), c.idx, c.err)
}

func show(m proto.Message) string {
	if m == nil {
		return "-"
	}
	return m.(*wrapperspb.StringValue).GetValue()
}

// verdict compares the call's result with the contract. seq is the order in which
// the members completed; where two completed together any order is accepted by
// the callers passing loose orders.
func verdict(s strat, c *call, ms []*member, seq []*member, direct bool) string {
	n := len(ms)
	failed := 0
	var firstErr error
	for _, m := range seq {
		if m.err != nil {
			failed++
			if firstErr == nil {
				firstErr = m.err
			}
		}
	}
	if gathers(s) {
		if n == 0 {
			if c.err == nil && len(c.res) != 0 {
				return "results: no members but results"
			}
			if c.err != nil && (s == sAll || s == sUnspec || s == sBogus || s == sMost) {
				return fmt.Sprintf("outcome: no member failed but the call did: %v", c.err)
			}
			return ""
		}
		if failed > budget(s, n) {
			if c.err == nil {
				return fmt.Sprintf("outcome: %v should fail, it succeeded", names(seq))
			}
			if c.err != firstErr {
				return fmt.Sprintf("error: %v returned %v, the first error observed was %v", names(seq), c.err, firstErr)
			}
		} else {
			if c.err != nil {
				return fmt.Sprintf("outcome: %v should succeed, it failed with %v", names(seq), c.err)
			}
			if len(c.res) != n {
				return fmt.Sprintf("results: %d results for %d members", len(c.res), n)
			}
		}
		for i, r := range c.res {
			if i >= n {
				return "results: more results than members"
			}
			if ms[i].err != nil && r == nil {
				continue
			}
			if show(r) != show(ms[i].msg) {
				return fmt.Sprintf("index: result %d is %v, the member returned %v", i, show(r), show(ms[i].msg))
			}
		}
		return ""
	}
	if n == 0 {
		for _, r := range c.res {
			if r != nil {
				return "results: no members but a result"
			}
		}
		return ""
	}
	var win *member
	for _, m := range seq {
		if s == sRace || m.err == nil {
			win = m
			break
		}
	}
	if win == nil || win.err != nil {
		want := firstErr
		if win != nil {
			want = win.err
		}
		if c.err != want {
			return fmt.Sprintf("error: %v returned error %v, want %v", names(seq), c.err, want)
		}
	} else if c.err != nil {
		return fmt.Sprintf("outcome: %v should succeed, it failed with %v", names(seq), c.err)
	}
	return placed(c, win, n)
}

// placed checks that the only result is the winner's, at the winner's index.
func placed(c *call, win *member, n int) string {
	if c.one {
		if win != nil && c.err == nil && (c.idx != win.i || show(c.msg) != show(win.msg)) {
			return fmt.Sprintf("index: got %s of member %d, want %s of member %d", show(c.msg), c.idx, show(win.msg), win.i)
		}
		if win != nil && c.err != nil && c.msg != nil && (c.idx != win.i || show(c.msg) != show(win.msg)) {
			return fmt.Sprintf("index: got %s of member %d with error %v", show(c.msg), c.idx, c.err)
		}
		return ""
	}
	if c.err == nil && len(c.res) != n {
		return fmt.Sprintf("results: %d results for %d members", len(c.res), n)
	}
	for i, r := range c.res {
		if r == nil {
			continue
		}
		if win == nil || i != win.i || show(r) != show(win.msg) {
			return fmt.Sprintf("index: unexpected result %s at %d", show(r), i)
		}
	}
	if win != nil && win.err == nil && show(c.res[win.i]) != show(win.msg) {
		return fmt.Sprintf("index: result %d is %s, want %s", win.i, show(c.res[win.i]), show(win.msg))
	}
	return ""
}

// checkOne: members are tried strictly in order until one succeeds.
func checkOne(ms []*member, c *call, order []int, settle func(), base int, direct bool) (string, string) {
	n := len(ms)
	var firstErr error
	var win *member
	for i, m := range ms {
		for j, o := range ms {
			if o.started != (j <= i) {
				return "", fmt.Sprintf("order: member %d started=%v while member %d is being tried", j, o.started, i)
			}
		}
		if c.done {
			return "", fmt.Sprintf("early: the call returned while member %d is being tried", i)
		}
		if m.ctx.Err() != nil {
			return "", fmt.Sprintf("cancelled early: member %d's context is done", i)
		}
		m.go_ <- true
		settle()
		if c.panic != nil {
			return "", fmt.Sprintf("panic: %v", c.panic)
		}
		if m.err == nil {
			win = m
			break
		}
		if firstErr == nil {
			firstErr = m.err
		}
	}
	if !c.done {
		return "", "stuck: the call has not returned"
	}
	if c.panic != nil {
		return "", fmt.Sprintf("panic: %v", c.panic)
	}
	for j, o := range ms {
		if win != nil && j > win.i && o.started {
			return "", fmt.Sprintf("order: member %d was tried although member %d succeeded", j, win.i)
		}
	}
	if n > 0 {
		if win == nil {
			if c.err == nil || c.err != firstErr {
				return "", fmt.Sprintf("error: every member failed, the call returned %v, want %v", c.err, firstErr)
			}
		} else if c.err != nil {
			return "", fmt.Sprintf("outcome: member %d succeeded but the call failed with %v", win.i, c.err)
		}
	}
	if f := placed(c, win, n); f != "" {
		return "", f
	}
	if g := vrt.Goroutines(); g > base {
		return "", fmt.Sprintf("leak: %d goroutines are left", g-base)
	}
	return describe(c), ""
}

// upTo checks ExecuteUpTo with every error allowance.
func upTo(allowed int, outs []outcome, order []int) vrt.Body {
	return func() (string, string) {
		base := vrt.Goroutines()
		ms := make([]*member, len(outs))
		fns := make([]group.Member, len(outs))
		for i := range ms {
			ms[i] = newMember(i, outs[i], false)
			fns[i] = ms[i].run
		}
		var res []proto.Message
		var err error
		done := false
		go func() {
			res, err = group.ExecuteUpTo(context.Background(), allowed, fns)
			done = true
		}()
		vrt.Quiesce()
		failed := 0
		var first error
		for k, i := range order {
			for _, m := range ms {
				if (m.ctx.Err() != nil) != (failed > allowed) && !(failed <= allowed && k-failed >= len(ms)-allowed) {
					return "", fmt.Sprintf("cancel: after %d failures with %d allowed member %d's context is %v", failed, allowed, m.i, m.ctx.Err())
				}
			}
			ms[i].go_ <- true
			if ms[i].err != nil {
				failed++
				if first == nil {
					first = ms[i].err
				}
			}
			vrt.Quiesce()
		}
		if !done {
			return "", "stuck: the call has not returned"
		}
		if len(ms) > 0 {
			if failed > allowed && err != first {
				return "", fmt.Sprintf("error: got %v, want %v", err, first)
			}
			if failed <= allowed && err != nil {
				return "", fmt.Sprintf("outcome: %d of %d allowed failures but the call failed with %v", failed, allowed, err)
			}
		}
		for i, r := range res {
			if ms[i].err != nil && r == nil {
				continue
			}
			if show(r) != show(ms[i].msg) {
				return "", fmt.Sprintf("index: result %d is %v, the member returned %v", i, show(r), show(ms[i].msg))
			}
		}
		if g := vrt.Goroutines(); g > base {
			return "", fmt.Sprintf("leak: %d goroutines are left", g-base)
		}
		return fmt.Sprint(err), ""
	}
}

// racing: members complete whenever they like; all schedules are explored. The
// order in which responses are observed is free, so every order consistent with
// what the members did is accepted.
func racing(s strat, direct bool, outs []outcome, obey []bool, parent bool) vrt.Body {
	return func() (string, string) {
		n := len(outs)
		base := vrt.Goroutines()
		ms := make([]*member, n)
		fns := make([]group.Member, n)
		for i := range ms {
			ms[i] = newMember(i, outs[i], obey[i])
			if !obey[i] || !parent {
				ms[i].go_ <- true
			}
			m := ms[i]
			fns[i] = func(ctx context.Context) (proto.Message, error) {
				vrt.Yield()
				return m.run(ctx)
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if parent {
			go cancel()
		}
		c := exec(ctx, s, direct, fns, 0)
		if c.panic != nil {
			return "", fmt.Sprintf("panic: %v", c.panic)
		}
		stopped := []*member{}
		for _, m := range ms {
			if m.started && !m.returned && m.ctx.Err() == nil {
				return "", fmt.Sprintf("not cancelled: the call returned but member %d's context is alive", m.i)
			}
			if m.returned {
				stopped = append(stopped, m)
			}
		}
		if gathers(s) && c.err == nil && len(stopped) < n {
			return "", "early: the call succeeded before every member returned"
		}
		vrt.Quiesce()
		for _, m := range ms {
			if m.started && !m.returned {
				return "", fmt.Sprintf("stuck: member %d has not returned", m.i)
			}
		}
		if g := vrt.Goroutines(); g > base {
			return "", fmt.Sprintf("leak: %d goroutines are left after every member returned", g-base)
		}
		// some order of the members must explain the result
		f := ""
		good := false
		var seq []*member
		for _, m := range ms {
			if m.started {
				seq = append(seq, m)
			}
		}
		if s == sOne {
			return describe(&c), verdictOne(&c, ms)
		}
		perms(len(seq), func(p []int) bool {
			o := make([]*member, len(seq))
			for i, j := range p {
				o[i] = seq[j]
			}
			f = verdict(s, &c, ms, o, direct)
			good = f == ""
			return !good
		})
		if !good {
			return describe(&c), f
		}
		return describe(&c), ""
	}
}

func verdictOne(c *call, ms []*member) string {
	var first error
	for _, m := range ms {
		if !m.started {
			if c.err == nil {
				return fmt.Sprintf("order: member %d was never tried", m.i)
			}
			continue
		}
		if m.err == nil {
			if c.err != nil {
				return fmt.Sprintf("outcome: member %d succeeded, the call failed with %v", m.i, c.err)
			}
			return placed(c, m, len(ms))
		}
		if first == nil {
			first = m.err
		}
	}
	if len(ms) > 0 && c.err == nil {
		return "outcome: every member failed, the call succeeded"
	}
	if len(ms) > 0 && c.err != first {
		return fmt.Sprintf("error: got %v, want %v", c.err, first)
	}
	return ""
}

func perms(n int, f func([]int) bool) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func() bool
	rec = func() bool {
		if len(p) == n {
			return f(p)
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			used[i] = true
			p = append(p, i)
			r := rec()
			p = p[:len(p)-1]
			used[i] = false
			if !r {
				return false
			}
		}
		return true
	}
	rec()
}

func vectors(n, k int, f func([]int)) {
	v := make([]int, n)
	for {
		f(append([]int(nil), v...))
		i := 0
		for ; i < n; i++ {
			v[i]++
			if v[i] < k {
				break
			}
			v[i] = 0
		}
		if i == n {
			return
		}
	}
}

// ---- trait groups ----

var errMember = status.Error(codes.Unavailable, "member down")

// client is a scripted member device for both traits.
type client struct {
	w    *tw
	kind string
}

// tw is the world behind a trait group.
type tw struct {
	outs    map[string]outcome // per member
	opens   int
	streams map[string]*mstream
	calls   []string
	reqs    map[string]proto.Message
}

type mstream struct {
	grpc.ClientStream
	ctx context.Context
	ch  chan any // level or error
}

func (m *mstream) Context() context.Context     { return m.ctx }
func (m *mstream) Header() (metadata.MD, error) { return nil, nil }
func (m *mstream) Trailer() metadata.MD         { return nil }
func (m *mstream) CloseSend() error             { return nil }

func (m *mstream) recv() (int, error) {
	select {
	case x := <-m.ch:
		if e, ok := x.(error); ok {
			return 0, e
		}
		return x.(int), nil
	case <-m.ctx.Done():
		return 0, m.ctx.Err()
	}
}

func (w *tw) call(ctx context.Context, name string, req proto.Message) error {
	w.calls = append(w.calls, name)
	w.reqs[name] = req
	if w.outs[name].failed() {
		return fmt.Errorf("e%s", name)
	}
	return nil
}

func (w *tw) open(ctx context.Context, name string) (*mstream, error) {
	if w.outs[name] == failMsg { // refuses to open
		return nil, fmt.Errorf("e%s", name)
	}
	s := &mstream{ctx: ctx, ch: make(chan any, 4)}
	w.streams[name] = s
	return s, nil
}

type onoffClient struct{ w *tw }

func st(i int) traits.OnOff_State {
	if i > 0 {
		return traits.OnOff_ON
	}
	return traits.OnOff_OFF
}

func idx(name string) int { return int(name[0] - 'A') }

func (c onoffClient) GetOnOff(ctx context.Context, r *traits.GetOnOffRequest, _ ...grpc.CallOption) (*traits.OnOff, error) {
	if err := c.w.call(ctx, r.Name, r); err != nil {
		return nil, err
	}
	return &traits.OnOff{State: traits.OnOff_ON}, nil
}
func (c onoffClient) UpdateOnOff(ctx context.Context, r *traits.UpdateOnOffRequest, _ ...grpc.CallOption) (*traits.OnOff, error) {
	if err := c.w.call(ctx, r.Name, r); err != nil {
		return nil, err
	}
	return &traits.OnOff{State: traits.OnOff_ON}, nil
}
func (c onoffClient) PullOnOff(ctx context.Context, r *traits.PullOnOffRequest, _ ...grpc.CallOption) (grpc.ServerStreamingClient[traits.PullOnOffResponse], error) {
	s, err := c.w.open(ctx, r.Name)
	if err != nil {
		return nil, err
	}
	return &onoffStream{s}, nil
}

type onoffStream struct{ *mstream }

func (s *onoffStream) Recv() (*traits.PullOnOffResponse, error) {
	v, err := s.recv()
	if err != nil {
		return nil, err
	}
	return &traits.PullOnOffResponse{Changes: []*traits.PullOnOffResponse_Change{{Name: "member", OnOff: &traits.OnOff{State: st(v)}}}}, nil
}

type lightClient struct {
	traits.LightApiClient
	w *tw
}

func (c lightClient) GetBrightness(ctx context.Context, r *traits.GetBrightnessRequest, _ ...grpc.CallOption) (*traits.Brightness, error) {
	if err := c.w.call(ctx, r.Name, r); err != nil {
		return nil, err
	}
	return &traits.Brightness{LevelPercent: 40}, nil
}
func (c lightClient) UpdateBrightness(ctx context.Context, r *traits.UpdateBrightnessRequest, _ ...grpc.CallOption) (*traits.Brightness, error) {
	if err := c.w.call(ctx, r.Name, r); err != nil {
		return nil, err
	}
	return &traits.Brightness{LevelPercent: 40}, nil
}
func (c lightClient) PullBrightness(ctx context.Context, r *traits.PullBrightnessRequest, _ ...grpc.CallOption) (grpc.ServerStreamingClient[traits.PullBrightnessResponse], error) {
	s, err := c.w.open(ctx, r.Name)
	if err != nil {
		return nil, err
	}
	return &lightStream{s}, nil
}

type lightStream struct{ *mstream }

func (s *lightStream) Recv() (*traits.PullBrightnessResponse, error) {
	v, err := s.recv()
	if err != nil {
		return nil, err
	}
	return &traits.PullBrightnessResponse{Changes: []*traits.PullBrightnessResponse_Change{{Name: "member", Brightness: &traits.Brightness{LevelPercent: float32(v)}}}}, nil
}

// server side stream of a group pull
type gstream struct {
	grpc.ServerStream
	ctx    context.Context
	sent   []string
	fail   int // Send fails from this message on, -1 never
	names  []string
	failed bool
}

func (g *gstream) Context() context.Context { return g.ctx }
func (g *gstream) send(name, v string) error {
	if g.fail >= 0 && len(g.sent) >= g.fail {
		g.failed = true
		return errMember
	}
	g.sent = append(g.sent, v)
	g.names = append(g.names, name)
	return nil
}

type gOnOff struct{ *gstream }

func (g gOnOff) Send(r *traits.PullOnOffResponse) error {
	return g.send(r.Changes[0].Name, r.Changes[0].OnOff.GetState().String())
}

type gLight struct{ *gstream }

func (g gLight) Send(r *traits.PullBrightnessResponse) error {
	return g.send(r.Changes[0].Name, fmt.Sprint(r.Changes[0].Brightness.GetLevelPercent()))
}

type grp struct {
	get, update func(ctx context.Context) (string, error)
	pull        func(g *gstream) error
}

func newGrp(kind string, w *tw, read, write group.ExecutionStrategy, names []string) grp {
	if kind == "onoff" {
		g := onoffpb.NewGroup(onoffClient{w}, names...)
		g.ReadExecution, g.WriteExecution = read, write
		return grp{
			func(ctx context.Context) (string, error) {
				m, err := g.GetOnOff(ctx, &traits.GetOnOffRequest{Name: "G"})
				return m.GetState().String(), err
			},
			func(ctx context.Context) (string, error) {
				m, err := g.UpdateOnOff(ctx, &traits.UpdateOnOffRequest{Name: "G", OnOff: &traits.OnOff{State: traits.OnOff_ON}})
				return m.GetState().String(), err
			},
			func(x *gstream) error { return g.PullOnOff(&traits.PullOnOffRequest{Name: "G"}, gOnOff{x}) },
		}
	}
	g := lightpb.NewGroup(lightClient{w: w}, names...)
	g.ReadExecution, g.WriteExecution = read, write
	return grp{
		func(ctx context.Context) (string, error) {
			m, err := g.GetBrightness(ctx, &traits.GetBrightnessRequest{Name: "G"})
			return fmt.Sprint(m.GetLevelPercent()), err
		},
		func(ctx context.Context) (string, error) {
			m, err := g.UpdateBrightness(ctx, &traits.UpdateBrightnessRequest{Name: "G", Brightness: &traits.Brightness{LevelPercent: 40}})
			return fmt.Sprint(m.GetLevelPercent()), err
		},
		func(x *gstream) error {
			return g.PullBrightness(&traits.PullBrightnessRequest{Name: "G"}, gLight{x})
		},
	}
}

func traitNames(n int) []string { return []string{"A", "B", "C", "D"}[:n] }

// traitUnary: Get and Update of a group with every outcome vector.
func traitUnary(kind string, s, other strat, write bool, outs []outcome) vrt.Body {
	return func() (string, string) {
		base := vrt.Goroutines()
		w := &tw{outs: map[string]outcome{}, streams: map[string]*mstream{}, reqs: map[string]proto.Message{}}
		ns := traitNames(len(outs))
		failed := 0
		for i, n := range ns {
			w.outs[n] = outs[i]
			if outs[i].failed() {
				failed++
			}
		}
		rd, wr := s, other
		if write {
			rd, wr = other, s
		}
		g := newGrp(kind, w, stratVals[rd], stratVals[wr], ns)
		f := g.get
		if write {
			f = g.update
		}
		got, err := f(context.Background())
		vrt.Quiesce()
		if n := vrt.Goroutines(); n > base {
			return "", fmt.Sprintf("leak: %d goroutines are left", n-base)
		}
		n := len(ns)
		var wantFail, either bool
		switch s {
		case sOne, sFast:
			wantFail = failed == n
		case sRace:
			either = failed > 0
		default:
			wantFail = failed > budget(s, n)
		}
		if n == 0 {
			either = true
		}
		if !either && (err != nil) != wantFail {
			return "", fmt.Sprintf("outcome: %d of %d members fail, the group returned %q, %v", failed, n, got, err)
		}
		if s != sOne && len(w.calls) != n {
			return "", fmt.Sprintf("members: %d members were called, want %d", len(w.calls), n)
		}
		for name, r := range w.reqs {
			if u, ok := r.(*traits.UpdateOnOffRequest); ok && u.OnOff.GetState() != traits.OnOff_ON || name != "" && ok && u.Name != name {
				return "", "request: the member's request differs"
			}
			if u, ok := r.(*traits.UpdateBrightnessRequest); ok && u.Brightness.GetLevelPercent() != 40 {
				return "", "request: the member's request differs"
			}
		}
		return fmt.Sprint(got, err), ""
	}
}

// traitPull: a group subscription whose members fail to open, end, or are alive,
// ended by the caller, a member or a failing Send at any point.
func traitPull(kind string, s strat, outs []outcome, vals int, end string, race bool) vrt.Body {
	return func() (string, string) {
		base := vrt.Goroutines()
		w := &tw{outs: map[string]outcome{}, streams: map[string]*mstream{}, reqs: map[string]proto.Message{}}
		ns := traitNames(len(outs))
		alive := 0
		for i, n := range ns {
			w.outs[n] = outs[i]
			if outs[i] != failMsg {
				alive++
			}
		}
		other := sAll
		if s == sAll || s == sUnspec || s == sBogus {
			other = sRace
		}
		g := newGrp(kind, w, stratVals[s], stratVals[other], ns)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		gs := &gstream{ctx: ctx, fail: -1}
		if end == "send" {
			gs.fail = vals - 1
			if race {
				gs.fail = 0
			}
		}
		done := false
		var err error
		var pan any
		go func() {
			defer func() { pan = recover(); done = true }()
			err = g.pull(gs)
		}()
		if !race {
			vrt.Quiesce()
		} else {
			vrt.Yield()
		}
		for v := 1; v <= vals; v++ {
			for i, n := range ns {
				m := w.streams[n]
				if m == nil {
					continue
				}
				if outs[i] == fail && v == vals {
					select {
					case m.ch <- io.EOF:
					default:
					}
					continue
				}
				select {
				case m.ch <- v % 2:
				default:
				}
				if !race {
					vrt.Quiesce()
				}
			}
		}
		if end == "cancel" {
			cancel()
		}
		vrt.Quiesce()
		if race && gs.failed && !done {
			return "", "stuck: the group subscription has not ended after its Send failed"
		}
		if pan != nil {
			return "", fmt.Sprintf("panic: %v", pan)
		}
		if end != "none" {
			if !done && (end == "cancel" || end == "send" && len(gs.sent) >= gs.fail && alive > 0 && vals > 1) {
				cancel()
				vrt.Quiesce()
				if !done {
					return "", "stuck: the group subscription has not ended"
				}
			}
		}
		if end == "none" && s != sOne {
			failed := 0
			for _, o := range outs {
				if o == failMsg || o == fail && vals > 0 {
					failed++
				}
			}
			n := len(outs)
			over := failed > budget(s, n)
			switch s {
			case sFast:
				over = failed == n
			case sRace:
				over = failed > 0
			}
			if n > 0 && done != over {
				return "", fmt.Sprintf("outcome: %d of %d members' streams failed, the group subscription ended=%v (%v)", failed, n, done, err)
			}
			if n > 0 && done && err == nil {
				return "", "outcome: the members' streams failed but the group subscription ended without an error"
			}
			if !over && alive > failed-(n-alive) && vals > 0 && len(gs.sent) == 0 && alive > 0 {
				return "", "values: nothing was sent although members reported values"
			}
		}
		for _, n := range gs.names {
			if n != "G" {
				return "", fmt.Sprintf("name: the change carries the name %q", n)
			}
		}
		cancel()
		vrt.Quiesce()
		if !done {
			return "", "stuck: the group subscription has not ended after its context was cancelled"
		}
		if n := vrt.Goroutines(); n > base {
			return "", fmt.Sprintf("leak: %d goroutines are left after the group subscription ended", n-base)
		}
		if errors.Is(err, io.ErrUnexpectedEOF) {
			return "", "error: unexpected"
		}
		return fmt.Sprint(len(gs.sent), err), ""
	}
}

func toOuts(v []int) []outcome {
	o := make([]outcome, len(v))
	for i, x := range v {
		o[i] = outcome(x)
	}
	return o
}

func label(outs []outcome) string {
	var b []string
	for _, o := range outs {
		b = append(b, outNames[o])
	}
	return strings.Join(b, ",")
}

func scenarios() []hl.Scenario {
	var r []hl.Scenario
	_ = time.Second
	for s := strat(0); s < nStrat; s++ {
		for _, direct := range []bool{false, true} {
			s, direct := s, direct
			d := ""
			if direct {
				d = "-direct"
			}
			r = append(r, hl.Scenario{Name: "ordered/" + stratNames[s] + d, Shards: 4, Enum: func(e *hl.E) {
				max := hl.Pick(3, 4)
				for n := 0; n <= max; n++ {
					k := int(nOut)
					if n > 3 {
						k = 3 // without failMsg
					}
					vectors(n, k, func(v []int) {
						outs := toOuts(v)
						vectors(n, 2, func(ob []int) {
							if n > 3 && ob[0]+ob[1]+ob[2] > 0 && ob[0]*ob[1]*ob[2] == 0 {
								return
							}
							obey := make([]bool, n)
							for i := range ob {
								obey[i] = ob[i] == 1
							}
							perms(n, func(p []int) bool {
								p = append([]int(nil), p...)
								for early := -1; early < n; early++ {
									if s == sOne && early >= 0 {
										break
									}
									early := early
									e.Case(func() string {
										return fmt.Sprintf("%s obey=%v order=%v parent cancelled at %d", label(outs), obey, p, early)
									},
										func() (string, string) { return hl.Single(ordered(s, direct, outs, obey, p, early)) })
								}
								return s != sOne && !e.Stopped()
							})
						})
					})
				}
			}})
		}
		// free running
		for n := 0; n <= 3; n++ {
			vectors(n, int(nOut), func(v []int) {
				outs := toOuts(v)
				for ob := 0; ob < 2; ob++ {
					if n == 0 && ob > 0 {
						continue
					}
					obey := make([]bool, n)
					for i := range obey {
						obey[i] = ob == 1
					}
					for _, parent := range []bool{false, true} {
						if n == 3 && (v[0] == int(okNil) || v[0] == int(failMsg) || v[1] == int(okNil) || v[1] == int(failMsg) || v[2] == int(failMsg) || v[2] == int(okNil)) {
							continue
						}
						b, b2 := 4, 7
						if n == 3 {
							b, b2 = 2, 4
						} else if n == 2 {
							b, b2 = 2, 4
						}
						r = append(r, hl.Scenario{Name: fmt.Sprintf("racing/%s/%d/%s/obey=%v/parent=%v", stratNames[s], n, label(outs), ob == 1, parent),
							Cfg:    vrt.Config{Mode: vrt.Repo | vrt.Context | vrt.Harness, Bound: b},
							Bound2: b2, Body: racing(s, false, outs, obey, parent)})
					}
				}
			})
		}
		s := s
		r = append(r, hl.Scenario{Name: "errors/" + stratNames[s], Shards: 2, Enum: func(e *hl.E) {
			kinds := []outcome{ok, failCanceled, failDeadline, failStatus}
			for n := 1; n <= hl.Pick(3, 4); n++ {
				vectors(n, len(kinds), func(v []int) {
					outs := make([]outcome, n)
					for i := range v {
						outs[i] = kinds[v[i]]
					}
					for _, ob := range []bool{false, true} {
						obey := make([]bool, n)
						for i := range obey {
							obey[i] = ob
						}
						perms(n, func(p []int) bool {
							p = append([]int(nil), p...)
							return e.Case(func() string { return fmt.Sprint(label(outs), ob, p) },
								func() (string, string) { return hl.Single(ordered(s, false, outs, obey, p, -1)) })
						})
					}
				})
			}
		}})
		r = append(r, hl.Scenario{Name: "many/" + stratNames[s], Enum: func(e *hl.E) {
			// larger groups: outcomes by position in the group, completion in a few orders
			for _, n := range []int{5, 6, 7, 8, 9, 16, 17, 33} {
				shapes := map[string]func(i int) bool{ // which members fail
					"none": func(i int) bool { return false }, "all": func(i int) bool { return true },
					"first": func(i int) bool { return i == 0 }, "last": func(i int) bool { return i == n-1 },
					"allbutfirst": func(i int) bool { return i > 0 }, "allbutlast": func(i int) bool { return i < n-1 },
					"half": func(i int) bool { return i < n/2 }, "morethanhalf": func(i int) bool { return i <= n/2 },
					"even": func(i int) bool { return i%2 == 0 }, "odd": func(i int) bool { return i%2 == 1 },
				}
				names := make([]string, 0, len(shapes))
				for name := range shapes {
					names = append(names, name)
				}
				sort.Strings(names)
				for _, name := range names {
					outs := make([]outcome, n)
					for i := range outs {
						if shapes[name](i) {
							outs[i] = fail
						}
					}
					for _, ob := range []bool{false, true} {
						obey := make([]bool, n)
						for i := range obey {
							obey[i] = ob
						}
						for _, ord := range []string{"up", "down", "middle", "interleaved"} {
							p := make([]int, n)
							for i := range p {
								switch ord {
								case "up":
									p[i] = i
								case "down":
									p[i] = n - 1 - i
								case "middle":
									p[i] = (i + n/2) % n
								case "interleaved":
									p[i] = i / 2
									if i%2 == 1 {
										p[i] = n - 1 - i/2
									}
								}
							}
							for early := -1; early < n; early += n - 1 {
								if s == sOne && early >= 0 {
									break
								}
								if !e.Case(func() string { return fmt.Sprint(n, name, ob, ord, early) },
									func() (string, string) { return hl.Single(ordered(s, false, outs, obey, p, early)) }) {
									return
								}
							}
						}
					}
				}
			}
		}})
		for _, kind := range []string{"onoff", "light"} {
			kind, s := kind, s
			for _, write := range []bool{false, true} {
				write := write
				r = append(r, hl.Scenario{Name: fmt.Sprintf("unary/%s/%s/write=%v", kind, stratNames[s], write), Enum: func(e *hl.E) {
					for n := 0; n <= 4; n++ {
						vectors(n, 2, func(v []int) {
							outs := make([]outcome, n)
							for i := range v {
								outs[i] = outcome(v[i] * int(fail))
							}
							for _, other := range []strat{sAll, sAny, sOne} {
								e.Case(func() string { return label(outs) }, func() (string, string) { return hl.Single(traitUnary(kind, s, other, write, outs)) })
							}
						})
					}
				}})
			}
			r = append(r, hl.Scenario{Name: fmt.Sprintf("pull/%s/%s", kind, stratNames[s]), Shards: 2, Enum: func(e *hl.E) {
				for n := 0; n <= hl.Pick(2, 3); n++ {
					vectors(n, 3, func(v []int) {
						outs := make([]outcome, n)
						for i := range v {
							outs[i] = []outcome{ok, fail, failMsg}[v[i]]
						}
						for vals := 0; vals <= 3; vals++ {
							for _, end := range []string{"cancel", "send", "none"} {
								vals, end := vals, end
								e.Case(func() string { return fmt.Sprint(label(outs), vals, end) },
									func() (string, string) { return hl.Single(traitPull(kind, s, outs, vals, end, false)) })
							}
						}
					})
				}
			}})
			for n := 1; n <= 2; n++ {
				vectors(n, 3, func(v []int) {
					outs := make([]outcome, n)
					for i := range v {
						outs[i] = []outcome{ok, fail, failMsg}[v[i]]
					}
					for _, end := range []string{"cancel", "send"} {
						r = append(r, hl.Scenario{Name: fmt.Sprintf("pullrace/%s/%s/%s/%s", kind, stratNames[s], label(outs), end),
							Cfg: vrt.Config{Mode: vrt.Repo | vrt.Context | vrt.Harness, Bound: 4 - n}, Bound2: 6 - n,
							Body: traitPull(kind, s, outs, 2, end, true)})
					}
				})
			}
		}
	}
	for n := 0; n <= 4; n++ {
		n := n
		r = append(r, hl.Scenario{Name: fmt.Sprintf("upto/%d", n), Enum: func(e *hl.E) {
			for allowed := -1; allowed <= n; allowed++ {
				vectors(n, 2, func(v []int) {
					outs := make([]outcome, n)
					for i := range v {
						outs[i] = outcome(v[i] * int(fail))
					}
					perms(n, func(p []int) bool {
						p = append([]int(nil), p...)
						if allowed < 0 && n > 0 {
							return false
						}
						return e.Case(func() string { return fmt.Sprint(allowed, label(outs), p) }, func() (string, string) { return hl.Single(upTo(allowed, outs, p)) })
					})
				})
			}
		}})
	}
	return r
}

func main() { hl.Main("C17", scenarios) }
