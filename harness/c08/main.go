// C08: include-filtered List and Pull behave as the filtered collection.
package main

import (
	"context"
	"fmt"
	"maps"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	timepb "github.com/smart-core-os/sc-api/go/types/time"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type md = traits.Metadata

func m(name, title string) *md {
	return &md{Name: name, Appearance: &traits.Metadata_Appearance{Title: title}}
}

type op struct {
	name string
	id   string
	msg  *md // nil: delete
	fail bool
}

var ops = []op{
	{"a=x1", "a", m("x", "1"), false},
	{"a=x2", "a", m("x", "2"), false},
	{"a=y1", "a", m("y", "1"), false},
	{"b=x1", "b", m("x", "1"), false},
	{"b=y2", "b", m("y", "2"), false},
	{"delete a", "a", nil, false},
	{"delete b", "b", nil, false},
	{"a=y2 (check fails)", "a", m("y", "2"), true},
}

// pred is a truth table: bits (a,x) (a,y) (b,x) (b,y) (a,absent) (b,absent).
type pred uint

func (p pred) String() string {
	var s []string
	for i, n := range []string{"a/x", "a/y", "b/x", "b/y", "a/absent", "b/absent"} {
		if p>>i&1 == 1 {
			s = append(s, n)
		}
	}
	return "{" + strings.Join(s, ",") + "}"
}

func (p pred) include(id string, msg proto.Message) bool {
	i := 0
	if id == "b" {
		i = 2
	}
	if msg == nil || !msg.ProtoReflect().IsValid() {
		return p>>(4+i/2)&1 == 1
	}
	if msg.(*md).Name == "y" {
		i++
	}
	return p>>i&1 == 1
}

// has is the predicate over the items of a collection: absent items are never in it.
func (p pred) has(id string, msg proto.Message) bool { return msg != nil && p.include(id, msg) }

type conf struct {
	upd, equiv bool
	mask       rm.Mask
	pre        int
}

func (c conf) String() string {
	return fmt.Sprintf("updatesOnly=%v,equiv=%v,mask=%v,pre=%d", c.upd, c.equiv, c.mask, c.pre)
}

func (c conf) proj(x proto.Message) proto.Message {
	if x == nil || !c.mask.Set {
		return x
	}
	return rm.Project(x, rm.MaskTree(c.mask.Paths))
}

func (c conf) opts(p pred, bp bool) []resource.ReadOption {
	o := []resource.ReadOption{resource.WithBackpressure(bp), resource.WithUpdatesOnly(c.upd), resource.WithInclude(p.include)}
	if c.mask.Set {
		o = append(o, resource.WithReadMask(c.mask.PB()))
	}
	return o
}

type logEntry struct {
	id       string
	old, new proto.Message
	time     time.Time
}

// filtered derives the events of the filtered collection.
func (c conf) filtered(p pred, model map[string]proto.Message, times map[string]time.Time, log []logEntry) []rm.Exp {
	var out []rm.Exp
	held, guess := map[string]proto.Message{}, map[string]bool{}
	var ids []string
	for _, id := range []string{"a", "b"} {
		if x := model[id]; p.has(id, x) {
			ids = append(ids, id)
			held[id] = c.proj(x)
			guess[id] = c.upd
		}
	}
	if !c.upd {
		for i, id := range ids {
			out = append(out, rm.Exp{Ev: rm.Ev{ID: id, Kind: types.ChangeType_ADD, New: held[id], Time: times[id], Seed: true, Last: i == len(ids)-1}})
		}
	}
	for _, l := range log {
		o, n := l.old, l.new
		if !p.has(l.id, o) {
			o = nil
		}
		if !p.has(l.id, n) {
			n = nil
		}
		e := rm.Exp{Ev: rm.Ev{ID: l.id, Time: l.time, Old: c.proj(o), New: c.proj(n)}}
		switch {
		case o == nil && n == nil:
			continue
		case o == nil:
			e.Kind = types.ChangeType_ADD
		case n == nil:
			e.Kind = types.ChangeType_REMOVE
		default:
			e.Kind = types.ChangeType_UPDATE
			if c.equiv && proto.Equal(held[l.id], e.New) {
				if !guess[l.id] {
					continue
				}
				e.Opt = true
			}
		}
		delete(guess, l.id)
		held[l.id] = e.New
		out = append(out, e)
	}
	return out
}

func view(p pred, c conf, model map[string]proto.Message) rm.View {
	v := rm.View{}
	for id, x := range model {
		if p.has(id, x) {
			v[id] = c.proj(x)
		}
	}
	return v
}

func newCol(c conf) (*resource.Collection, map[string]proto.Message) {
	model := map[string]proto.Message{}
	var ropts []resource.Option
	if c.equiv {
		ropts = append(ropts, resource.WithNoDuplicates())
	}
	if c.pre >= 1 {
		model["a"] = m("x", "1")
		ropts = append(ropts, resource.WithInitialRecord("a", m("x", "1")))
	}
	if c.pre >= 2 {
		model["b"] = m("y", "1")
		ropts = append(ropts, resource.WithInitialRecord("b", m("y", "1")))
	}
	return resource.NewCollection(ropts...), model
}

// do performs an op; it returns the log entry of a successful one.
func do(col *resource.Collection, model map[string]proto.Message, o op, t time.Time) *logEntry {
	old := model[o.id]
	if o.msg == nil {
		if _, err := col.Delete(o.id, resource.WithWriteTime(t)); err != nil || old == nil {
			return nil
		}
		delete(model, o.id)
		return &logEntry{o.id, old, nil, t}
	}
	w := []resource.WriteOption{resource.WithCreateIfAbsent(), resource.WithWriteTime(t)}
	if o.fail {
		w = append(w, resource.WithExpectedCheck(func(proto.Message) error { return context.Canceled }))
	}
	if _, err := col.Update(o.id, proto.Clone(o.msg), w...); err != nil {
		return nil
	}
	model[o.id] = o.msg
	return &logEntry{o.id, old, o.msg, t}
}

func listCheck(col *resource.Collection, p pred, c conf, model map[string]proto.Message) string {
	o := []resource.ReadOption{resource.WithInclude(p.include)}
	if c.mask.Set {
		o = append(o, resource.WithReadMask(c.mask.PB()))
	}
	got := col.List(o...)
	var want []proto.Message
	for _, id := range []string{"a", "b"} {
		if x := model[id]; p.has(id, x) {
			want = append(want, c.proj(x))
		}
	}
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = proto.Equal(got[i], want[i])
	}
	if !ok {
		return fmt.Sprintf("list: got %v, want %v", texts(got), texts(want))
	}
	return ""
}

func texts(ms []proto.Message) (s []string) {
	for _, x := range ms {
		s = append(s, rm.Text(x))
	}
	return
}

func clone(x map[string]proto.Message) map[string]proto.Message {
	c := map[string]proto.Message{}
	for k, v := range x {
		c[k] = v
	}
	return c
}

type sub struct {
	all, a *rm.Sink
	seed   map[string]proto.Message
	times  map[string]time.Time
	at     int
}

// runSeq: readers that keep up (backpressured or not) get exactly the filtered
// collection's events; slow lossy ones a valid sequence folding to the same view.
func runSeq(c conf, p pred, seq []int) (string, string) {
	col, model := newCol(c)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var log []logEntry
	times := map[string]time.Time{}
	var bps, lossy []*sub
	type slow struct {
		ch   <-chan *resource.CollectionChange
		seed map[string]proto.Message
	}
	var slows []slow
	open := func() {
		for i, l := range []*[]*sub{&bps, &lossy} {
			*l = append(*l, &sub{all: rm.Collect(col.Pull(ctx, c.opts(p, i == 0)...)),
				a: rm.CollectV(col.PullID(ctx, "a", c.opts(p, i == 0)...)), seed: clone(model), times: maps.Clone(times), at: len(log)})
		}
		slows = append(slows, slow{col.Pull(ctx, c.opts(p, false)...), clone(model)})
		vrt.Quiesce()
	}
	for k, oi := range seq {
		open()
		if l := do(col, model, ops[oi], time.Unix(int64(1000+k), 0)); l != nil {
			times[l.id] = l.time
			log = append(log, *l)
		}
		vrt.Quiesce()
		if d := listCheck(col, p, c, model); d != "" {
			return "", d
		}
	}
	open()
	for i, l := range [][]*sub{bps, lossy} {
		for _, s := range l {
			want := c.filtered(p, s.seed, s.times, log[s.at:])
			if d := rm.MatchEvs(s.all.Evs, want); d != "" {
				return "", fmt.Sprintf("Pull %s (lossy=%v, subscribed after %d writes; received %v)", d, i == 1, s.at, rm.Evs(s.all.Evs))
			}
			var wa []rm.Exp
			ends := false
			for _, e := range want {
				if e.ID != "a" {
					continue
				}
				if e.Kind == types.ChangeType_REMOVE {
					ends = true
					break
				}
				e.ID, e.Kind, e.Old, e.Last = "", 0, nil, e.Seed
				wa = append(wa, e)
			}
			if d := rm.MatchEvs(s.a.Evs, wa); d != "" {
				return "", fmt.Sprintf("PullID %s (lossy=%v, subscribed after %d writes; received %v)", d, i == 1, s.at, rm.Evs(s.a.Evs))
			}
			if ends != s.a.Closed {
				return "", fmt.Sprintf("PullID end: closed=%v want %v (lossy=%v, subscribed after %d writes)", s.a.Closed, ends, i == 1, s.at)
			}
		}
	}
	for k, s := range slows {
		sink := rm.Collect(s.ch)
		vrt.Quiesce()
		if d := foldCheck(c, p, s.seed, sink.Evs, model); d != "" {
			return "", fmt.Sprintf("slow Pull %s (subscribed after %d ops; received %v)", d, k, rm.Evs(sink.Evs))
		}
	}
	return rm.Evs(bps[0].all.Evs) + rm.View(model).String(), ""
}

// foldCheck: every event fits the view it is applied to and the final view is
// the filtered collection.
func foldCheck(c conf, p pred, seed map[string]proto.Message, evs []rm.Ev, model map[string]proto.Message) string {
	v := rm.View{}
	if c.upd {
		v = view(p, c, seed)
	}
	for i, e := range evs {
		if e.Seed {
			if c.upd {
				return "seed: an updates-only subscription received a seed"
			}
		}
		if d := v.Apply(e); d != "" && !c.equiv {
			return fmt.Sprintf("event does not fit: %s (event %d, %v)", d, i, e)
		}
	}
	if want := view(p, c, model); !v.Equal(want) {
		return fmt.Sprintf("fold: view %v, List %v", v, want)
	}
	return ""
}

func confs() []conf {
	var out []conf
	for _, pre := range []int{0, 2} {
		for _, u := range []bool{false, true} {
			out = append(out, conf{upd: u, pre: pre})
			out = append(out, conf{upd: u, pre: pre, mask: rm.MaskOf("appearance.title")})
			out = append(out, conf{upd: u, pre: pre, mask: rm.MaskOf("name"), equiv: true})
		}
	}
	return out
}

// racing: two writers and an opening subscriber; the fold is the filtered list.
func racing(c conf, p pred, bp bool, w1, w2 []int) vrt.Body {
	return func() (string, string) {
		col, model0 := newCol(c)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var sink *rm.Sink
		done := make(chan bool, 3)
		for _, w := range [][]int{w1, w2} {
			if len(w) == 0 {
				done <- true
				continue
			}
			go func() {
				for _, i := range w {
					do(col, map[string]proto.Message{}, ops[i], time.Unix(int64(1000+i), 0))
				}
				done <- true
			}()
		}
		go func() {
			sink = rm.Collect(col.Pull(ctx, c.opts(p, bp)...))
			done <- true
		}()
		for i := 0; i < 3; i++ {
			<-done
		}
		vrt.Quiesce()
		_ = model0
		want := rm.View{}
		for _, id := range []string{"a", "b"} {
			if x, ok := col.Get(id); ok && p.has(id, x) {
				want[id] = c.proj(x)
			}
		}
		got := rm.View{}
		for i, e := range sink.Evs {
			if d := got.Apply(e); d != "" {
				return "", fmt.Sprintf("event does not fit: %s (event %d of %v)", d, i, rm.Evs(sink.Evs))
			}
		}
		if !got.Equal(want) {
			return "", fmt.Sprintf("fold: view %v, List %v (%v)", got, want, rm.Evs(sink.Evs))
		}
		return rm.Evs(sink.Evs), ""
	}
}

// ---- bookings

func ts(n int) *timestamppb.Timestamp {
	if n < 0 {
		return nil
	}
	return &timestamppb.Timestamp{Seconds: int64(100 + n/2), Nanos: int32(n%2) * 500}
}

// periods: nil, unbounded ends and every non-empty [s,e) on a small grid.
func periods(n int) []*timepb.Period {
	out := []*timepb.Period{nil, {}}
	for s := 0; s < n; s++ {
		out = append(out, &timepb.Period{StartTime: ts(s)}, &timepb.Period{EndTime: ts(s)})
		for e := s + 1; e < n; e++ {
			out = append(out, &timepb.Period{StartTime: ts(s), EndTime: ts(e)})
		}
	}
	return out
}

func intersects(a, b *timepb.Period) bool {
	if a == nil || b == nil {
		return false
	}
	lo := func(p *timepb.Period) int64 {
		if p.StartTime == nil {
			return -1 << 40
		}
		return p.StartTime.Seconds*1e9 + int64(p.StartTime.Nanos)
	}
	hi := func(p *timepb.Period) int64 {
		if p.EndTime == nil {
			return 1 << 60
		}
		return p.EndTime.Seconds*1e9 + int64(p.EndTime.Nanos)
	}
	return max(lo(a), lo(b)) < min(hi(a), hi(b))
}

type pullStream struct {
	traits.BookingApi_PullBookingsServer
	ctx  context.Context
	evs  []rm.Ev
	name string
	bad  string
}

func (p *pullStream) Context() context.Context     { return p.ctx }
func (p *pullStream) SetHeader(metadata.MD) error  { return nil }
func (p *pullStream) SendHeader(metadata.MD) error { return nil }
func (p *pullStream) SetTrailer(metadata.MD)       {}
func (p *pullStream) Send(r *traits.PullBookingsResponse) error {
	for _, c := range r.Changes {
		if c.Name != p.name {
			p.bad = fmt.Sprintf("name: change has name %q, request %q", c.Name, p.name)
		}
		e := rm.Ev{Kind: c.Type}
		if c.OldValue != nil {
			e.Old, e.ID = c.OldValue, c.OldValue.Id
		}
		if c.NewValue != nil {
			e.New, e.ID = c.NewValue, c.NewValue.Id
		}
		p.evs = append(p.evs, e)
	}
	return nil
}

func bookings(hist []*timepb.Period, req *timepb.Period, updOnly bool, mask *fieldmaskpb.FieldMask) (string, string) {
	mod := bookingpb.NewModel()
	s := bookingpb.NewModelServer(mod)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	proj := func(b *traits.Booking) proto.Message {
		if mask == nil {
			return b
		}
		return rm.Project(b, rm.MaskTree(mask.Paths))
	}
	in := func(b *traits.Booking) bool { return b != nil && (req == nil || intersects(b.Booked, req)) }
	var cur *traits.Booking
	var st []*pullStream
	var want [][]rm.Exp
	open := func() {
		p := &pullStream{ctx: ctx, name: "n"}
		go s.PullBookings(&traits.ListBookingsRequest{Name: "n", BookingIntersects: req, UpdatesOnly: updOnly, ReadMask: mask}, p)
		vrt.Quiesce()
		st = append(st, p)
		var w []rm.Exp
		if in(cur) && !updOnly {
			w = append(w, rm.Exp{Ev: rm.Ev{ID: "a", Kind: types.ChangeType_ADD, New: proj(cur)}})
		}
		want = append(want, w)
	}
	open()
	for i, pr := range hist {
		next := &traits.Booking{Id: "a", Title: fmt.Sprint(i), Booked: pr}
		var err error
		if cur == nil {
			_, err = s.CreateBooking(ctx, &traits.CreateBookingRequest{Name: "n", Booking: proto.Clone(next).(*traits.Booking)})
		} else {
			_, err = s.UpdateBooking(ctx, &traits.UpdateBookingRequest{Name: "n", Booking: proto.Clone(next).(*traits.Booking)})
		}
		if err != nil {
			return "", fmt.Sprintf("write: %v", err)
		}
		for k := range want {
			e := rm.Exp{Ev: rm.Ev{ID: "a"}}
			switch {
			case in(cur) && in(next):
				e.Kind, e.Old, e.New = types.ChangeType_UPDATE, proj(cur), proj(next)
			case in(cur):
				e.Kind, e.Old = types.ChangeType_REMOVE, proj(cur)
			case in(next):
				e.Kind, e.New = types.ChangeType_ADD, proj(next)
			default:
				continue
			}
			want[k] = append(want[k], e)
		}
		cur = next
		vrt.Quiesce()
		l, err := s.ListBookings(ctx, &traits.ListBookingsRequest{Name: "n", BookingIntersects: req, ReadMask: mask})
		if err != nil {
			return "", fmt.Sprintf("ListBookings: %v", err)
		}
		if in(cur) != (len(l.Bookings) == 1) || in(cur) && !proto.Equal(l.Bookings[0], proj(cur)) {
			return "", fmt.Sprintf("ListBookings: booked %v, request %v: got %v", pr, req, l.Bookings)
		}
		open()
	}
	out := ""
	for k, p := range st {
		if p.bad != "" {
			return "", p.bad
		}
		if d := rm.MatchEvs(p.evs, want[k]); d != "" {
			return "", fmt.Sprintf("PullBookings %s (opened after %d writes, received %v)", d, k, rm.Evs(p.evs))
		}
		out += rm.Evs(p.evs)
	}
	return out, ""
}

func main() {
	hl.Main("C08", func() (scs []hl.Scenario) {
		for _, c := range confs() {
			c := c
			scs = append(scs, hl.Scenario{Name: "seq/" + c.String(), Shards: hl.Pick(2, 8), Enum: func(e *hl.E) {
				n := hl.Pick(3, 4)
				seq := make([]int, n)
				for p := pred(0); p < 64; p++ {
					var rec func(i int) bool
					rec = func(i int) bool {
						if i == n {
							return e.Case(func() string {
								var s []string
								for _, i := range seq {
									s = append(s, ops[i].name)
								}
								return fmt.Sprintf("include=%v: %s", p, strings.Join(s, ", "))
							}, func() (string, string) {
								return hl.Single(func() (string, string) { return runSeq(c, p, seq) })
							})
						}
						for j := range ops {
							seq[i] = j
							if !rec(i + 1) {
								return false
							}
						}
						return true
					}
					if !rec(0) {
						return
					}
				}
			}})
		}
		scripts := [][2][]int{
			{{2, 1}, {3, 6}}, // a: y1,x2 | b: x1,delete
			{{5, 0}, {2, 1}}, // a: delete,x1 | a: y1,x2
			{{2, 0, 2}, {}},  // a: y1,x1,y1
			{{1, 2}, {5, 1}}, // a: x2,y1 | a: delete,x2
		}
		for _, p := range []pred{1, 2, 1 | 4, 1 | 8, 1 | 2, 1 | 16, 1 | 4 | 16 | 32} {
			for _, bp := range []bool{true, false} {
				for i, s := range scripts {
					scs = append(scs, hl.Scenario{Name: fmt.Sprintf("racing/include=%v,backpressure=%v,script=%d", p, bp, i),
						Cfg: vrt.Config{Bound: 2}, Bound2: 3, Body: racing(conf{pre: 2}, p, bp, s[0], s[1])})
				}
			}
		}
		for _, u := range []bool{false, true} {
			for _, mk := range []*fieldmaskpb.FieldMask{nil, {Paths: []string{"id", "title"}}} {
				scs = append(scs, hl.Scenario{Name: fmt.Sprintf("bookings/updatesOnly=%v,mask=%v", u, mk.GetPaths()), Shards: 2, Enum: func(e *hl.E) {
					ps := periods(hl.Pick(4, 5))
					for _, req := range ps {
						for _, p1 := range ps {
							for _, p2 := range ps {
								if !e.Case(func() string { return fmt.Sprintf("request %v: booked %v then %v", req, p1, p2) }, func() (string, string) {
									return hl.Single(func() (string, string) {
										return bookings([]*timepb.Period{p1, p2, p1}, req, u, mk)
									})
								}) {
									return
								}
							}
						}
					}
				}})
			}
		}
		_ = time.Now
		scs = append(scs, rm.ManyScenarios("include")...)
		return
	})
}
