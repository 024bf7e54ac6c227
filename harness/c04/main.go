// C04: with backpressure the stream is an exact, ordered edit script.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type md = traits.Metadata

func m(name, title string) *md {
	x := &md{Name: name}
	if title != "" {
		x.Appearance = &traits.Metadata_Appearance{Title: title}
	}
	return x
}

// clk is strictly increasing: every reading is distinct.
type clk struct{ n int64 }

func (c *clk) Now() time.Time { c.n++; return time.Unix(1000+c.n, 0) }

var writeTime = time.Unix(77, 0)

type op struct {
	name string
	id   string
	wt   bool
	del  bool
	run  func(c *resource.Collection, extra ...resource.WriteOption) (proto.Message, error)
}

func upd(name, id string, msg *md, opts ...resource.WriteOption) op {
	return op{name: name, id: id, run: func(c *resource.Collection, extra ...resource.WriteOption) (proto.Message, error) {
		return c.Update(id, proto.Clone(msg), append(append([]resource.WriteOption{}, opts...), extra...)...)
	}}
}

func add(name, id string, msg *md, opts ...resource.WriteOption) op {
	return op{name: name, id: id, run: func(c *resource.Collection, extra ...resource.WriteOption) (proto.Message, error) {
		return c.Add(id, proto.Clone(msg), append(append([]resource.WriteOption{}, opts...), extra...)...)
	}}
}

func del(name, id string, opts ...resource.WriteOption) op {
	return op{name: name, id: id, del: true, run: func(c *resource.Collection, extra ...resource.WriteOption) (proto.Message, error) {
		return c.Delete(id, append(append([]resource.WriteOption{}, opts...), extra...)...)
	}}
}

func (o op) at() op { o.wt = true; o.name += "@t"; return o }

var (
	v1, v2, v3 = m("x", "1"), m("y", "1"), m("x", "2")
	errNo      = errors.New("no")
	fail       = resource.WithExpectedCheck(func(proto.Message) error { return errNo })
	upsert     = resource.WithCreateIfAbsent()
)

var ops = []op{
	add("add(a,1)", "a", v1),
	add("add(b,2)", "b", v2),
	add("add(a,2)", "a", v2).at(),
	add("add('',1,gen)", "", v1, resource.WithGenIDIfAbsent()),
	upd("update(a,1)", "a", v1),
	upd("update(a,2)", "a", v2),
	upd("update(a,3)", "a", v3).at(),
	upd("update(a,2,mask=name)", "a", v2, resource.WithUpdatePaths("name")),
	upd("update(a,3,mask=appearance)", "a", v3, resource.WithUpdatePaths("appearance")),
	upd("update(a,1,mask=bogus)", "a", v1, resource.WithUpdatePaths("bogus")),
	upd("update(a,2,check fails)", "a", v2, fail),
	upd("upsert(b,1)", "b", v1, upsert),
	upd("upsert(b,2)", "b", v2, upsert).at(),
	upd("upsert(b,3,check fails)", "b", v3, upsert, fail),
	upd("upsert(b,empty)", "b", m("", ""), upsert),
	del("delete(a)", "a"),
	del("delete(a)", "a").at(),
	del("delete(a,check fails)", "a", fail),
	del("delete(b,allow missing)", "b", resource.WithAllowMissing(true)),
}

type conf struct {
	name  string
	mask  rm.Mask
	upd   bool
	equiv bool
	pre   int
	inc   bool // only items named x
}

func (c conf) has(x proto.Message) bool { return x != nil && (!c.inc || x.(*md).Name == "x") }

func (c conf) opts() []resource.ReadOption {
	o := []resource.ReadOption{resource.WithBackpressure(true), resource.WithUpdatesOnly(c.upd)}
	if c.mask.Set {
		o = append(o, resource.WithReadMask(c.mask.PB()))
	}
	if c.inc {
		o = append(o, resource.WithInclude(func(_ string, x proto.Message) bool { return c.has(x) }))
	}
	return o
}

func confs(pres []int) []conf {
	var out []conf
	for _, pre := range pres {
		for _, mk := range []rm.Mask{{}, rm.MaskOf("name"), rm.MaskOf()} {
			for _, u := range []bool{false, true} {
				for _, eq := range []bool{false, true} {
					out = append(out, conf{fmt.Sprintf("pre=%d,mask=%v,updatesOnly=%v,equiv=%v", pre, mk, u, eq), mk, u, eq, pre, false})
				}
			}
		}
	}
	return out
}

// incConfs are subscriptions that also filter what they see.
func incConfs() (out []conf) {
	for _, c := range confs([]int{0, 2}) {
		if c.mask.Set && len(c.mask.Paths) == 0 || c.equiv && (c.upd || c.pre == 0) {
			continue
		}
		c.inc = true
		c.name += ",include"
		out = append(out, c)
	}
	return
}

func (c conf) proj(x proto.Message) proto.Message {
	if x == nil || !c.mask.Set {
		return x
	}
	return rm.Project(x, rm.MaskTree(c.mask.Paths))
}

// logEntry is one successful write.
type logEntry struct {
	id       string
	kind     types.ChangeType
	old, new proto.Message
	time     time.Time
}

type item struct {
	msg  proto.Message
	time time.Time
}

// expect derives the stream of a subscription opened with the given contents and
// followed by the given writes.
func (c conf) expect(seed map[string]item, log []logEntry) []rm.Exp {
	var out []rm.Exp
	held := map[string]proto.Message{}
	guess := map[string]bool{}
	if c.inc {
		kept := map[string]item{}
		for id, it := range seed {
			if c.has(it.msg) {
				kept[id] = it
			}
		}
		seed = kept
	}
	if !c.upd {
		v := rm.View{}
		for k := range seed {
			v[k] = nil
		}
		ids := keys(seed)
		for i, id := range ids {
			held[id] = c.proj(seed[id].msg)
			out = append(out, rm.Exp{Ev: rm.Ev{ID: id, Kind: types.ChangeType_ADD, New: held[id], Time: seed[id].time, Seed: true, Last: i == len(ids)-1}})
		}
	} else {
		for id, it := range seed {
			held[id] = c.proj(it.msg)
			guess[id] = true
		}
	}
	for _, l := range log {
		if c.inc {
			if !c.has(l.old) {
				l.old, l.kind = nil, types.ChangeType_ADD
			}
			if !c.has(l.new) {
				l.new, l.kind = nil, types.ChangeType_REMOVE
			}
			if l.old == nil && l.new == nil {
				continue
			}
		}
		e := rm.Exp{Ev: rm.Ev{ID: l.id, Kind: l.kind, Old: c.proj(l.old), New: c.proj(l.new), Time: l.time}}
		if c.equiv && l.kind == types.ChangeType_UPDATE && held[l.id] != nil && proto.Equal(held[l.id], e.New) {
			if !guess[l.id] {
				continue
			}
			// whether an updates-only subscriber holds the value it has not been sent is open
			e.Opt = true
		}
		delete(guess, l.id)
		if l.new == nil {
			delete(held, l.id)
		} else {
			held[l.id] = e.New
		}
		out = append(out, e)
	}
	return out
}

func keys(mm map[string]item) []string {
	v := []string{}
	for k := range mm {
		v = append(v, k)
	}
	for i := range v {
		for j := i + 1; j < len(v); j++ {
			if v[j] < v[i] {
				v[i], v[j] = v[j], v[i]
			}
		}
	}
	return v
}

// idOnly narrows an expected collection stream to PullID's.
func idOnly(es []rm.Exp, id string) (out []rm.Exp, ends bool) {
	for _, e := range es {
		if e.ID != id {
			continue
		}
		if e.Kind == types.ChangeType_REMOVE {
			return out, true
		}
		e.Last = e.Seed
		e.ID, e.Kind, e.Old = "", 0, nil
		out = append(out, e)
	}
	return out, false
}

type sub struct {
	sink, id *rm.Sink
	seed     map[string]item
	at       int
}

func runSeq(c conf, seq []int) (string, string) {
	ck := &clk{}
	ropts := []resource.Option{resource.WithClock(ck), resource.WithRNG(&rng{})}
	if c.equiv {
		ropts = append(ropts, resource.WithNoDuplicates())
	}
	model := map[string]item{}
	t0 := ck.n
	switch c.pre {
	case 1:
		ropts = append(ropts, resource.WithInitialRecord("a", proto.Clone(v1)))
		model["a"] = item{msg: v1}
	case 2:
		ropts = append(ropts, resource.WithInitialRecord("b", proto.Clone(v2)), resource.WithInitialRecord("a", proto.Clone(v1)))
		model["a"], model["b"] = item{msg: v1}, item{msg: v2}
	}
	col := resource.NewCollection(ropts...)
	t1 := ck.n
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// learn the initial change times from a first subscription
	if c.pre > 0 {
		pctx, pstop := context.WithCancel(ctx)
		s := rm.Collect(col.Pull(pctx, resource.WithBackpressure(true)))
		vrt.Quiesce()
		pstop()
		if len(s.Evs) != len(model) {
			return "", fmt.Sprintf("seed: %v for initial records %v", rm.Evs(s.Evs), keys(model))
		}
		for _, e := range s.Evs {
			if e.Time.Unix() <= 1000+t0 || e.Time.Unix() > 1000+t1 {
				return "", fmt.Sprintf("seed time: initial record %v has change time %v, created at %d..%d", e.ID, e.Time.Unix(), 1000+t0, 1000+t1)
			}
			it := model[e.ID]
			it.time = e.Time
			model[e.ID] = it
		}
	}
	var log []logEntry
	var subs []*sub
	open := func() {
		s := &sub{at: len(log), seed: map[string]item{}}
		for k, v := range model {
			s.seed[k] = v
		}
		s.sink = rm.Collect(col.Pull(ctx, c.opts()...))
		s.id = rm.CollectV(col.PullID(ctx, "a", c.opts()...))
		subs = append(subs, s)
		vrt.Quiesce()
	}
	var trace strings.Builder
	for _, oi := range seq {
		open()
		o := ops[oi]
		id := o.id
		var extra []resource.WriteOption
		if o.wt {
			extra = append(extra, resource.WithWriteTime(writeTime))
		}
		extra = append(extra, resource.WithIDCallback(func(s string) { id = s }))
		a := ck.n
		res, err := o.run(col, extra...)
		b := ck.n
		fmt.Fprintf(&trace, "%v=%v ", o.name, err == nil)
		if err != nil {
			continue
		}
		cur, had := model[id]
		if o.del && !had {
			continue // allow missing
		}
		l := logEntry{id: id, time: writeTime}
		if had {
			l.old = cur.msg
		}
		switch {
		case o.del:
			l.kind = types.ChangeType_REMOVE
		case had:
			l.kind, l.new = types.ChangeType_UPDATE, proto.Clone(res)
		default:
			l.kind, l.new = types.ChangeType_ADD, proto.Clone(res)
		}
		if !o.wt {
			// the event's time must be one the clock gave during the call
			l.time = time.Time{}
			vrt.Quiesce()
			seen := c.has(l.old) || c.has(l.new)
			for _, s := range subs {
				if n := len(s.sink.Evs); n > 0 && seen && !s.sink.Evs[n-1].Seed && s.sink.Evs[n-1].ID == id {
					l.time = s.sink.Evs[n-1].Time
				}
			}
			if !c.equiv && seen && l.time.IsZero() {
				return trace.String(), fmt.Sprintf("missing event: no subscriber heard about %v after %v", o.name, trace.String())
			}
			if !l.time.IsZero() && !c.equiv && (l.time.Unix() <= 1000+a || l.time.Unix() > 1000+b) {
				return trace.String(), fmt.Sprintf("change time: event of %v has time %d, the call ran at %d..%d", o.name, l.time.Unix(), 1000+a, 1000+b)
			}
			if c.equiv {
				l.time = time.Time{}
			}
		}
		log = append(log, l)
		if o.del {
			delete(model, id)
		} else {
			model[id] = item{l.new, l.time}
		}
	}
	open()
	vrt.Quiesce()
	for _, s := range subs {
		want := c.expect(s.seed, log[s.at:])
		if d := rm.MatchEvs(s.sink.Evs, want); d != "" {
			return trace.String(), fmt.Sprintf("%s (subscribed after %d writes, %v; received %v)", d, s.at, trace.String(), rm.Evs(s.sink.Evs))
		}
		wantID, ends := idOnly(want, "a")
		if d := rm.MatchEvs(s.id.Evs, wantID); d != "" {
			return trace.String(), fmt.Sprintf("PullID %s (subscribed after %d writes, %v; received %v)", d, s.at, trace.String(), rm.Evs(s.id.Evs))
		}
		if ends != s.id.Closed {
			return trace.String(), fmt.Sprintf("PullID end: closed=%v, want %v (subscribed after %d writes, %v)", s.id.Closed, ends, s.at, trace.String())
		}
	}
	cancel()
	vrt.Quiesce()
	for _, s := range subs {
		if !s.sink.Closed || !s.id.Closed {
			return trace.String(), "not closed: a stream is still open after its context was cancelled"
		}
	}
	// the last subscription's stream is a function of the history
	return trace.String() + rm.Evs(subs[0].sink.Evs), ""
}

type rng struct{ n int }

func (r *rng) Read(b []byte) (int, error) {
	r.n++
	for i := range b {
		b[i] = byte(r.n)
	}
	return len(b), nil
}

// ---- values

type vop struct {
	name string
	msg  *md
	wt   bool
	opts []resource.WriteOption
}

var vops = []vop{
	{name: "set(1)", msg: v1},
	{name: "set(2)", msg: v2},
	{name: "set(3)@t", msg: v3, wt: true},
	{name: "set(1)@t", msg: v1, wt: true},
	{name: "set(2,mask=name)", msg: v2, opts: []resource.WriteOption{resource.WithUpdatePaths("name")}},
	{name: "set(3,mask=appearance.title)", msg: v3, opts: []resource.WriteOption{resource.WithUpdatePaths("appearance.title")}},
	{name: "set(empty)", msg: m("", "")},
	{name: "set(1,reset=name)", msg: v1, opts: []resource.WriteOption{resource.WithResetPaths("name")}},
	{name: "set(2,mask=empty)", msg: v2, opts: []resource.WriteOption{resource.WithUpdateMask(&fieldmaskpb.FieldMask{})}},
	{name: "set(2,mask=bogus)", msg: v2, opts: []resource.WriteOption{resource.WithUpdatePaths("bogus")}},
	{name: "set(2,check fails)", msg: v2, opts: []resource.WriteOption{fail}},
	{name: "set(3,expect 1)", msg: v3, opts: []resource.WriteOption{resource.WithExpectedValue(v1)}},
}

func runValue(c conf, seq []int) (string, string) {
	ck := &clk{}
	ropts := []resource.Option{resource.WithClock(ck)}
	if c.equiv {
		ropts = append(ropts, resource.WithNoDuplicates())
	}
	var cur proto.Message
	if c.pre > 0 {
		cur = v1
		ropts = append(ropts, resource.WithInitialValue(proto.Clone(v1)))
	}
	t0 := ck.n
	val := resource.NewValue(ropts...)
	t1 := ck.n
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type vlog struct {
		new  proto.Message
		time time.Time
	}
	type vsub struct {
		sink *rm.Sink
		seed proto.Message
		time time.Time
		at   int
	}
	var log []vlog
	var subs []*vsub
	var curTime time.Time
	if cur != nil {
		pctx, pstop := context.WithCancel(ctx)
		s := rm.CollectV(val.Pull(pctx, resource.WithBackpressure(true)))
		vrt.Quiesce()
		pstop()
		if len(s.Evs) != 1 {
			return "", fmt.Sprintf("seed: %v for an initial value", rm.Evs(s.Evs))
		}
		curTime = s.Evs[0].Time
		if curTime.Unix() <= 1000+t0 || curTime.Unix() > 1000+t1 {
			return "", fmt.Sprintf("seed time: initial value has change time %v, created at %d..%d", curTime.Unix(), 1000+t0, 1000+t1)
		}
	}
	open := func() {
		s := &vsub{at: len(log), seed: cur, time: curTime}
		s.sink = rm.CollectV(val.Pull(ctx, c.opts()...))
		subs = append(subs, s)
		vrt.Quiesce()
	}
	var trace strings.Builder
	for _, oi := range seq {
		open()
		o := vops[oi]
		w := append([]resource.WriteOption{}, o.opts...)
		if o.wt {
			w = append(w, resource.WithWriteTime(writeTime))
		}
		a := ck.n
		res, err := val.Set(proto.Clone(o.msg), w...)
		b := ck.n
		fmt.Fprintf(&trace, "%v=%v ", o.name, err == nil)
		if err != nil {
			continue
		}
		l := vlog{new: proto.Clone(res), time: writeTime}
		if !o.wt {
			l.time = time.Time{}
			if !c.equiv {
				vrt.Quiesce()
				s := subs[len(subs)-1].sink
				if n := len(s.Evs); n == 0 || s.Evs[n-1].Seed {
					return trace.String(), fmt.Sprintf("missing event: %v was not announced (%v)", o.name, trace.String())
				} else {
					l.time = s.Evs[n-1].Time
				}
				if l.time.Unix() <= 1000+a || l.time.Unix() > 1000+b {
					return trace.String(), fmt.Sprintf("change time: event of %v has time %d, the call ran at %d..%d", o.name, l.time.Unix(), 1000+a, 1000+b)
				}
			}
		}
		log = append(log, l)
		cur, curTime = l.new, l.time
	}
	open()
	vrt.Quiesce()
	for _, s := range subs {
		var want []rm.Exp
		held, guess := c.proj(s.seed), c.upd
		if s.seed != nil && !c.upd {
			want = append(want, rm.Exp{Ev: rm.Ev{New: held, Time: s.time, Seed: true, Last: true}})
		}
		for _, l := range log[s.at:] {
			e := rm.Exp{Ev: rm.Ev{New: c.proj(l.new), Time: l.time}}
			if c.equiv && held != nil && proto.Equal(held, e.New) {
				if !guess {
					continue
				}
				e.Opt = true
			}
			if !e.Opt {
				guess = false
			} else {
				// received or not, from here on an equal value may only come once
				guess = true
			}
			held = e.New
			want = append(want, e)
		}
		// at most one optional event may be received
		n := 0
		for _, w := range want {
			if w.Opt {
				n++
			}
		}
		if d := rm.MatchEvs(s.sink.Evs, want); d != "" {
			return trace.String(), fmt.Sprintf("Value %s (subscribed after %d writes, %v; received %v)", d, s.at, trace.String(), rm.Evs(s.sink.Evs))
		}
		if n > 0 && c.equiv {
			for i := 1; i < len(s.sink.Evs); i++ {
				if proto.Equal(s.sink.Evs[i].New, s.sink.Evs[i-1].New) {
					return trace.String(), fmt.Sprintf("Value duplicate: equal consecutive values delivered despite the equivalence: %v", rm.Evs(s.sink.Evs))
				}
			}
		}
	}
	cancel()
	vrt.Quiesce()
	for _, s := range subs {
		if !s.sink.Closed {
			return trace.String(), "not closed: a stream is still open after its context was cancelled"
		}
	}
	return trace.String() + rm.Evs(subs[0].sink.Evs), ""
}

func sequences(n, k int, f func([]int) bool) {
	seq := make([]int, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(seq)
		}
		for j := 0; j < k; j++ {
			seq[i] = j
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

// ---- one writer, a subscriber opening at any moment

type wop struct {
	name string
	run  func(c *resource.Collection) error
}

func scripts() [][]op {
	byName := map[string]op{}
	for _, o := range ops {
		byName[o.name] = o
	}
	mk := func(names ...string) (out []op) {
		for _, n := range names {
			o, ok := byName[n]
			if !ok {
				panic(n)
			}
			out = append(out, o)
		}
		return
	}
	return [][]op{
		mk("update(a,2)", "delete(a)", "add(a,1)"),
		mk("add(b,2)", "update(a,3)@t", "delete(a)"),
		mk("delete(a)", "add(a,2)@t", "update(a,1)"),
		mk("upsert(b,1)", "update(a,2,check fails)", "upsert(b,2)@t"),
		mk("delete(a)", "add('',1,gen)", "delete(b,allow missing)"),
	}
}

func opening(c conf, script []op, byID bool) vrt.Body {
	return func() (string, string) {
		ck := &clk{}
		model := map[string]item{}
		ropts := []resource.Option{resource.WithClock(ck), resource.WithRNG(&rng{}), resource.WithInitialRecord("a", proto.Clone(v1))}
		if c.equiv {
			ropts = append(ropts, resource.WithNoDuplicates())
		}
		model["a"] = item{msg: v1}
		if c.pre == 2 {
			ropts = append(ropts, resource.WithInitialRecord("b", proto.Clone(v2)))
			model["b"] = item{msg: v2}
		}
		col := resource.NewCollection(ropts...)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var log []logEntry
		snaps := []map[string]item{clone(model)}
		done := 0    // writes completed
		minDone := 0 // writes completed before the subscription was requested
		maxDone := 0 // writes started before Pull returned
		started := 0
		wdone := make(chan bool)
		var sink *rm.Sink
		sdone := make(chan bool)
		go func() {
			defer close(sdone)
			vrt.Y()
			minDone = done
			if byID {
				ch := col.PullID(ctx, "a", c.opts()...)
				maxDone = started
				sink = rm.CollectV(ch)
			} else {
				ch := col.Pull(ctx, c.opts()...)
				maxDone = started
				sink = rm.Collect(ch)
			}
		}()
		go func() {
			defer close(wdone)
			for _, o := range script {
				id := o.id
				extra := []resource.WriteOption{resource.WithIDCallback(func(s string) { id = s })}
				if o.wt {
					extra = append(extra, resource.WithWriteTime(writeTime))
				}
				vrt.Y()
				started = len(log) + 1
				res, err := o.run(col, extra...)
				if err != nil {
					started = len(log)
					continue
				}
				cur, had := model[id]
				l := logEntry{id: id}
				if had {
					l.old = cur.msg
				}
				switch {
				case o.del && !had:
					started = len(log)
					continue
				case o.del:
					l.kind = types.ChangeType_REMOVE
					delete(model, id)
				case had:
					l.kind, l.new = types.ChangeType_UPDATE, res
					model[id] = item{msg: res}
				default:
					l.kind, l.new = types.ChangeType_ADD, res
					model[id] = item{msg: res}
				}
				log = append(log, l)
				snaps = append(snaps, clone(model))
				done = len(log)
				vrt.Y()
			}
		}()
		<-sdone
		<-wdone
		vrt.Quiesce()
		got := rm.Evs(sink.Evs)
		var why []string
		for k := minDone; k <= maxDone && k < len(snaps); k++ {
			want := c.expect(snaps[k], log[k:])
			var d string
			if byID {
				w, ends := idOnly(want, "a")
				if d = rm.MatchEvs(sink.Evs, w); d == "" && ends != sink.Closed {
					d = fmt.Sprintf("closed=%v", sink.Closed)
				}
			} else {
				d = rm.MatchEvs(sink.Evs, want)
			}
			if d == "" {
				return got, ""
			}
			why = append(why, fmt.Sprintf("as if opened after write %d: %s", k, d))
		}
		return got, fmt.Sprintf("edit script: a subscriber opened between writes %d and %d received %v, which fits no moment (%s)", minDone, maxDone, got, strings.Join(why, " | "))
	}
}

func clone(x map[string]item) map[string]item {
	c := map[string]item{}
	for k, v := range x {
		c[k] = v
	}
	return c
}

func openingValue(c conf) vrt.Body {
	return func() (string, string) {
		ck := &clk{}
		ropts := []resource.Option{resource.WithClock(ck), resource.WithInitialValue(proto.Clone(v1))}
		if c.equiv {
			ropts = append(ropts, resource.WithNoDuplicates())
		}
		val := resource.NewValue(ropts...)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		vals := []proto.Message{v1}
		started, minDone, maxDone := 0, 0, 0
		var sink *rm.Sink
		wdone, sdone := make(chan bool), make(chan bool)
		go func() {
			defer close(sdone)
			vrt.Y()
			minDone = len(vals) - 1
			ch := val.Pull(ctx, c.opts()...)
			maxDone = started
			sink = rm.CollectV(ch)
		}()
		go func() {
			defer close(wdone)
			for _, x := range []*md{v2, v3, v1} {
				vrt.Y()
				started = len(vals)
				res, err := val.Set(proto.Clone(x))
				if err == nil {
					vals = append(vals, res)
				}
			}
		}()
		<-sdone
		<-wdone
		vrt.Quiesce()
		got := rm.Evs(sink.Evs)
		for k := minDone; k <= maxDone && k < len(vals); k++ {
			var want []rm.Exp
			held := c.proj(vals[k])
			if !c.upd {
				want = append(want, rm.Exp{Ev: rm.Ev{New: held, Seed: true, Last: true}})
			}
			for _, x := range vals[k+1:] {
				e := rm.Exp{Ev: rm.Ev{New: c.proj(x)}}
				if c.equiv && proto.Equal(e.New, held) {
					if !c.upd {
						continue
					}
					e.Opt = true
				}
				held = e.New
				want = append(want, e)
			}
			if rm.MatchEvs(sink.Evs, want) == "" {
				return got, ""
			}
		}
		return got, fmt.Sprintf("Value edit script: a subscriber opened between writes %d and %d received %v", minDone, maxDone, got)
	}
}

func main() {
	hl.Main("C04", func() (scs []hl.Scenario) {
		n := hl.Pick(3, 4)
		for _, c := range append(confs([]int{0, 1, 2}), incConfs()...) {
			c := c
			scs = append(scs, hl.Scenario{Name: "seq/" + c.name, Shards: hl.Pick(1, 4), Enum: func(e *hl.E) {
				sequences(hl.Pick(3, 4), len(ops), func(seq []int) bool {
					return e.Case(func() string {
						var s []string
						for _, i := range seq {
							s = append(s, ops[i].name)
						}
						return strings.Join(s, ", ")
					}, func() (string, string) {
						return hl.Single(func() (string, string) { return runSeq(c, seq) })
					})
				})
			}})
		}
		_ = n
		for _, c := range confs([]int{0, 1}) {
			c := c
			scs = append(scs, hl.Scenario{Name: "value/" + c.name, Enum: func(e *hl.E) {
				sequences(hl.Pick(3, 4), len(vops), func(seq []int) bool {
					return e.Case(func() string {
						var s []string
						for _, i := range seq {
							s = append(s, vops[i].name)
						}
						return strings.Join(s, ", ")
					}, func() (string, string) {
						return hl.Single(func() (string, string) { return runValue(c, seq) })
					})
				})
			}})
		}
		for _, c := range append(confs([]int{1, 2}), incConfs()...) {
			if c.mask.Set && len(c.mask.Paths) == 0 {
				continue
			}
			for i, s := range scripts() {
				for _, byID := range []bool{false, true} {
					scs = append(scs, hl.Scenario{Name: fmt.Sprintf("opening/script=%d,byID=%v,%s", i, byID, c.name),
						Cfg: vrt.Config{Mode: vrt.Repo | vrt.Harness, Bound: 2}, Bound2: 3, Body: opening(c, s, byID)})
				}
			}
			if c.pre == 1 && !c.inc {
				scs = append(scs, hl.Scenario{Name: "openingValue/" + c.name, Cfg: vrt.Config{Mode: vrt.Repo | vrt.Harness, Bound: 2}, Bound2: 3, Body: openingValue(c)})
			}
		}
		scs = append(scs, rm.ManyScenarios("script")...)
		return
	})
}
