// C01: Value and Collection against a sequential register/map specification.
package main

import (
	"context"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

func md(name, title string, traitNames ...string) *traits.Metadata {
	m := &traits.Metadata{Name: name}
	if title != "" {
		m.Appearance = &traits.Metadata_Appearance{Title: title, Description: "d" + title}
	}
	for _, t := range traitNames {
		m.Traits = append(m.Traits, &traits.TraitMetadata{Name: t, More: map[string]string{"k": t}})
	}
	if len(traitNames) > 0 {
		m.More = map[string]string{"n": name, traitNames[0]: "v"}
	}
	return m
}

var (
	m0  = md("", "")
	mx  = md("x", "tx")
	my  = md("y", "", "t1", "t2")
	mz  = md("x", "tz", "t3")
	msg = []*traits.Metadata{m0, mx, my, mz}
)

// rng readers
type rngKind int

const (
	rngCount rngKind = iota
	rngZero
	rngStick
)

type rng struct {
	kind rngKind
	n    int
}

func (r *rng) Read(b []byte) (int, error) {
	r.n++
	v := byte(0)
	switch r.kind {
	case rngCount:
		v = byte(r.n)
	case rngStick:
		v = byte(r.n / 4)
	}
	for i := range b {
		b[i] = v
	}
	return len(b), nil
}

var _ io.Reader = (*rng)(nil)

type clk struct{ n int64 }

func (c *clk) Now() time.Time { c.n++; return time.Unix(1000+c.n, 0) }

type conf struct {
	name string
	W    rm.Mask
	icpt func(string) string
	trun bool
	rng  rngKind
}

func trunc1(s string) string {
	if len(s) > 1 {
		return s[:1]
	}
	return s
}

var confs = []conf{
	{name: "plain"},
	{name: "W=name", W: rm.MaskOf("name")},
	{name: "W=name,appearance.title,traits", W: rm.MaskOf("name", "appearance.title", "traits")},
	{name: "W=empty", W: rm.MaskOf()},
	{name: "lower", icpt: strings.ToLower},
	{name: "lower,rng=zero", icpt: strings.ToLower, rng: rngZero},
	{name: "trunc,rng=zero", icpt: trunc1, trun: true, rng: rngZero},
	{name: "rng=stick", rng: rngStick},
}

type op struct {
	kind string // update add delete
	id   string
	msg  *traits.Metadata
	w    rm.W
}

func (o op) String() string {
	if o.kind == "delete" {
		return fmt.Sprintf("delete(%q%v)", o.id, o.w)
	}
	return fmt.Sprintf("%s(%q, {%v}%v)", o.kind, o.id, o.msg, o.w)
}

// fixture couples the real collection with the model.
type fixture struct {
	c      conf
	real   *resource.Collection
	model  *rm.Store
	events int
	stop   func()
	gen    string // last generated id (as reported)
	names  map[string]bool
}

func newFixture(c conf) *fixture {
	f := &fixture{c: c, model: rm.NewStore()}
	f.model.W, f.model.Icpt = c.W, c.icpt
	opts := []resource.Option{resource.WithClock(&clk{}), resource.WithRNG(&rng{kind: c.rng})}
	if c.W.Set {
		opts = append(opts, resource.WithWritableFields(c.W.PB()))
	}
	if c.icpt != nil {
		opts = append(opts, resource.WithIDInterceptor(c.icpt))
	}
	f.real = resource.NewCollection(opts...)
	return f
}

func (f *fixture) listen() {
	ctx, cancel := context.WithCancel(context.Background())
	ch := f.real.Pull(ctx, resource.WithUpdatesOnly(true), resource.WithBackpressure(true))
	go func() {
		for range ch {
			f.events++
		}
	}()
	f.stop = cancel
}

func clone(m *traits.Metadata) proto.Message {
	if m == nil {
		return nil
	}
	return proto.Clone(m)
}

// do runs one operation on both and compares.
func (f *fixture) do(o op) string {
	hl.Step(1)
	id := o.id
	if id == "$" {
		id = f.gen
	}
	ev := f.events
	var fail string
	if o.kind == "delete" {
		fail = f.delete(id, o)
	} else {
		fail = f.update(id, o)
	}
	if fail != "" {
		return fail
	}
	if f.stop != nil {
		vrt.Quiesce()
		_ = ev
	}
	return f.compare()
}

func (f *fixture) failed(ev int) string {
	if f.stop != nil {
		vrt.Quiesce()
		if f.events != ev {
			return fmt.Sprintf("failed-call-emits: %d events", f.events-ev)
		}
	}
	return ""
}

func (f *fixture) delete(id string, o op) string {
	key := f.model.Key(id)
	it, exists := f.model.Items[key]
	want := o.w.Delete(it.Msg, exists)
	var calls rm.Calls
	ev := f.events
	got, err := f.real.Delete(id, o.w.Opts(&calls)...)
	if s := want.Check(err); s != "" {
		return s
	}
	if err != nil {
		return f.failed(ev)
	}
	if !exists {
		if got != nil {
			return fmt.Sprintf("delete-result: deleting nothing returned %v", got)
		}
		return f.failed(ev)
	}
	if !proto.Equal(got, it.Msg) {
		return fmt.Sprintf("delete-result: got %v want %v", rm.Text(got), rm.Text(it.Msg))
	}
	delete(f.model.Items, key)
	return ""
}

func (f *fixture) update(id string, o op) string {
	w := o.w
	add := o.kind == "add"
	if add {
		w.Absent, w.Create = true, true
	}
	// the id interceptor also applies to empty ids
	gen := w.Gen && f.model.Key(id) == ""
	key := f.model.Key(id)
	it, exists := f.model.Items[key]
	if gen {
		exists = false
		it.Msg = nil
	}
	want := w.Update(it.Msg, exists, false, f.c.W, o.msg)
	if gen && f.c.trun {
		want.May = append(want.May, status.Error(codes.Aborted, ""))
	}
	if gen && len(want.Fails) > 0 && f.c.trun {
		want.Fails = append(want.Fails, status.Error(codes.Aborted, ""))
	}
	var calls rm.Calls
	ev := f.events
	var got proto.Message
	var err error
	if add {
		got, err = f.real.Add(id, clone(o.msg), o.w.Opts(&calls)...)
	} else {
		got, err = f.real.Update(id, clone(o.msg), o.w.Opts(&calls)...)
	}
	if s := want.Check(err); s != "" {
		return s
	}
	if err != nil {
		if len(calls.IDs) > 1 || calls.Created > 1 || (calls.Created > 0 && exists) {
			return fmt.Sprintf("callbacks: failed call made %+v", calls)
		}
		return f.failed(ev)
	}
	if gen {
		if len(calls.IDs) != 1 {
			return fmt.Sprintf("id-callback: %d calls for a generated id", len(calls.IDs))
		}
		g := calls.IDs[0]
		if g == "" {
			return "gen-id: empty"
		}
		key = f.model.Key(g)
		if _, used := f.model.Items[key]; used {
			return fmt.Sprintf("gen-id: %q is in use", g)
		}
		f.gen = g
	} else if len(calls.IDs) != 0 {
		return fmt.Sprintf("id-callback: called with %q though the id was given", calls.IDs)
	}
	if w.Before != 0 && calls.Befores != 1 || w.After != 0 && calls.Afters != 1 || w.EC != 0 && calls.Checks < 1 {
		return fmt.Sprintf("callbacks: interceptor calls %+v", calls)
	}
	nc := 0
	if want.Create {
		nc = 1
	}
	if calls.Created != nc {
		return fmt.Sprintf("created-callback: %d calls, want %d", calls.Created, nc)
	}
	if !want.Same(got, want.New) {
		return fmt.Sprintf("result: got %v want %v", rm.Text(got), rm.Text(want.New))
	}
	stored, ok := f.real.Get(key)
	if gen {
		stored, ok = f.real.Get(f.gen)
	}
	if !ok || !want.Same(stored, want.New) {
		return fmt.Sprintf("stored: got %v %v want %v", ok, rm.Text(stored), rm.Text(want.New))
	}
	if !proto.Equal(got, stored) {
		return fmt.Sprintf("result-vs-stored: returned %v stored %v", rm.Text(got), rm.Text(stored))
	}
	f.model.Items[key] = rm.Item{Msg: proto.Clone(stored)}
	return ""
}

var inc = func(id string, m proto.Message) bool { return m.(*traits.Metadata).GetName() == "x" }

// compare checks the visible contents.
func (f *fixture) compare() string {
	ids := f.model.IDs()
	for mi, mask := range []rm.Mask{{}, rm.MaskOf(), rm.MaskOf("name")} {
		var ro []resource.ReadOption
		if mask.Set {
			ro = append(ro, resource.WithReadMask(mask.PB()))
		}
		proj := func(m proto.Message) proto.Message {
			if !mask.Set {
				return m
			}
			return rm.Project(m, rm.MaskTree(mask.Paths))
		}
		for _, filt := range []bool{false, true} {
			o := ro
			if filt {
				o = append(append([]resource.ReadOption{}, ro...), resource.WithInclude(inc))
			}
			list := f.real.List(o...)
			n := 0
			for _, id := range ids {
				m := f.model.Items[id].Msg
				if filt && !inc(id, m) {
					continue
				}
				if n >= len(list) || !proto.Equal(list[n], proj(m)) {
					return fmt.Sprintf("list: mask=%v include=%v got %v; model %v", mask, filt, list, f.model)
				}
				n++
			}
			if n != len(list) {
				return fmt.Sprintf("list: mask=%v include=%v got %v; model %v", mask, filt, list, f.model)
			}
		}
		for _, id := range append([]string{"a", "b", "A", "", "zz"}, ids...) {
			if mi == 1 {
				continue
			}
			got, ok := f.real.Get(id, ro...)
			it, exists := f.model.Items[f.model.Key(id)]
			if ok != exists {
				return fmt.Sprintf("get: %q found=%v; model %v", id, ok, f.model)
			}
			if ok && !proto.Equal(got, proj(it.Msg)) {
				return fmt.Sprintf("get: %q got %v want %v", id, rm.Text(got), rm.Text(proj(it.Msg)))
			}
			if !ok && got != nil {
				return fmt.Sprintf("get: absent %q returned %v", id, got)
			}
		}
	}
	hl.State(f.c.name + "|" + f.model.String())
	return ""
}

var wt = time.Unix(5, 7)

// every combination of write options
func product(f func(w rm.W)) {
	masks := []rm.Mask{{}, rm.MaskOf(), rm.MaskOf("name"), rm.MaskOf("appearance.title"), rm.MaskOf("name", "bogus"), rm.MaskOf("traits", "more")}
	resets := []rm.Mask{{}, rm.MaskOf("name"), rm.MaskOf("nope")}
	evs := []*traits.Metadata{nil, m0, mx, my}
	for _, m := range masks {
		for _, r := range resets {
			for _, ev := range evs {
				for ec := 0; ec <= 4; ec++ {
					for b := 0; b < 32; b++ {
						w := rm.W{M: m, R: r, EV: ev, EC: ec, Absent: b&1 != 0, Create: b&2 != 0, Gen: b&4 != 0}
						if b&8 != 0 {
							w.Before = 1
						}
						if b&16 != 0 {
							w.After = 1
							w.Time = &wt
						}
						f(w)
					}
				}
			}
		}
	}
}

type prefix []op

var prefixes = []prefix{
	{},
	{{kind: "add", id: "a", msg: mx}},
	{{kind: "add", id: "b", msg: m0}, {kind: "add", id: "a", msg: my}},
	{{kind: "add", id: "", msg: mx, w: rm.W{Gen: true}}},
	{{kind: "add", id: "a", msg: my}, {kind: "delete", id: "a"}, {kind: "add", id: "", msg: mz}},
}

func (p prefix) String() string {
	var s []string
	for _, o := range p {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

func runSeq(c conf, ops []op, listen bool) (string, string) {
	f := newFixture(c)
	for i, o := range ops {
		if listen && i == len(ops)-1 {
			f.listen()
		}
		if fail := f.do(o); fail != "" {
			return "", fmt.Sprintf("%s [at op %d of %v, state %v]", fail, i, prefix(ops), f.model)
		}
	}
	if f.stop != nil {
		f.stop()
	}
	return f.c.name + f.model.String(), ""
}

func productScenario(ci int) hl.Scenario {
	c := confs[ci]
	return hl.Scenario{Name: "coll-product/" + c.name, Shards: 8, Enum: func(e *hl.E) {
		for pi, p := range prefixes {
			if !hl.Thorough() && ci > 2 && pi > 2 && !(c.trun && pi == 3) {
				continue
			}
			for _, id := range []string{"a", "A", ""} {
				for mi, m := range msg {
					if !hl.Thorough() && mi == 3 {
						continue
					}
					ok := true
					product(func(w rm.W) {
						if !ok || e.Stopped() {
							return
						}
						if !hl.Thorough() && (w.EC == 2 || (w.EC == 3 && (w.Before != 0 || w.After != 0)) || (id == "A" && c.icpt == nil)) {
							return
						}
						o := op{kind: "update", id: id, msg: m, w: w}
						ops := append(append([]op{}, p...), o)
						ok = e.Case(func() string { return c.name + ": " + prefix(ops).String() }, func() (string, string) {
							return hl.Single(func() (string, string) { return runSeq(c, ops, true) })
						})
					})
				}
			}
			for _, id := range []string{"a", "A", "b", "", "$"} {
				for _, ev := range []*traits.Metadata{nil, m0, mx, my} {
					for ec := 0; ec <= 4; ec++ {
						for _, miss := range []bool{false, true} {
							ops := append(append([]op{}, p...), op{kind: "delete", id: id, w: rm.W{EV: ev, EC: ec, Missing: miss}})
							e.Case(func() string { return c.name + ": " + prefix(ops).String() }, func() (string, string) {
								return hl.Single(func() (string, string) { return runSeq(c, ops, true) })
							})
						}
					}
				}
			}
		}
	}}
}

// the sequence alphabet
func alphabet(c conf) []op {
	var out []op
	ids := []string{"a", "b", ""}
	if c.icpt != nil {
		ids = []string{"a", "A", ""}
	}
	for _, id := range ids {
		out = append(out,
			op{kind: "add", id: id, msg: mx, w: rm.W{Gen: true}},
			op{kind: "add", id: id, msg: my, w: rm.W{M: rm.MaskOf("name", "traits")}},
			op{kind: "update", id: id, msg: mz},
			op{kind: "update", id: id, msg: my, w: rm.W{Create: true, Before: 1, After: 1}},
			op{kind: "update", id: id, msg: mx, w: rm.W{M: rm.MaskOf("appearance"), EV: mz}},
			op{kind: "update", id: id, msg: m0, w: rm.W{M: rm.MaskOf("appearance.title"), R: rm.MaskOf("traits"), Gen: true, Create: true}},
			op{kind: "update", id: id, msg: m0, w: rm.W{EC: 4, Before: 2}},
			op{kind: "delete", id: id},
			op{kind: "delete", id: id, w: rm.W{Missing: true, EC: 4}},
			op{kind: "delete", id: id, w: rm.W{EV: mx}},
		)
	}
	out = append(out,
		op{kind: "update", id: "$", msg: my, w: rm.W{M: rm.MaskOf("name")}},
		op{kind: "delete", id: "$"},
		op{kind: "update", id: "a", msg: my, w: rm.W{M: rm.MaskOf()}},
		op{kind: "update", id: "a", msg: my, w: rm.W{M: rm.MaskOf("product"), More: rm.MaskOf("product")}},
		op{kind: "update", id: "b", msg: my, w: rm.W{AllW: true, Create: true}},
	)
	return out
}

func seqScenario(ci int) hl.Scenario {
	c := confs[ci]
	return hl.Scenario{Name: "coll-seq/" + c.name, Shards: 16, Enum: func(e *hl.E) {
		al := alphabet(c)
		depth := hl.Pick(3, 4)
		ops := make([]op, 0, depth)
		var rec func() bool
		rec = func() bool {
			if len(ops) == depth {
				cp := append([]op{}, ops...)
				return e.Case(func() string { return c.name + ": " + prefix(cp).String() }, func() (string, string) { return runSeq(c, cp, false) })
			}
			for _, o := range al {
				ops = append(ops, o)
				ok := rec()
				ops = ops[:len(ops)-1]
				if !ok {
					return false
				}
			}
			return true
		}
		rec()
	}}
}

// ---- Value

type vfix struct {
	real   *resource.Value
	model  proto.Message
	W      rm.Mask
	events int
	stop   func()
}

func newV(initial *traits.Metadata, W rm.Mask) *vfix {
	opts := []resource.Option{resource.WithClock(&clk{})}
	v := &vfix{W: W}
	if initial != nil {
		opts = append(opts, resource.WithInitialValue(proto.Clone(initial)))
		v.model = proto.Clone(initial)
	}
	if W.Set {
		opts = append(opts, resource.WithWritableFields(W.PB()))
	}
	v.real = resource.NewValue(opts...)
	return v
}

func (f *vfix) set(o op) string {
	hl.Step(1)
	want := o.w.Update(f.model, true, true, f.W, o.msg)
	var calls rm.Calls
	ev := f.events
	got, err := f.real.Set(clone(o.msg), o.w.Opts(&calls)...)
	if s := want.Check(err); s != "" {
		return s
	}
	if f.stop != nil {
		vrt.Quiesce()
	}
	if err != nil {
		if f.events != ev {
			return fmt.Sprintf("failed-call-emits: %d", f.events-ev)
		}
	} else {
		if !want.Same(got, want.New) {
			return fmt.Sprintf("result: got %v want %v", rm.Text(got), rm.Text(want.New))
		}
		if o.w.Before != 0 && calls.Befores != 1 || o.w.After != 0 && calls.Afters != 1 || o.w.EC != 0 && calls.Checks < 1 {
			return fmt.Sprintf("callbacks: interceptor calls %+v", calls)
		}
		f.model = proto.Clone(got)
	}
	if len(calls.IDs) != 0 {
		return "id-callback: on a Value"
	}
	return f.compare()
}

func (f *vfix) compare() string {
	for _, mask := range []rm.Mask{{}, rm.MaskOf(), rm.MaskOf("name"), rm.MaskOf("appearance.title")} {
		var ro []resource.ReadOption
		if mask.Set {
			ro = append(ro, resource.WithReadMask(mask.PB()))
		}
		got := f.real.Get(ro...)
		want := f.model
		if want != nil && mask.Set {
			want = rm.Project(want, rm.MaskTree(mask.Paths))
		}
		if want == nil {
			if got != nil {
				return fmt.Sprintf("get: mask=%v got %v want nothing", mask, got)
			}
			continue
		}
		t := rm.MaskTree(mask.Paths)
		if !proto.Equal(rm.Canon(got, t), rm.Canon(want, t)) {
			return fmt.Sprintf("get: mask=%v got %v want %v", mask, rm.Text(got), rm.Text(want))
		}
	}
	hl.State("value|" + rm.Text(f.model))
	return ""
}

func runV(initial *traits.Metadata, W rm.Mask, ops []op, listen bool) (string, string) {
	f := newV(initial, W)
	for i, o := range ops {
		if listen && i == len(ops)-1 {
			ctx, cancel := context.WithCancel(context.Background())
			ch := f.real.Pull(ctx, resource.WithUpdatesOnly(true), resource.WithBackpressure(true))
			go func() {
				for range ch {
					f.events++
				}
			}()
			f.stop = cancel
		}
		if fail := f.set(o); fail != "" {
			return "", fmt.Sprintf("%s [at op %d of %v]", fail, i, prefix(ops))
		}
	}
	if f.stop != nil {
		f.stop()
	}
	return rm.Text(f.model), ""
}

func valueProduct(wi int) hl.Scenario {
	W := confs[wi].W
	return hl.Scenario{Name: "value-product/" + confs[wi].name, Shards: 4, Enum: func(e *hl.E) {
		for _, initial := range []*traits.Metadata{nil, m0, mx, my, mz} {
			for _, m := range msg {
				ok := true
				product(func(w rm.W) {
					if !ok || w.Gen || (w.Absent != w.Create) {
						return
					}
					if w.Absent {
						// not applicable to values: use the slots for the writable overrides
						w.Absent, w.Create = false, false
						w.More = rm.MaskOf("appearance")
						w.AllW = w.After != 0
					}
					ops := []op{{kind: "set", msg: m, w: w}}
					ok = e.Case(func() string { return fmt.Sprintf("%s initial={%v}: %v", confs[wi].name, initial, prefix(ops)) }, func() (string, string) {
						return hl.Single(func() (string, string) { return runV(initial, W, ops, true) })
					})
				})
			}
		}
	}}
}

func valueSeq(wi int) hl.Scenario {
	W := confs[wi].W
	return hl.Scenario{Name: "value-seq/" + confs[wi].name, Shards: 8, Enum: func(e *hl.E) {
		var al []op
		for _, m := range msg {
			for _, w := range []rm.W{{}, {M: rm.MaskOf("name")}, {M: rm.MaskOf("appearance.title", "traits")}, {R: rm.MaskOf("appearance")}, {EV: mx, Before: 1}, {EC: 4, After: 1}, {M: rm.MaskOf("more", "appearance")}, {M: rm.MaskOf("name", "name")}} {
				al = append(al, op{kind: "set", msg: m, w: w})
			}
		}
		depth := hl.Pick(3, 4)
		var rec func(ops []op) bool
		rec = func(ops []op) bool {
			if len(ops) == depth {
				cp := append([]op{}, ops...)
				return e.Case(func() string { return prefix(cp).String() }, func() (string, string) { return hl.Single(func() (string, string) { return runV(nil, W, cp, false) }) })
			}
			for _, o := range al {
				if !rec(append(ops, o)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}}
}

func main() {
	hl.Main("C01", func() []hl.Scenario {
		var s []hl.Scenario
		for i := range confs {
			s = append(s, productScenario(i), seqScenario(i))
		}
		for i := 0; i < 4; i++ {
			s = append(s, valueProduct(i), valueSeq(i))
		}
		return append(s, rm.ManyScenarios("list")...)
	})
}
