// C19: the electric model keeps its documented mode invariants.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type emode = traits.ElectricMode

// ---- reference ----

type rmode struct {
	normal bool
	title  string
}

// ref is the reference state. Generated ids are the labels g1, g2, ...
type ref struct {
	modes   map[string]rmode
	active  string
	atitle  string
	anormal bool
	changed bool // the active mode has been changed, or was given and exists
}

func (r ref) clone() ref {
	m := make(map[string]rmode, len(r.modes))
	for k, v := range r.modes {
		m[k] = v
	}
	r.modes = m
	return r
}

func (r ref) String() string {
	var ks []string
	for k := range r.modes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		n := ""
		if r.modes[k].normal {
			n = "*"
		}
		fmt.Fprintf(&b, "%s%s:%s ", k, n, r.modes[k].title)
	}
	fmt.Fprintf(&b, "| active %q:%s normal=%v", r.active, r.atitle, r.anormal)
	return b.String()
}

func (r ref) normal() string {
	best := ""
	for k, v := range r.modes {
		if v.normal && (best == "" || k < best) {
			best = k
		}
	}
	return best
}

type kind int

const (
	kAdd kind = iota
	kCreate
	kUpdate
	kDelete
	kSet
	kChange
	kClear
)

type op struct {
	kind   kind
	server bool
	id     string
	normal bool
	title  string
	mask   []string // kUpdate; nil: none
	allow  bool     // kDelete: allow missing
	check  bool     // kDelete, kUpdate: with a failing precondition
	put    bool     // kUpdate: create if absent
	st     bool     // kAdd, kCreate, kUpdate: with a start time
}

func (o op) String() string {
	s := [...]string{"add", "create", "update", "delete", "set-active", "change-active", "clear-active"}[o.kind]
	if o.server {
		s = "rpc-" + s
	}
	switch o.kind {
	case kAdd, kCreate, kUpdate:
		s += fmt.Sprintf("(%s normal=%v %s", o.id, o.normal, o.title)
		if o.mask != nil {
			s += fmt.Sprintf(" mask=%v", o.mask)
		}
		if o.check {
			s += " check fails"
		}
		if o.put {
			s += " create-if-absent"
		}
		if o.st {
			s += " with a start time"
		}
		return s + ")"
	case kDelete:
		if o.allow {
			s += "-allow-missing"
		}
		if o.check {
			s += "-check-fails"
		}
	case kClear:
		return s
	}
	return s + "(" + o.id + ")"
}

func (o op) covers(f string) bool {
	if o.mask == nil {
		return true
	}
	for _, p := range o.mask {
		if p == f {
			return true
		}
	}
	return false
}

// res is what an operation must do.
type res struct {
	ok       bool
	any      bool // success is also allowed, as long as the invariants hold
	notFound bool // must be this code
	id       string
	stamp    bool // the active mode's start time must be the clock's time
	given    bool // the active mode's start time is the one given
}

// apply gives the next state and the result.
func (r ref) apply(o op) (ref, res) {
	fail := func(nf bool) (ref, res) { return r, res{notFound: nf} }
	n := r.clone()
	switch o.kind {
	case kAdd, kCreate:
		id := o.id
		if o.kind == kCreate {
			for i := 1; ; i++ {
				id = fmt.Sprintf("g%d", i)
				if _, ok := r.modes[id]; !ok {
					break
				}
			}
		} else if _, ok := r.modes[id]; ok {
			return fail(false)
		}
		if o.normal && r.normal() != "" {
			return fail(false)
		}
		n.modes[id] = rmode{o.normal, o.title}
		return n, res{ok: true, id: id}
	case kUpdate:
		m, ok := r.modes[o.id]
		if !ok && !o.put {
			return fail(false)
		}
		if o.check {
			return fail(false)
		}
		if o.covers("normal") {
			if nm := r.normal(); o.normal && nm != "" && nm != o.id {
				return r, res{any: true}
			}
			m.normal = o.normal
		}
		if o.covers("title") {
			m.title = o.title
		}
		n.modes[o.id] = m
		return n, res{ok: true, id: o.id}
	case kDelete:
		_, ok := r.modes[o.id]
		if o.id == r.active {
			return fail(false)
		}
		if !ok {
			if o.allow {
				return r, res{ok: true}
			}
			return fail(true)
		}
		if o.check {
			return fail(false)
		}
		delete(n.modes, o.id)
		return n, res{ok: true}
	case kSet:
		if _, ok := r.modes[o.id]; !ok {
			return fail(false)
		}
		n.active, n.atitle, n.anormal, n.changed = o.id, o.title, o.normal, true
		return n, res{ok: true, given: true}
	case kChange, kClear:
		id := o.id
		if o.kind == kClear {
			id = r.normal()
		}
		m, ok := r.modes[id]
		if !ok {
			return fail(false)
		}
		n.active, n.atitle, n.anormal, n.changed = id, m.title, m.normal, true
		return n, res{ok: true, id: id, stamp: id != r.active}
	}
	panic("op")
}

// ---- the real model ----

type clk struct {
	clock.Clock
	now time.Time
}

func (c *clk) Now() time.Time { return c.now }

type rig struct {
	m    *electricpb.Model
	s    *electricpb.ModelServer
	c    *clk
	ids  map[string]string // label -> real id
	labs map[string]string
}

type initial struct {
	name   string
	modes  map[string]rmode
	active string
}

var epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
var given = timestamppb.New(epoch.Add(-time.Hour))

func order(m map[string]rmode) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func (in initial) open() (*rig, ref) {
	g := &rig{c: &clk{clock.Real(), epoch}, ids: map[string]string{}, labs: map[string]string{}}
	r := ref{modes: map[string]rmode{}}
	opts := []resource.Option{electricpb.WithClock(g.c), electricpb.WithRNG(rand.New(rand.NewSource(1)))}
	for _, k := range order(in.modes) {
		v := in.modes[k]
		opts = append(opts, electricpb.WithInitialMode(&emode{Id: k, Normal: v.normal, Title: v.title}))
		r.modes[k] = v
	}
	if in.active != "" {
		v := in.modes[in.active]
		opts = append(opts, electricpb.WithInitialActiveMode(&emode{Id: in.active, Title: v.title, Normal: v.normal}))
		r.active, r.atitle, r.anormal, r.changed = in.active, v.title, v.normal, true
	}
	g.m = electricpb.NewModel(opts...)
	g.s = electricpb.NewModelServer(g.m)
	return g, r
}

func (g *rig) real(label string) string {
	if id, ok := g.ids[label]; ok {
		return id
	}
	return label
}

func (g *rig) label(id string) string {
	if l, ok := g.labs[id]; ok {
		return l
	}
	return id
}

var errCheck = status.Error(codes.FailedPrecondition, "check")

// do performs o, returning the mode of the reply if it has one.
func (g *rig) do(o op) (*emode, error) {
	ctx := context.Background()
	id := g.real(o.id)
	msg := &emode{Id: id, Normal: o.normal, Title: o.title}
	if o.st {
		msg.StartTime = timestamppb.New(epoch.Add(-24 * time.Hour))
	}
	var mask *fieldmaskpb.FieldMask
	if o.mask != nil {
		mask = &fieldmaskpb.FieldMask{Paths: append([]string{}, o.mask...)}
	}
	check := resource.WithExpectedCheck(func(proto.Message) error { return errCheck })
	switch o.kind {
	case kAdd:
		return nil, g.m.AddMode(msg)
	case kCreate:
		msg.Id = ""
		if o.server {
			return g.s.CreateMode(ctx, &electricpb.CreateModeRequest{Name: "n", Mode: msg})
		}
		return g.m.CreateMode(msg)
	case kUpdate:
		if o.server {
			return g.s.UpdateMode(ctx, &electricpb.UpdateModeRequest{Name: "n", Mode: msg, UpdateMask: mask})
		}
		var opts []resource.WriteOption
		if o.mask != nil {
			opts = append(opts, resource.WithUpdateMask(mask))
		}
		if o.check {
			opts = append(opts, check)
		}
		if o.put {
			opts = append(opts, resource.WithCreateIfAbsent())
		}
		return g.m.UpdateMode(msg, opts...)
	case kDelete:
		if o.server {
			_, err := g.s.DeleteMode(ctx, &electricpb.DeleteModeRequest{Name: "n", Id: id, AllowMissing: o.allow})
			return nil, err
		}
		var opts []resource.WriteOption
		if o.allow {
			opts = append(opts, resource.WithAllowMissing(true))
		}
		if o.check {
			opts = append(opts, check)
		}
		return nil, g.m.DeleteMode(id, opts...)
	case kSet:
		msg.StartTime = proto.Clone(given).(*timestamppb.Timestamp)
		return nil, g.m.SetActiveMode(msg)
	case kChange:
		if o.server {
			return g.s.UpdateActiveMode(ctx, &traits.UpdateActiveModeRequest{Name: "n", ActiveMode: &emode{Id: id}})
		}
		return g.m.ChangeActiveMode(id)
	case kClear:
		if o.server {
			return g.s.ClearActiveMode(ctx, &traits.ClearActiveModeRequest{Name: "n"})
		}
		return g.m.ChangeToNormalMode()
	}
	panic("op")
}

// learn records the id generated by a create.
func (g *rig) learn(label string, m *emode) string {
	if m == nil || m.Id == "" {
		return "create: the reply has no id"
	}
	if _, ok := g.labs[m.Id]; ok && g.labs[m.Id] != label {
		delete(g.ids, g.labs[m.Id])
	}
	g.ids[label] = m.Id
	g.labs[m.Id] = label
	return ""
}

// observe is the model's state as a ref, or a broken invariant.
func (g *rig) observe(changed bool) (ref, string) {
	r := ref{modes: map[string]rmode{}, changed: changed}
	list := g.m.Modes()
	if f := oneNormal(list); f != "" {
		return r, f
	}
	for _, m := range list {
		l := g.label(m.Id)
		if _, ok := r.modes[l]; ok {
			return r, fmt.Sprintf("duplicate: mode %q listed twice: %v", m.Id, list)
		}
		r.modes[l] = rmode{m.Normal, m.Title}
		f, ok := g.m.FindMode(m.Id)
		if !ok || !proto.Equal(f, m) {
			return r, fmt.Sprintf("find: FindMode(%q) = %v, %v, listed as %v", m.Id, f, ok, m)
		}
	}
	a := g.m.ActiveMode()
	r.active, r.atitle, r.anormal = g.label(a.GetId()), a.GetTitle(), a.GetNormal()
	if changed {
		if _, ok := r.modes[r.active]; !ok {
			return r, fmt.Sprintf("active-exists: the active mode %q is not one of %v", a.GetId(), list)
		}
	}
	nm, ok := g.m.NormalMode()
	if want := r.normal(); ok != (want != "") || ok && g.label(nm.GetId()) != want {
		return r, fmt.Sprintf("normal: NormalMode() = %v, %v of %v", nm, ok, list)
	}
	return r, ""
}

func oneNormal(list []*emode) string {
	n := 0
	for _, m := range list {
		if m.Normal {
			n++
		}
	}
	if n > 1 {
		return fmt.Sprintf("two-normal: %d normal modes: %v", n, list)
	}
	return ""
}

func code(err error) codes.Code { return status.Code(err) }

// step performs o and judges it. It returns the next reference state; stop
// reports that the implementation went its own allowed way.
func (g *rig) step(r ref, o op) (n ref, stop bool, fail string) {
	g.c.now = g.c.now.Add(time.Second)
	before := g.m.ActiveMode()
	n, want := r.apply(o)
	got, err := g.do(o)
	hl.Step(1)
	if o.kind == kCreate && err == nil {
		if !want.ok {
			return n, false, "create: succeeded"
		}
		if f := g.learn(want.id, got); f != "" {
			return n, false, f
		}
	}
	obs, f := g.observe(n.changed)
	if f != "" {
		return n, false, f
	}
	if want.any && err == nil {
		return n, true, ""
	}
	if (err == nil) != want.ok {
		if want.notFound {
			return n, false, fmt.Sprintf("delete-absent: no error")
		}
		return n, false, fmt.Sprintf("outcome: error %v, in state %v", err, r)
	}
	if want.notFound && code(err) != codes.NotFound {
		return n, false, fmt.Sprintf("delete-absent: error %v is not NotFound", err)
	}
	if obs.String() != n.String() {
		return n, false, fmt.Sprintf("state: %v, want %v (from %v)", obs, n, r)
	}
	now := g.m.ActiveMode()
	if err == nil && want.stamp {
		t := timestamppb.New(g.c.now)
		if !proto.Equal(now.StartTime, t) {
			return n, false, fmt.Sprintf("start-time: %v, want the clock's %v", now.StartTime.AsTime(), t.AsTime())
		}
		if !proto.Equal(got, now) {
			return n, false, fmt.Sprintf("reply: %v, the active mode is %v", got, now)
		}
	}
	if err == nil && want.given && !proto.Equal(now.StartTime, given) {
		return n, false, fmt.Sprintf("start-time: set-active stored %v, given %v", now.StartTime, given)
	}
	if (err != nil || o.kind < kSet) && !proto.Equal(before, now) {
		return n, false, fmt.Sprintf("active: changed from %v to %v", before, now)
	}
	if err == nil && (o.kind == kChange || o.kind == kClear) && g.label(got.GetId()) != n.active {
		return n, false, fmt.Sprintf("reply: %v, want mode %q", got, n.active)
	}
	return n, false, ""
}

func seq(in initial, ops []op) (string, string) {
	g, r := in.open()
	if obs, f := g.observe(r.changed); f != "" || obs.String() != r.String() {
		return "", fmt.Sprintf("initial: %v, want %v %s", obs, r, f)
	}
	for i, o := range ops {
		n, stop, f := g.step(r, o)
		if f != "" {
			k := strings.Index(f, ":")
			return "", fmt.Sprintf("%s: after step %d (%v)%s", f[:k], i, o, f[k:])
		}
		if stop {
			break
		}
		r = n
	}
	return r.String(), ""
}

func label(in initial, ops []op) func() string {
	return func() string { return fmt.Sprintf("%s: %v", in.name, ops) }
}

var inits = []initial{
	{"empty", nil, ""},
	{"a*,b", map[string]rmode{"a": {true, "1"}, "b": {false, "1"}}, ""},
	{"a*,b active b", map[string]rmode{"a": {true, "1"}, "b": {false, "1"}}, "b"},
	{"a,b active a", map[string]rmode{"a": {false, "1"}, "b": {false, "1"}}, "a"},
}

func alphabet(full bool) (ops []op) {
	for _, n := range []bool{true, false} {
		ops = append(ops,
			op{kind: kAdd, id: "a", normal: n, title: "1", st: true},
			op{kind: kCreate, normal: n, title: "1"},
			op{kind: kUpdate, id: "a", normal: n, title: "2", st: n},
			op{kind: kUpdate, id: "b", normal: n, title: "1", mask: []string{"normal"}, st: n},
		)
		if full {
			ops = append(ops,
				op{kind: kAdd, id: "b", normal: n, title: "1"},
				op{kind: kAdd, id: "c", normal: n, title: "1"},
				op{kind: kCreate, server: true, normal: n, title: "1"},
				op{kind: kUpdate, id: "g1", normal: n, title: "1", mask: []string{"normal", "title"}},
				op{kind: kUpdate, id: "g1", normal: n, title: "2", mask: []string{"title"}},
				op{kind: kUpdate, id: "b", normal: n, title: "2", mask: []string{}},
				op{kind: kUpdate, id: "b", normal: n, title: "1", mask: []string{"start_time"}, st: true},
				op{kind: kCreate, server: true, normal: n, title: "1", st: true},
				op{kind: kUpdate, id: "b", normal: n, title: "2", mask: []string{"title", "normal", "id"}},
				op{kind: kUpdate, id: "c", server: true, normal: n, title: "1", mask: []string{"normal"}},
				op{kind: kUpdate, id: "a", server: true, normal: n, title: "1"},
				op{kind: kUpdate, id: "a", server: true, normal: n, title: "2", mask: []string{"title"}},
				op{kind: kUpdate, id: "a", normal: n, title: "2", check: true},
				op{kind: kUpdate, id: "c", normal: n, title: "1", put: true},
				op{kind: kUpdate, id: "c", normal: n, title: "1", put: true, mask: []string{"normal"}},
				op{kind: kUpdate, id: "z", normal: n, title: "1"},
			)
		}
	}
	for _, id := range []string{"a", "g1"} {
		ops = append(ops,
			op{kind: kDelete, id: id},
			op{kind: kDelete, id: id, allow: true, server: true},
			op{kind: kChange, id: id, server: id == "g1"},
		)
	}
	ops = append(ops, op{kind: kSet, id: "b", title: "s"}, op{kind: kChange, id: "b"}, op{kind: kClear, server: true}, op{kind: kDelete, id: "b", allow: true})
	if full {
		for _, id := range []string{"a", "b", "c", "g1", "g2", "z"} {
			ops = append(ops,
				op{kind: kDelete, id: id}, op{kind: kDelete, id: id, allow: true},
				op{kind: kDelete, id: id, server: true}, op{kind: kDelete, id: id, allow: true, server: true},
				op{kind: kDelete, id: id, check: true}, op{kind: kDelete, id: id, check: true, allow: true},
				op{kind: kChange, id: id}, op{kind: kChange, id: id, server: true},
				op{kind: kSet, id: id, title: "s"}, op{kind: kSet, id: id, title: "1", normal: true},
			)
		}
		ops = append(ops, op{kind: kClear})
	}
	return ops
}

func sequences(in initial, depth int, ops []op) func(e *hl.E) {
	return func(e *hl.E) {
		cur := make([]op, depth)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == depth {
				s := append([]op{}, cur...)
				return e.Case(label(in, s), func() (string, string) { return seq(in, s) })
			}
			for _, o := range ops {
				cur[i] = o
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		rec(0)
	}
}

// reachable explores every reachable state of the reference and replays every
// transition on the real model.
func reachable(in initial, ops []op, maxModes, depth int) func(e *hl.E) {
	return func(e *hl.E) {
		type node struct {
			r    ref
			path []op
		}
		_, r0 := in.open()
		seen := map[string]bool{r0.String(): true}
		q := []node{{r0, nil}}
		for len(q) > 0 {
			nd := q[0]
			q = q[1:]
			for _, o := range ops {
				n, _ := nd.r.apply(o)
				if len(n.modes) > maxModes {
					continue
				}
				path := append(append([]op{}, nd.path...), o)
				if !e.Case(label(in, path), func() (string, string) { return seq(in, path) }) {
					return
				}
				k := n.String()
				if !seen[k] && len(path) < depth {
					seen[k] = true
					q = append(q, node{n, path})
				}
			}
		}
	}
}

// streams checks that the modes and the active mode seen by subscribers obey
// the same invariants.
func streams(in initial, depth int, ops []op) func(e *hl.E) {
	return func(e *hl.E) {
		cur := make([]op, depth)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == depth {
				s := append([]op{}, cur...)
				return e.Case(label(in, s), func() (string, string) {
					return watched(in, s)
				})
			}
			for _, o := range ops {
				cur[i] = o
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		rec(0)
	}
}

func watched(in initial, s []op) (string, string) {
	return hl.Single(func() (string, string) {
		g, r := in.open()
		w := g.watch()
		for j, o := range s {
			n, stop, f := g.step(r, o)
			if f != "" {
				return "", f
			}
			vrt.Quiesce()
			if f := w.check(true); f != "" {
				return "", fmt.Sprintf("%s (after step %d)", f, j)
			}
			if stop {
				break
			}
			r = n
		}
		w.stop()
		return r.String() + strings.Join(w.log, ";"), ""
	})
}

// many has long histories over many modes: n of them, of which the k-th is normal
// or none (k == n), that are activated, made normal, updated and deleted in turn.
func many(e *hl.E) {
	type script struct {
		name string
		ops  func(i, n int, id func(int) string) []op
	}
	scripts := []script{
		{"activate", func(i, n int, id func(int) string) []op {
			return []op{{kind: kChange, id: id(i)}, {kind: kDelete, id: id(i)}, {kind: kDelete, id: id(i + 1), allow: true}, {kind: kClear}, {kind: kDelete, id: id(i)}, {kind: kChange, id: id(i)}}
		}},
		{"normal", func(i, n int, id func(int) string) []op {
			return []op{{kind: kUpdate, id: id(i), normal: true, title: "2"}, {kind: kClear, server: true}, {kind: kUpdate, id: id(i), title: "1", mask: []string{"title"}},
				{kind: kUpdate, id: id(i), mask: []string{"normal"}}, {kind: kClear}, {kind: kUpdate, id: id(i + 1), normal: true, mask: []string{"normal"}}, {kind: kDelete, id: id(i + 1)},
				{kind: kUpdate, id: id(i + 1), mask: []string{"normal"}}}
		}},
		{"replace", func(i, n int, id func(int) string) []op {
			return []op{{kind: kDelete, id: id(i)}, {kind: kAdd, id: id(i), normal: true, title: "1"}, {kind: kAdd, id: id(i), title: "1", st: true}, {kind: kChange, id: id(i), server: true}, {kind: kUpdate, id: id(i), title: "2"}}
		}},
		{"create", func(i, n int, id func(int) string) []op {
			return []op{{kind: kCreate, title: "1"}, {kind: kCreate, normal: true, title: "2"}, {kind: kChange, id: fmt.Sprint("g", i+1)}, {kind: kClear}, {kind: kDelete, id: fmt.Sprint("g", i)}}
		}},
		{"drain", func(i, n int, id func(int) string) []op {
			return []op{{kind: kDelete, id: id(i)}, {kind: kDelete, id: id(i), allow: true, server: true}, {kind: kClear}, {kind: kSet, id: id(i + 1), title: "s"}, {kind: kDelete, id: id(i)}}
		}},
	}
	for _, n := range hl.Pick([]int{5, 9, 17, 40}, []int{5, 8, 9, 16, 17, 33, 65, 100}) {
		for _, k := range []int{0, 1, n / 2, n - 1, n} {
			for _, sc := range scripts {
				for _, down := range []bool{false, true} {
					id := func(i int) string {
						i = (i + n) % n
						if down {
							i = n - 1 - i
						}
						return fmt.Sprintf("m%03d", i)
					}
					in := initial{modes: map[string]rmode{}}
					for i := 0; i < n; i++ {
						in.modes[id(i)] = rmode{id(i) == fmt.Sprintf("m%03d", k), "1"}
					}
					var s []op
					for i := 0; i < n; i++ {
						s = append(s, sc.ops(i, n, id)...)
					}
					for _, watch := range []bool{false, true} {
						if !e.Case(func() string {
							return fmt.Sprintf("%d modes, %d normal, %s down=%v watch=%v", n, k, sc.name, down, watch)
						},
							func() (string, string) {
								if watch {
									return watched(in, s)
								}
								return seq(in, s)
							}) {
							return
						}
					}
				}
			}
		}
	}
}

type watcher struct {
	g      *rig
	modes  map[string]*emode
	active *emode
	fail   string
	log    []string
	stop   func()
}

// watch subscribes to modes and the active mode and waits for the seeds.
func (g *rig) watch() *watcher {
	ctx, cancel := context.WithCancel(context.Background())
	w := &watcher{g: g, modes: map[string]*emode{}, stop: cancel}
	mc, ac := g.m.PullModes(ctx), g.m.PullActiveMode(ctx)
	go func() {
		for c := range mc {
			switch {
			case c.NewValue != nil:
				w.modes[c.NewValue.Id] = c.NewValue
			case c.OldValue != nil:
				delete(w.modes, c.OldValue.Id)
			}
			w.log = append(w.log, fmt.Sprint(c.Type))
			if f := oneNormal(w.list()); f != "" && w.fail == "" {
				w.fail = "stream-" + f
			}
		}
	}()
	go func() {
		for c := range ac {
			w.active = c.ActiveMode
		}
	}()
	vrt.Quiesce()
	return w
}

func (w *watcher) list() []*emode {
	var l []*emode
	for _, m := range w.modes {
		l = append(l, m)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Id < l[j].Id })
	return l
}

func (w *watcher) check(settled bool) string {
	if w.fail != "" {
		return w.fail
	}
	if settled {
		l, want := w.list(), w.g.m.Modes()
		if len(l) != len(want) {
			return fmt.Sprintf("stream-modes: %v, the modes are %v", l, want)
		}
		for i := range l {
			if !proto.Equal(l[i], want[i]) {
				return fmt.Sprintf("stream-modes: %v, the modes are %v", l, want)
			}
		}
		if a := w.g.m.ActiveMode(); !proto.Equal(w.active, a) {
			return fmt.Sprintf("stream-active: %v, the active mode is %v", w.active, a)
		}
	}
	return ""
}

// ---- concurrency ----

type call struct {
	o        op
	inv, ret int
	mode     *emode
	err      error
}

func (c *call) String() string {
	return fmt.Sprintf("[%d,%d] %v = %v %v", c.inv, c.ret, c.o, c.mode, c.err)
}

func lost(err error) bool {
	c := code(err)
	return c == codes.Aborted || c == codes.Unavailable
}

// linear searches an order of the calls that explains their results and final.
func linear(g *rig, r ref, cs []*call, final string, stamped bool, done uint) bool {
	if done == 1<<len(cs)-1 {
		return r.String() == final
	}
	for i, c := range cs {
		if done>>i&1 == 1 {
			continue
		}
		first := true
		for j, d := range cs {
			if done>>j&1 == 0 && d.ret < c.inv {
				first = false
			}
		}
		if !first {
			continue
		}
		n, want := r.apply(c.o)
		if c.err != nil && lost(c.err) && len(cs) > 1 {
			n, want = r, res{}
		}
		switch {
		case (c.err == nil) != want.ok:
			continue
		case want.notFound && code(c.err) != codes.NotFound:
			continue
		case c.err == nil && (c.o.kind == kChange || c.o.kind == kClear) && (c.mode.GetId() != g.real(want.id) ||
			want.stamp && !proto.Equal(c.mode.GetStartTime(), timestamppb.New(g.c.now))):
			continue
		}
		if linear(g, n, cs, final, stamped, done|1<<i) {
			return true
		}
	}
	return false
}

func race(in initial, progs [][]op, watch bool) vrt.Body {
	return func() (string, string) {
		g, r := in.open()
		g.c.now = g.c.now.Add(time.Second)
		var w *watcher
		if watch {
			w = g.watch()
		}
		var cs []*call
		now, creates := 0, 0
		done := make(chan bool, len(progs))
		for _, p := range progs {
			go func() {
				for _, o := range p {
					now++
					c := &call{o: o, inv: now, ret: 1 << 30}
					cs = append(cs, c)
					c.mode, c.err = g.do(o)
					now++
					c.ret = now
					if o.kind == kCreate && c.err == nil {
						creates++
						g.learn(fmt.Sprintf("g%d", creates), c.mode)
					}
				}
				done <- true
			}()
		}
		// a reader sees at most one normal mode at any time
		bad := ""
		for i := 0; i < 2; i++ {
			vrt.Yield()
			if f := oneNormal(g.m.Modes()); f != "" {
				bad = f
			}
		}
		for range progs {
			<-done
		}
		vrt.Quiesce()
		if bad != "" {
			return "", bad
		}
		changed := r.changed
		out := ""
		for _, c := range cs {
			out += fmt.Sprintf("%v=%v;", c.o, code(c.err))
			if c.err == nil && c.o.kind >= kSet {
				changed = true
			}
		}
		obs, f := g.observe(changed)
		if f != "" {
			return out, fmt.Sprintf("%s; calls %v", f, cs)
		}
		if w != nil {
			if f := w.check(true); f != "" {
				return out, fmt.Sprintf("%s; calls %v", f, cs)
			}
			w.stop()
		}
		if !linear(g, r, cs, obs.String(), true, 0) {
			return out, fmt.Sprintf("linearizable: no order of the calls explains %v and the final state %v from %v", cs, obs, r)
		}
		return out + obs.String(), ""
	}
}

func main() {
	hl.Main("C19", func() (scs []hl.Scenario) {
		full, small := alphabet(true), alphabet(false)
		for _, in := range inits {
			scs = append(scs,
				hl.Scenario{Name: "reachable/" + in.name, Enum: reachable(in, full, hl.Pick(4, 5), hl.Pick(5, 9)), Shards: 4},
				hl.Scenario{Name: "sequences/" + in.name, Enum: sequences(in, hl.Pick(3, 4), small), Shards: 4},
				hl.Scenario{Name: "pairs/" + in.name, Enum: sequences(in, 2, full), Shards: 2},
				hl.Scenario{Name: "streams/" + in.name, Enum: streams(in, 2, full), Shards: 4},
			)
		}
		scs = append(scs, hl.Scenario{Name: "many", Enum: many, Shards: 8})
		add := func(name string, b1, b2 int, body vrt.Body) {
			scs = append(scs, hl.Scenario{Name: name, Cfg: vrt.Config{Mode: vrt.Repo, Bound: b1}, Bound2: b2, Body: body})
		}
		conc := []op{
			{kind: kAdd, id: "c", normal: true, title: "1"},
			{kind: kCreate, normal: true, title: "1"},
			{kind: kUpdate, id: "b", normal: true, title: "1", mask: []string{"normal", "start_time"}, st: true},
			{kind: kUpdate, id: "a", normal: true, title: "2"},
			{kind: kUpdate, id: "a", normal: false, title: "1"},
			{kind: kDelete, id: "a"},
			{kind: kDelete, id: "b", allow: true, server: true},
			{kind: kChange, id: "a"},
			{kind: kChange, id: "b", server: true},
			{kind: kSet, id: "a", title: "s"},
			{kind: kClear},
		}
		cin := []initial{inits[1], inits[3], {"a,b active b", map[string]rmode{"a": {false, "1"}, "b": {false, "1"}}, "b"}}
		for ii, in := range cin {
			for i, p := range conc {
				for j, q := range conc[:i+1] {
					add(fmt.Sprintf("conc2/%d/%d-%d", ii, i, j), 2, 4, race(in, [][]op{{p}, {q}}, false))
				}
			}
		}
		for ii, in := range cin[:2] {
			for i, p := range conc {
				for j, q := range conc[:i+1] {
					add(fmt.Sprintf("watched/%d/%d-%d", ii, i, j), 1, 2, race(in, [][]op{{p}, {q}}, true))
					for k, s := range conc[:j+1] {
						if k == j && j == i {
							continue
						}
						add(fmt.Sprintf("conc3/%d/%d-%d-%d", ii, i, j, k), 1, 2, race(in, [][]op{{p}, {q}, {s}}, false))
					}
				}
			}
		}
		two := []op{conc[1], conc[2], conc[5], conc[6], conc[7], conc[8], conc[10]}
		for i, p := range two {
			for j, q := range two {
				for k, s := range two {
					add(fmt.Sprintf("conc21/%d-%d-%d", i, j, k), 1, 2, race(cin[0], [][]op{{p, q}, {s}}, false))
				}
			}
		}
		return
	})
}
