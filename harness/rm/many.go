package rm

import (
	"context"
	"fmt"
	"sort"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

// Histories over many items: few of them, but of sizes where implementations change their ways.

// ManySizes are the numbers of items.
func ManySizes() []int { return []int{5, 8, 9, 13, 17, 33, 65, 130, 260} }

// ManyScripts are the histories, see manyOps.
var ManyScripts = []string{"grow", "growdown", "update", "shrink", "churn", "flip", "repeat"}

type manyOp struct {
	id    string
	title int // -1: delete
}

func manyID(i int) string { return []string{"k", "K", "é", "k0", ""}[i%5] + fmt.Sprint(i) }

func manyOps(n int, script string) (pre map[string]int, ops []manyOp) {
	pre = map[string]int{}
	add := func(i, title int) { ops = append(ops, manyOp{manyID(i), title}) }
	if script != "grow" && script != "growdown" {
		for i := 0; i < n; i++ {
			pre[manyID(i)] = i % 3
		}
	}
	switch script {
	case "grow":
		for i := 0; i < n; i++ {
			add(i, i)
		}
	case "growdown":
		for i := n - 1; i >= 0; i-- {
			add(i, i)
		}
	case "update":
		for i := 0; i < n; i++ {
			add(i, i+1)
		}
		for i := n - 1; i >= 0; i-- {
			add(i, i+100)
		}
	case "shrink":
		for i := 0; i < n; i += 2 {
			add(i, -1)
		}
		for i := 1; i < n; i += 2 {
			add(i, i)
		}
		for i := n - 1 - n%2; i > 0; i -= 2 {
			add(i, -1)
		}
	case "churn":
		for i := 0; i < n; i++ {
			add(i, -1)
		}
		for i := n - 1; i >= 0; i-- {
			add(i, i+1)
		}
		for i := 0; i < n; i++ {
			add(i, i+2)
		}
	case "flip":
		for k := 1; k < 4; k++ {
			for i := 0; i < n; i++ {
				add(i, i+k)
			}
		}
	case "repeat": // one item all the time
		for i := 0; i < 2*n; i++ {
			t := i
			if i%7 == 3 {
				t = -1
			}
			add(n/2, t)
		}
	}
	return pre, ops
}

func manyMsg(id string, title int) *traits.Metadata {
	return &traits.Metadata{Name: fmt.Sprint(title), Appearance: &traits.Metadata_Appearance{Title: id}}
}

func manyIncl(m proto.Message) bool {
	s := m.(*traits.Metadata).GetName()
	return s != "" && (s[len(s)-1]-'0')%2 == 0
}

type manySub struct {
	upd, bp, mask, incl bool
	stalled             int // receives only this many events while there are writes, negative: all

	seed map[string]proto.Message
	sink *Sink
	ch   <-chan *resource.CollectionChange
	log  []Exp
}

func (s *manySub) String() string {
	return fmt.Sprintf("updatesOnly=%v backpressure=%v mask=%v include=%v stalled=%d", s.upd, s.bp, s.mask, s.incl, s.stalled)
}

func (s *manySub) proj(m proto.Message) proto.Message {
	if m == nil || !s.mask {
		return m
	}
	return &traits.Metadata{Name: m.(*traits.Metadata).GetName()}
}

func (s *manySub) has(m proto.Message) bool {
	return m != nil && (!s.incl || manyIncl(m))
}

func (s *manySub) view(contents map[string]proto.Message) View {
	v := View{}
	for id, m := range contents {
		if s.has(m) {
			v[id] = s.proj(m)
		}
	}
	return v
}

// wrote adds the events of a write to those the subscriber is to receive.
func (s *manySub) wrote(id string, old, new proto.Message) {
	e := Ev{ID: id}
	o, n := s.has(old), s.has(new)
	switch {
	case o && n:
		e.Kind, e.Old, e.New = types.ChangeType_UPDATE, s.proj(old), s.proj(new)
	case o:
		e.Kind, e.Old = types.ChangeType_REMOVE, s.proj(old)
	case n:
		e.Kind, e.New = types.ChangeType_ADD, s.proj(new)
	default:
		return
	}
	s.log = append(s.log, Exp{Ev: e})
}

func (s *manySub) open(ctx context.Context, col *resource.Collection, contents map[string]proto.Message) {
	opts := []resource.ReadOption{resource.WithUpdatesOnly(s.upd), resource.WithBackpressure(s.bp)}
	if s.mask {
		opts = append(opts, resource.WithReadPaths(&traits.Metadata{}, "name"))
	}
	if s.incl {
		opts = append(opts, resource.WithInclude(func(_ string, m proto.Message) bool { return manyIncl(m) }))
	}
	s.seed = map[string]proto.Message{}
	var ids []string
	for id, m := range contents {
		s.seed[id] = m
		if s.has(m) {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	if !s.upd {
		for i, id := range ids {
			s.log = append(s.log, Exp{Ev: Ev{ID: id, Kind: types.ChangeType_ADD, New: s.proj(contents[id]), Seed: true, Last: i == len(ids)-1}})
		}
	}
	switch {
	case s.stalled >= 0:
		s.sink = &Sink{}
		s.ch = col.Pull(ctx, opts...)
	default:
		s.sink = Collect(col.Pull(ctx, opts...))
	}
}

// recv receives up to k events that are there to be received, all of them if k is negative.
func (s *manySub) recv(k int) {
	for ; k != 0; k-- {
		vrt.Quiesce()
		select {
		case c, ok := <-s.ch:
			if !ok {
				s.sink.Closed = true
				return
			}
			s.sink.Evs = append(s.sink.Evs, FromCollection(c))
		default:
			return
		}
	}
}

func (s *manySub) fold(contents map[string]proto.Message, strict bool) string {
	v := View{}
	if s.upd {
		v = s.view(s.seed)
	}
	for i, e := range s.sink.Evs {
		if d := v.Apply(e); d != "" && strict {
			return fmt.Sprintf("event does not fit: %s (event %d, %v)", d, i, e)
		}
	}
	if want := s.view(contents); !v.Equal(want) {
		return fmt.Sprintf("fold: view %v, store %v", v, want)
	}
	return ""
}

// Many runs a history on a collection of n items, judging one aspect:
//
//	list    results, Get and List
//	script  the exact events of backpressured subscribers
//	fold    the folded view of all kinds of subscribers
//	lossy   the folded view of subscribers that receive late
//	include the events of subscribers with a predicate
func Many(aspect string, n int, script string) (string, string) {
	pre, ops := manyOps(n, script)
	model := map[string]proto.Message{}
	ropts := []resource.Option{}
	for id, t := range pre {
		model[id] = manyMsg(id, t)
		ropts = append(ropts, resource.WithInitialRecord(id, manyMsg(id, t)))
	}
	col := resource.NewCollection(ropts...)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var subs []*manySub
	var late []manySub
	for _, u := range []bool{false, true} {
		for _, mk := range []bool{false, true} {
			var add []manySub
			switch aspect {
			case "script":
				add = []manySub{{bp: true, stalled: -1}}
			case "fold":
				add = []manySub{{bp: true, stalled: -1}, {stalled: -1}, {stalled: -1, incl: true}}
			case "lossy":
				add = []manySub{{stalled: 0}, {stalled: 1}, {stalled: n / 2}, {stalled: n}, {stalled: 0, incl: true}}
			case "include":
				add = []manySub{{bp: true, stalled: -1, incl: true}, {stalled: n / 2, incl: true}}
			}
			for _, s := range add {
				s.upd, s.mask = u, mk
				late = append(late, s)
			}
		}
	}
	open := func() {
		for _, s := range late {
			s := s
			s.open(ctx, col, model)
			subs = append(subs, &s)
		}
	}
	open()
	t0 := time.Now()
	list := func() string {
		ids := make([]string, 0, len(model))
		for id := range model {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		got := col.List()
		if len(got) != len(ids) {
			return fmt.Sprintf("list: %d items, want %d", len(got), len(ids))
		}
		for i, id := range ids {
			if !proto.Equal(got[i], model[id]) {
				return fmt.Sprintf("list: item %d is %s, want %s", i, Text(got[i]), Text(model[id]))
			}
			if g, ok := col.Get(id); !ok || !proto.Equal(g, model[id]) {
				return fmt.Sprintf("get: %q is %v, want %s", id, g, Text(model[id]))
			}
		}
		return ""
	}
	for k, o := range ops {
		if k == len(ops)/2 {
			vrt.Quiesce()
			for _, s := range subs {
				if s.ch != nil {
					s.recv(s.stalled)
				}
			}
			open()
		}
		old, had := model[o.id]
		if o.title < 0 {
			got, err := col.Delete(o.id, resource.WithAllowMissing(true))
			if aspect == "list" && (err != nil || had && !proto.Equal(got, old)) {
				return "", fmt.Sprintf("delete: %q returned %v, %v", o.id, got, err)
			}
			if !had {
				continue
			}
			delete(model, o.id)
		} else {
			x := manyMsg(o.id, o.title)
			var got proto.Message
			var err error
			if had {
				got, err = col.Update(o.id, proto.Clone(x), resource.WithExpectedValue(old))
			} else {
				got, err = col.Add(o.id, proto.Clone(x))
			}
			if err != nil || aspect == "list" && !proto.Equal(got, x) {
				return "", fmt.Sprintf("write: %q returned %v, %v", o.id, got, err)
			}
			model[o.id] = x
		}
		for _, s := range subs {
			s.wrote(o.id, old, model[o.id])
		}
		if aspect == "list" && (n < 20 || k == len(ops)/2 || k == len(ops)-1) {
			if d := list(); d != "" {
				return "", fmt.Sprintf("%s after %d writes", d, k+1)
			}
		}
	}
	vrt.Quiesce()
	if aspect != "list" && time.Since(t0) != 0 {
		return "", fmt.Sprintf("writer waited: %v passed", time.Since(t0))
	}
	for _, s := range subs {
		if s.ch != nil {
			s.recv(-1)
		}
		d := ""
		if s.sink.Closed {
			d = "closed: the stream ended although its context is alive"
		} else if s.stalled < 0 && s.bp {
			d = MatchEvs(s.sink.Evs, s.log)
		}
		if d == "" {
			d = s.fold(model, true)
		}
		if d != "" {
			return "", fmt.Sprintf("%s (subscriber %v)", d, s)
		}
	}
	return fmt.Sprintf("%d writes, %d subscribers, %d items", len(ops), len(subs), len(model)), ""
}

// ManyScenarios are the histories over many items for one aspect.
func ManyScenarios(aspect string) (r []hl.Scenario) {
	for _, script := range ManyScripts {
		r = append(r, hl.Scenario{Name: "many/" + script, Enum: func(e *hl.E) {
			for _, n := range ManySizes() {
				if !hl.Thorough() && n > 140 {
					break
				}
				if !e.Case(func() string { return fmt.Sprintf("%d items", n) }, func() (string, string) {
					return hl.Single(func() (string, string) { return Many(aspect, n, script) })
				}) {
					return
				}
			}
		}})
	}
	return r
}
