// C02: concurrent writes are linearizable, losers have no effect.
package main

import (
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type md = traits.Metadata

func m(name string) *md { return &md{Name: name} }

// op is one call of a program.
type op struct {
	label string
	kind  string // add upd del get list
	id    string
	msg   *md
	w     rm.W
}

// call is one finished call.
type call struct {
	op
	inv, res int
	err      error
	msg      proto.Message
	list     []proto.Message
	id       string // the id acted upon
	calls    rm.Calls
}

func (c *call) String() string {
	e := "ok"
	if c.err != nil {
		e = status.Code(c.err).String()
	}
	r := ""
	if c.msg != nil {
		r = rm.Text(c.msg)
	}
	for _, x := range c.list {
		r += rm.Text(x)
	}
	return fmt.Sprintf("[%d-%d %s(%q)=%s %s]", c.inv, c.res, c.label, c.id, e, r)
}

func (c *call) write() bool { return c.kind != "get" && c.kind != "list" }

// state is a specification state; value resources use id "".
type state struct {
	items map[string]proto.Message
	value bool
}

func (s state) with(id string, x proto.Message) state {
	n := state{items: map[string]proto.Message{}, value: s.value}
	for k, v := range s.items {
		n.items[k] = v
	}
	if x == nil {
		delete(n.items, id)
	} else {
		n.items[id] = x
	}
	return n
}

func (s state) list() []proto.Message {
	var ids []string
	for id := range s.items {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var out []proto.Message
	for _, id := range ids {
		out = append(out, s.items[id])
	}
	return out
}

func (s state) String() string {
	var ids []string
	for id := range s.items {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	b := ""
	for _, id := range ids {
		b += fmt.Sprintf("%q:%s ", id, rm.Text(s.items[id]))
	}
	return b
}

func same(a, b []proto.Message) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !proto.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// apply says whether the call, taken alone at this state, does what it reported.
func apply(s state, c *call) (state, bool) {
	old, exists := s.items[c.id]
	switch c.kind {
	case "get":
		if c.err != nil {
			return s, false
		}
		if !exists {
			return s, c.msg == nil
		}
		return s, c.msg != nil && proto.Equal(old, c.msg)
	case "list":
		return s, same(s.list(), c.list)
	case "del":
		w := c.w.Delete(old, exists)
		if w.Check(c.err) != "" {
			return s, false
		}
		if c.err != nil || !exists {
			return s, c.err != nil || c.msg == nil
		}
		if c.msg == nil || !proto.Equal(c.msg, old) {
			return s, false
		}
		return s.with(c.id, nil), true
	}
	wo := c.w
	if c.kind == "add" {
		wo.Create, wo.Absent = true, true
	}
	w := wo.Update(old, exists, s.value, rm.Mask{}, c.msgOrEmpty())
	if w.Check(c.err) != "" {
		return s, false
	}
	if c.err != nil {
		return s, true
	}
	if !w.Same(c.msg, w.New) {
		return s, false
	}
	if !s.value && !w.Create && c.calls.Created > 0 && !c.racy() || w.Create && c.calls.Created == 0 {
		return s, false
	}
	return s.with(c.id, c.msg), true
}

// racy: the created callback may have run although another writer created the item.
func (c *call) racy() bool { return true }

func (c *call) msgOrEmpty() *md { return c.op.msg }

func lostRace(err error) bool {
	switch status.Code(err) {
	case codes.Aborted, codes.AlreadyExists, codes.FailedPrecondition, codes.NotFound, codes.Unavailable:
		return true
	}
	return false
}

// linearize looks for an order of the calls that explains them and ends in final.
func linearize(s state, cs []*call, final []proto.Message) bool {
	n := len(cs)
	if n == 0 {
		return same(s.list(), final)
	}
	for i, c := range cs {
		first := true
		for j, o := range cs {
			if j != i && o.res < c.inv {
				first = false
				break
			}
		}
		if !first {
			continue
		}
		rest := make([]*call, 0, n-1)
		rest = append(append(rest, cs[:i]...), cs[i+1:]...)
		if s2, ok := apply(s, c); ok && linearize(s2, rest, final) {
			return true
		}
	}
	return false
}

// losers reports the failed calls that may be dropped: they overlap a successful write.
func losers(cs []*call) (must, may []*call) {
	for _, c := range cs {
		drop := false
		if c.write() && c.err != nil && lostRace(c.err) {
			for _, o := range cs {
				if o != c && o.write() && o.err == nil && o.inv < c.res && c.inv < o.res {
					drop = true
				}
			}
		}
		if drop {
			may = append(may, c)
		} else {
			must = append(must, c)
		}
	}
	return
}

func check(init state, cs []*call, final []proto.Message) string {
	must, _ := losers(cs)
	if !linearize(init, must, final) {
		return fmt.Sprintf("not linearizable: from %v, calls %v, final %v", init, cs, texts(final))
	}
	return ""
}

func texts(ms []proto.Message) (out []string) {
	for _, x := range ms {
		out = append(out, rm.Text(x))
	}
	return
}

// target is the real resource.
type target struct {
	val *resource.Value
	col *resource.Collection
	t   int
}

func (t *target) do(o op) *call {
	c := &call{op: o, id: o.id}
	opts := o.w.Opts(&c.calls)
	var arg proto.Message
	if o.msg != nil {
		arg = proto.Clone(o.msg)
	}
	t.t++
	c.inv = t.t
	switch {
	case t.val != nil && o.kind == "get":
		c.msg = t.val.Get()
	case t.val != nil:
		c.msg, c.err = t.val.Set(arg, opts...)
	case o.kind == "get":
		c.msg, _ = t.col.Get(o.id)
	case o.kind == "list":
		c.list = t.col.List()
	case o.kind == "add":
		c.msg, c.err = t.col.Add(o.id, arg, opts...)
	case o.kind == "upd":
		c.msg, c.err = t.col.Update(o.id, arg, opts...)
	case o.kind == "del":
		c.msg, c.err = t.col.Delete(o.id, opts...)
	}
	t.t++
	c.res = t.t
	if o.w.Gen {
		if n := len(c.calls.IDs); n > 0 {
			c.id = c.calls.IDs[n-1]
		}
	}
	if c.err != nil {
		c.msg = nil
	}
	if c.msg != nil {
		c.msg = proto.Clone(c.msg)
	}
	return c
}

func (t *target) final() []proto.Message {
	if t.val != nil {
		if x := t.val.Get(); x != nil {
			return []proto.Message{x}
		}
		return nil
	}
	return t.col.List()
}

// fixed is a random source that always starts with the same id.
func fixed() io.Reader { return rand.New(rand.NewSource(1)) }

func open(value bool, init []string) (*target, state) {
	s := state{items: map[string]proto.Message{}, value: value}
	t := &target{}
	var opts []resource.Option
	for i, n := range init {
		if value {
			opts = append(opts, resource.WithInitialValue(m(n)))
			s.items[""] = m(n)
			continue
		}
		id := string(rune('a' + i))
		opts = append(opts, resource.WithInitialRecord(id, m(n)))
		s.items[id] = m(n)
	}
	if value {
		t.val = resource.NewValue(opts...)
	} else {
		t.col = resource.NewCollection(append(opts, resource.WithRNG(fixed()))...)
	}
	return t, s
}

// run executes the programs concurrently and checks the history.
func run(value bool, init []string, progs [][]op) vrt.Body {
	return func() (string, string) {
		t, s := open(value, init)
		var cs []*call
		done := make(chan bool, len(progs))
		for _, p := range progs {
			go func() {
				for _, o := range p {
					cs = append(cs, t.do(o))
				}
				done <- true
			}()
		}
		for range progs {
			<-done
		}
		return judge(t, s, cs)
	}
}

func judge(t *target, s state, cs []*call) (string, string) {
	sort.Slice(cs, func(i, j int) bool { return cs[i].inv < cs[j].inv })
	final := t.final()
	out := ""
	for _, c := range cs {
		out += fmt.Sprintf("%s=%v;", c.label, status.Code(c.err))
		if c.err != nil && !lostRace(c.err) && c.w.EC == 0 {
			return out, fmt.Sprintf("error: a concurrent write failed with %v: %v", c.err, cs)
		}
	}
	out += strings.Join(texts(final), ",")
	if f := check(s, cs, final); f != "" {
		return out, f
	}
	ids := map[string]bool{}
	for _, c := range cs {
		if c.kind == "add" && c.w.Gen && c.err == nil {
			if ids[c.id] {
				return out, fmt.Sprintf("two adds: both report id %s", c.id)
			}
			ids[c.id] = true
		}
	}
	return out, ""
}

// window runs interfering calls inside the windows of one call: whenever its
// callback runs, another goroutine performs the next interfering call to its end.
func window(value bool, init []string, victim op, interfere []op) vrt.Body {
	return func() (string, string) {
		t, s := open(value, init)
		var cs []*call
		kick := make(chan bool, 16)
		done := make(chan bool, 2)
		go func() {
			i := 0
			for range kick {
				if i < len(interfere) {
					i++
					cs = append(cs, t.do(interfere[i-1]))
				}
			}
			done <- true
		}()
		inWindow = func() {
			kick <- true
			vrt.Quiesce()
		}
		cs = append(cs, t.do(victim))
		inWindow = nil
		close(kick)
		<-done
		return judge(t, s, cs)
	}
}

var inWindow func()

func main() {
	hl.Main("C02", func() (scs []hl.Scenario) {
		add := func(name string, b1, b2 int, body vrt.Body) {
			scs = append(scs, hl.Scenario{Name: name, Cfg: vrt.Config{Mode: vrt.Repo, Bound: b1}, Bound2: b2, Body: body})
		}
		W := func(f func(w *rm.W)) rm.W {
			var w rm.W
			f(&w)
			return w
		}
		inc := W(func(w *rm.W) { w.Before = 1 })
		all := []op{
			{"add-x", "add", "a", m("x"), rm.W{}},
			{"add-y", "add", "a", m("y"), rm.W{}},
			{"upd-y", "upd", "a", m("y"), rm.W{}},
			{"upd-0", "upd", "a", m(""), rm.W{}},
			{"put-x", "upd", "a", m("x"), W(func(w *rm.W) { w.Create = true })},
			{"inc", "upd", "a", m("-"), inc},
			{"putinc", "upd", "a", m("-"), W(func(w *rm.W) { w.Before = 1; w.Create = true })},
			{"mask", "upd", "a", &md{Name: "n", Product: &traits.Metadata_Product{Title: "t"}}, W(func(w *rm.W) { w.M = rm.MaskOf("product") })},
			{"cas-x", "upd", "a", m("y"), W(func(w *rm.W) { w.EV = m("x") })},
			{"cas-y", "upd", "a", m("x"), W(func(w *rm.W) { w.EV = m("y") })},
			{"chk-x", "upd", "a", m("y"), W(func(w *rm.W) { w.EC = 4 })},
			{"putchk", "upd", "a", m("y"), W(func(w *rm.W) { w.EC = 4; w.Create = true })},
			{"after", "upd", "a", m("x"), W(func(w *rm.W) { w.After = 1 })},
			{"reset", "upd", "a", m("r"), W(func(w *rm.W) { w.M = rm.MaskOf(); w.R = rm.MaskOf("name") })},
			{"put-b", "upd", "b", m("x"), W(func(w *rm.W) { w.Create = true })},
			{"addgen", "add", "", m("g"), W(func(w *rm.W) { w.Gen = true })},
			{"del", "del", "a", nil, rm.W{NoCB: true}},
			{"delmiss", "del", "a", nil, rm.W{NoCB: true, Missing: true}},
			{"delcas-x", "del", "a", nil, rm.W{NoCB: true, EV: m("x")}},
			{"delchk-x", "del", "a", nil, rm.W{NoCB: true, EC: 4}},
			{"get", "get", "a", nil, rm.W{}},
			{"list", "list", "", nil, rm.W{}},
		}
		by := map[string]op{}
		for _, o := range all {
			by[o.label] = o
		}
		pick := func(s string) (out []op) {
			for _, l := range strings.Fields(s) {
				o, ok := by[l]
				if !ok {
					panic(l)
				}
				out = append(out, o)
			}
			return
		}
		inits := [][]string{{}, {""}, {"x"}, {"y"}}
		// every pair of single calls, deep
		for _, in := range inits {
			for i, a := range all {
				for _, b := range all[i:] {
					add(fmt.Sprintf("pair/%q/%s|%s", in, a.label, b.label), 3, 6, run(false, in, [][]op{{a}, {b}}))
				}
			}
		}
		// every triple of single calls
		for _, in := range inits {
			if len(in) > 0 && in[0] == "y" {
				continue
			}
			for i, a := range all {
				for j := i; j < len(all); j++ {
					for _, c := range all[j:] {
						b := all[j]
						reads := 0
						for _, o := range []op{a, b, c} {
							if o.kind == "get" || o.kind == "list" {
								reads++
							}
						}
						if reads > 1 {
							continue
						}
						add(fmt.Sprintf("triple/%q/%s|%s|%s", in, a.label, b.label, c.label), 2, 3, run(false, in, [][]op{{a}, {b}, {c}}))
					}
				}
			}
		}
		// two calls each
		core := pick("add-x put-x upd-y putinc cas-x chk-x del delcas-x get")
		for _, in := range [][]string{{}, {"x"}} {
			for i := range core {
				for j := range core {
					for k := i; k < len(core); k++ {
						for l := range core {
							if k == i && l < j {
								continue
							}
							p := [][]op{{core[i], core[j]}, {core[k], core[l]}}
							add(fmt.Sprintf("two/%q/%s,%s|%s,%s", in, p[0][0].label, p[0][1].label, p[1][0].label, p[1][1].label), 2, 3, run(false, in, p))
						}
					}
				}
			}
		}
		// chosen longer ones
		for _, s := range []string{
			"inc inc|inc inc|inc", "putinc|putinc|putinc|putinc", "putinc|putinc|del|putinc", "add-x|add-y|del|add-x", "addgen|addgen|addgen|addgen",
			"add-x del|add-y del|get list", "cas-x|cas-x|cas-x|cas-x", "cas-x|cas-y|cas-x|get", "delcas-x|cas-x|cas-y|put-x", "delchk-x|upd-y|put-x|upd-y",
			"put-x del put-x|delcas-x|putinc", "upd-0|add-x|del add-y", "putchk|del put-x|delchk-x", "mask|after|inc|reset", "put-b|list|del|put-x", "list|add-x|put-b|get", "addgen list|addgen list|put-b",
		} {
			for _, in := range [][]string{{}, {"x"}, {""}} {
				var ps [][]op
				for _, p := range strings.Split(s, "|") {
					ps = append(ps, pick(p))
				}
				add(fmt.Sprintf("long/%q/%s", in, s), 2, 3, run(false, in, ps))
			}
		}
		// values
		val := func(o op) op {
			o.id, o.w.Create = "", false
			return o
		}
		var vals []op
		for _, o := range pick("upd-y upd-0 put-x inc mask cas-x cas-y chk-x after reset get") {
			vals = append(vals, val(o))
		}
		for _, in := range [][]string{{}, {""}, {"x"}} {
			for i, a := range vals {
				for j := i; j < len(vals); j++ {
					b := vals[j]
					add(fmt.Sprintf("vpair/%q/%s|%s", in, a.label, b.label), 2, 4, run(true, in, [][]op{{a}, {b}}))
					for _, c := range vals[j:] {
						add(fmt.Sprintf("vtriple/%q/%s|%s|%s", in, a.label, b.label, c.label), 1, 2, run(true, in, [][]op{{a}, {b}, {c}}))
						add(fmt.Sprintf("vtwo/%q/%s,%s|%s,%s", in, a.label, b.label, c.label, a.label), 1, 2, run(true, in, [][]op{{a, b}, {c, a}}))
					}
				}
			}
			for _, s := range []string{"inc|inc|inc|inc", "inc inc|inc inc|get get", "cas-x|cas-y|cas-x|cas-y", "mask|inc|after|reset"} {
				var ps [][]op
				for _, p := range strings.Split(s, "|") {
					var q []op
					for _, o := range pick(p) {
						q = append(q, val(o))
					}
					ps = append(ps, q)
				}
				add(fmt.Sprintf("vlong/%q/%s", in, s), 2, 3, run(true, in, ps))
			}
		}
		// interference forced into the windows of a call, up to seven times
		cb := func(o op) op {
			o.w.Window = func() {
				if inWindow != nil {
					inWindow()
				}
			}
			return o
		}
		victims := pick("upd-y put-x add-x putinc cas-x chk-x putchk inc mask after del delmiss delcas-x delchk-x")
		for _, in := range inits {
			for _, v := range victims {
				for _, s := range []string{"upd-y", "put-x", "add-y", "del", "del put-x", "upd-y put-x", "del add-x", "inc inc inc inc inc inc inc", "inc", "upd-y put-x upd-y put-x upd-y put-x upd-y", "del add-x del add-x del add-x", "reset put-x reset", "put-x upd-y", "put-x put-x upd-y", "put-x put-x put-x upd-y", "mask put-x del", "put-x mask mask upd-y", "put-x put-x put-x del", "after after after after after after"} {
					for n := 1; n <= len(strings.Fields(s)); n++ {
						add(fmt.Sprintf("window/%q/%s<%d %s", in, v.label, n, s), 1, 2, window(false, in, cb(v), pick(s)[:n]))
					}
				}
				if v.kind == "upd" {
					for _, s := range []string{"upd-y", "put-x", "inc", "mask", "upd-y put-x"} {
						var is []op
						for _, o := range pick(s) {
							is = append(is, val(o))
						}
						add(fmt.Sprintf("vwindow/%q/%s<%s", in, v.label, s), 1, 2, window(true, in, cb(val(v)), is))
					}
				}
			}
		}
		return
	})
}
