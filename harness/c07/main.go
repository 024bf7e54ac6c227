// C07: messages are isolated from the store and from each other.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

func main() {
	if vrt.Race {
		hl.Main("C11", races)
		return
	}
	hl.Main("C07", func() []hl.Scenario {
		var out []hl.Scenario
		for _, sp := range append(coreSpecs(), specs()...) {
			sp := sp
			out = append(out,
				hl.Scenario{Name: "pairs/" + sp.name, Enum: sp.pairs, Shards: 8},
				hl.Scenario{Name: "triples/" + sp.name, Enum: sp.triples, Shards: 8},
				hl.Scenario{Name: "long/" + sp.name, Enum: sp.long, Shards: 2},
			)
		}
		return out
	})
}

// open subscribes in every way there is.
func (w *world) open() {
	if w.model != nil {
		t := reflect.TypeOf(w.model)
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if !strings.HasPrefix(m.Name, "Pull") {
				continue
			}
			for _, a := range w.sp.argLists(m, nil, true) {
				c := &sub0{w: w}
				f := reflect.ValueOf(w.model).Method(i)
				res := resourceOf(m.Type)
				if res == nil {
					res = w.sp.res
				}
				for _, p := range paths(res) {
					o := resource.WithReadMask(&fieldmaskpb.FieldMask{Paths: p})
					w.live = append(w.live, sub{where: m.Name + "(" + a.label + ", mask " + p[0] + ")",
						st: tm.Of(f.Call(append(a.vals(c), reflect.ValueOf(o)))[0])})
				}
				w.live = append(w.live, sub{where: m.Name + "(" + a.label + ")", st: tm.Of(f.Call(a.vals(c))[0])})
				w.slow = append(w.slow, sub{where: "a slow " + m.Name + "(" + a.label + ")",
					st: tm.Of(f.Call(append(a.vals(c), reflect.ValueOf(resource.WithBackpressure(false))))[0])})
			}
		}
	}
	for _, m := range w.methods {
		if m.Stream {
			for _, req := range w.sp.requests(m, true) {
				w.live = append(w.live, sub{where: m.Name + "(" + show(req) + ")", got: w.stream(m, req).got})
				if req := masked(m, req); req != nil {
					w.live = append(w.live, sub{where: m.Name + "(" + show(req) + ")", got: w.stream(m, req).got})
				}
			}
		}
	}
	vrt.Quiesce()
	w.drain(w.live)
	w.last = w.probe(w.model, "read")
	w.twinLast = w.probe(w.twin, "twin")
	w.check("subscribing and reading")
}

// step makes the call o and looks at everything again.
func (w *world) step(o op) string {
	n := len(w.list)
	mine := o.run(w)
	vrt.Quiesce()
	w.drain(w.live)
	w.check(o.label)
	now := w.probe(w.model, "read")
	hl.Step(1)
	if o.read && w.fail == "" {
		if d := differ(w.last, now); d != "" {
			w.fail = fmt.Sprintf("readonly: %s changed what is stored: %s", o.label, d)
		}
	}
	w.check("reading after " + o.label)
	if d := differ(w.twinLast, w.probe(w.twin, "twin")); d != "" && w.fail == "" {
		w.fail = fmt.Sprintf("twin: %s changed another model: %s", o.label, d)
	}
	w.last = now
	if len(mine) == 0 || w.fail != "" {
		return w.fail
	}
	for _, m := range mine {
		if e := w.byP[m]; e != nil {
			w.forget(m) // the caller gets its own message back
		}
		vandalise(m.ProtoReflect())
	}
	vrt.Quiesce()
	for i := n; i < len(w.list); i++ {
		// the result of the call may be made of the caller's own message
		if e := w.list[i]; e.kind == "result" && !proto.Equal(e.msg, e.copy) {
			w.forget(e.msg)
			i--
		}
	}
	then := "the caller of " + o.label + " changed its own message"
	w.drain(w.live)
	w.check(then)
	now = w.probe(w.model, "read")
	if d := differ(w.last, now); d != "" && w.fail == "" {
		w.fail = fmt.Sprintf("store: what is stored changed after %s: %s", then, d)
	}
	if d := differ(w.twinLast, w.probe(w.twin, "twin")); d != "" && w.fail == "" {
		w.fail = fmt.Sprintf("twin: another model changed after %s: %s", then, d)
	}
	return w.fail
}

func (sp *spec) play(ops ...op) func() (string, string) {
	return func() (string, string) {
		return hl.Single(func() (string, string) {
			w := sp.newWorld()
			defer w.close()
			w.open()
			for _, o := range ops {
				if f := w.step(o); f != "" {
					return "", f
				}
			}
			vrt.Quiesce()
			w.drain(w.slow)
			w.drain(w.live)
			w.check("everything")
			return w.outcome(), w.fail
		})
	}
}

func label(ops ...op) func() string {
	return func() string {
		var ls []string
		for _, o := range ops {
			ls = append(ls, o.label)
		}
		return strings.Join(ls, "; ")
	}
}

// plain are the calls without options.
func plain(ops []op) (out []op) {
	for _, o := range ops {
		skip := false
		for _, s := range []string{"mask", "reset ", "create)", "allow missing", "expect", "nothing", "updates", "lossy"} {
			if strings.Contains(o.label, s) {
				skip = true
			}
		}
		if !skip && !o.read {
			out = append(out, o)
		}
	}
	return
}

// method is the name of the call in a label.
func method(o op) string {
	if i := strings.IndexByte(o.label, '('); i >= 0 {
		return o.label[:i]
	}
	return o.label
}

// thin spreads a choice of ops evenly over the calls of each method: the largest one for which
// fits(len) holds, at least one call per method.
func thin(ops []op, fits func(n int) bool) []op {
	by := map[string][]op{}
	most := 0
	for _, o := range ops {
		m := method(o)
		by[m] = append(by[m], o)
		if len(by[m]) > most {
			most = len(by[m])
		}
	}
	for k := most; ; k-- {
		at := map[string]int{}
		var out []op
		for _, o := range ops {
			m := method(o)
			n := len(by[m])
			i := at[m]
			at[m]++
			// take k of the n, spread evenly, the first one always
			if n <= k || i*k/n != (i-1)*k/n || i == 0 {
				out = append(out, o)
			}
		}
		if k <= 1 || fits(len(out)) {
			return out
		}
	}
}

func (sp *spec) pairs(e *hl.E) {
	ops := sp.ops()
	lim := hl.Pick(4000, 60000)
	first := thin(ops, func(n int) bool { return n*len(ops) <= lim })
	if !hl.Thorough() {
		if p := plain(ops); len(p) > 0 {
			first = thin(p, func(n int) bool { return n*len(ops) <= lim })
		}
	}
	for _, a := range first {
		for _, b := range ops {
			if !e.Case(label(a, b), sp.play(a, b)) {
				return
			}
		}
	}
}

func (sp *spec) triples(e *hl.E) {
	ops := plain(sp.ops())
	lim := hl.Pick(2200, 40000)
	ops = thin(ops, func(n int) bool { return n*n*n <= lim })
	for _, a := range ops {
		for _, b := range ops {
			for _, c := range ops {
				if !e.Case(label(a, b, c), sp.play(a, b, c)) {
					return
				}
			}
		}
	}
}

// long has histories that repeat one or two calls.
func (sp *spec) long(e *hl.E) {
	var ops []op
	for _, o := range plain(sp.ops()) {
		if !strings.HasPrefix(o.label, "Merge") || !strings.Contains(o.label, "as read") { // merging what there is doubles it
			ops = append(ops, o)
		}
	}
	lim := hl.Pick(30, 600)
	ops = thin(ops, func(n int) bool { return n*n <= lim })
	for _, a := range ops {
		for _, b := range ops {
			var l []op
			for len(l) < hl.Pick(10, 24) {
				l = append(l, a, b)
			}
			if !e.Case(func() string { return fmt.Sprintf("%s (%d in turn)", label(a, b)(), len(l)) }, sp.play(l...)) {
				return
			}
		}
	}
}

// outcome counts the messages that were watched, and records the state reached.
func (w *world) outcome() string {
	var b strings.Builder
	for _, p := range w.last {
		b.WriteString(p.label + p.rest)
		for _, m := range p.msgs {
			b.WriteString(show(m))
		}
	}
	hl.State(w.sp.name + b.String())
	n := map[string]int{}
	for _, e := range w.list {
		n[e.kind]++
	}
	return fmt.Sprintf("read:%d result:%d event:%d", n["read"], n["result"], n["event"])
}
