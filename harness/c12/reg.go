package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/ts"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// ---- clients as the registry sees them ----

type stub struct{ id string }

// source is what a fallback or factory does.
type source int

const (
	absent  source = iota
	supply         // a client, new on each call
	none           // nil, nil
	fails          // nil and an error
	both           // a client and an error
	onlyA          // a client for "a" only
	adds           // registers another client under the name, then supplies one
	removes        // removes the name, then supplies a client
)

var sourceNames = []string{"-", "supplies", "none", "fails", "both", "onlyA", "adds", "removes"}

func (s source) String() string { return sourceNames[s] }

// maker creates clients with ids; lookup turns a client back into its id.
type maker interface {
	make(id string) any
	id(c any) string
}

type stubs struct{}

func (stubs) make(id string) any { return &stub{id} }
func (stubs) id(c any) string {
	if c == nil {
		return ""
	}
	return c.(*stub).id
}

type typed struct {
	s   *ts.Service
	w   *world
	ids map[any]string
}

func (t *typed) make(id string) any {
	c := t.s.NewClient(&child{t.w, id})
	t.ids[c] = id
	return c
}
func (t *typed) id(c any) string {
	if c == nil {
		return ""
	}
	return t.ids[c]
}

// ---- the reference ----

type ref struct {
	m        map[string]string
	log      []string
	asked    []string // calls of fallback and factory
	n        int
	fb, fac  source
	autoOnly bool
}

func change(name, old, new string, auto bool) string {
	return fmt.Sprintf("%s:%s->%s auto=%v", name, old, new, auto)
}

func (r *ref) add(n, c string) string {
	old := r.m[n]
	r.m[n] = c
	r.log = append(r.log, change(n, old, c, false))
	return old
}

func (r *ref) remove(n string) string {
	old, ok := r.m[n]
	if ok {
		delete(r.m, n)
		r.log = append(r.log, change(n, old, "", false))
	}
	return old
}

func (r *ref) ask(kind string, s source, n string) (string, bool) {
	if s == absent {
		return "", false
	}
	r.asked = append(r.asked, kind+n)
	id := fmt.Sprintf("%s%d", kind, len(r.asked))
	switch s {
	case supply:
		return id, true
	case onlyA:
		return id, n == "a"
	case adds:
		r.add(n, "other")
		return id, true
	case removes:
		r.remove(n)
		return id, true
	}
	return "", false
}

// get returns "" when there is no client.
func (r *ref) get(n string) string {
	if c, ok := r.m[n]; ok {
		return c
	}
	if c, ok := r.ask("fb", r.fb, n); ok {
		return c
	}
	if c, ok := r.ask("f", r.fac, n); ok {
		if c2, ok := r.m[n]; ok {
			return c2
		}
		r.m[n] = c
		r.log = append(r.log, change(n, "", c, true))
		return c
	}
	return ""
}

// ---- the real thing ----

type real struct {
	r     router.Router
	mk    maker
	log   []string
	asked []string
	mark  map[string]any
}

func (x *real) source(kind string, s source) router.Factory {
	return func(n string) (any, error) {
		x.asked = append(x.asked, kind+n)
		id := fmt.Sprintf("%s%d", kind, len(x.asked))
		vrt.Yield()
		switch s {
		case supply:
			return x.mk.make(id), nil
		case onlyA:
			if n == "a" {
				return x.mk.make(id), nil
			}
			return nil, nil
		case fails:
			return nil, errors.New("none here")
		case both:
			return x.mk.make(id), errors.New("broken")
		case adds:
			x.r.Add(n, x.mk.make("other"))
			return x.mk.make(id), nil
		case removes:
			x.r.Remove(n)
			return x.mk.make(id), nil
		}
		return nil, nil
	}
}

func (x *real) options(fb, fac source, factory func(router.Factory) router.Option) (opts []router.Option) {
	if fb != absent {
		opts = append(opts, router.WithFallback(x.source("fb", fb)))
	}
	if fac != absent {
		opts = append(opts, factory(x.source("f", fac)))
	}
	opts = append(opts, router.WithOnChange(func(c router.Change) {
		// the callback may use the router: no locks are held
		if x.r.Has(c.Name) {
			x.r.Get(c.Name)
		}
		x.log = append(x.log, change(c.Name, x.mk.id(c.Old), x.mk.id(c.New), c.Auto))
	}))
	return
}

func (x *real) get(n string) (string, string) {
	c, err := x.r.Get(n)
	if err != nil {
		if c != nil {
			return "", "get: Get returns a client and an error"
		}
		if status.Code(err) != codes.NotFound {
			return "", fmt.Sprintf("get: Get without a client gives %v, want NotFound", err)
		}
		return "", ""
	}
	if c == nil {
		return "", "get: Get returns neither a client nor an error"
	}
	return x.mk.id(c), ""
}

// opFn runs one registry operation on both and compares.
type regOp struct {
	name string
	run  func(x *real, r *ref) string
}

func regOps(names ...string) (out []regOp) {
	for _, n := range names {
		for _, c := range []string{"c1", "c2"} {
			if n != names[0] && c == "c2" {
				continue
			}
			out = append(out, regOp{"Add(" + n + "," + c + ")", func(x *real, r *ref) string {
				if x.mark[c] == nil {
					x.mark[c] = x.mk.make(c) // the same client each time
				}
				old := x.r.Add(n, x.mark[c])
				if got, want := x.mk.id(old), r.add(n, c); got != want {
					return fmt.Sprintf("add: Add(%s) returns %q, want %q", n, got, want)
				}
				return ""
			}})
		}
		out = append(out, regOp{"Remove(" + n + ")", func(x *real, r *ref) string {
			if got, want := x.mk.id(x.r.Remove(n)), r.remove(n); got != want {
				return fmt.Sprintf("remove: Remove(%s) returns %q, want %q", n, got, want)
			}
			return ""
		}})
		out = append(out, regOp{"Get(" + n + ")", func(x *real, r *ref) string {
			got, f := x.get(n)
			if f != "" {
				return f
			}
			if want := r.get(n); got != want {
				return fmt.Sprintf("get: Get(%s) gives %q, want %q", n, got, want)
			}
			return ""
		}})
	}
	return
}

func (x *real) compare(r *ref, names ...string) string {
	for _, n := range names {
		_, want := r.m[n]
		if got := x.r.Has(n); got != want {
			return fmt.Sprintf("has: Has(%s)=%v, want %v", n, got, want)
		}
	}
	if got, want := strings.Join(x.log, "; "), strings.Join(r.log, "; "); got != want {
		return fmt.Sprintf("changes: reported [%s], want [%s]", got, want)
	}
	if got, want := strings.Join(x.asked, "; "), strings.Join(r.asked, "; "); got != want {
		return fmt.Sprintf("asked: fallback and factory calls [%s], want [%s]", got, want)
	}
	return ""
}

// sequences enumerates every sequence of depth operations.
func sequences(ops []regOp, depth int, f func([]regOp) bool) bool {
	seq := make([]regOp, 0, depth)
	var rec func() bool
	rec = func() bool {
		if len(seq) == depth {
			return f(seq)
		}
		for _, o := range ops {
			seq = append(seq, o)
			ok := rec()
			seq = seq[:len(seq)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	return rec()
}

func showOps(seq []regOp) string {
	s := ""
	for _, o := range seq {
		s += " " + o.name
	}
	return s
}

// registry enumerates histories of the core router.
func registry(e *hl.E) {
	for fb := absent; fb <= removes; fb++ {
		for fac := absent; fac <= removes; fac++ {
			if !sequences(regOps("a", "b"), hl.Pick(5, 6), func(seq []regOp) bool {
				return e.Case(func() string { return fmt.Sprintf("fallback %v, factory %v:%s", fb, fac, showOps(seq)) }, func() (string, string) {
					x := &real{mk: stubs{}, mark: map[string]any{}}
					x.r = router.NewRouter(x.options(fb, fac, router.WithFactory)...)
					r := &ref{m: map[string]string{}, fb: fb, fac: fac}
					for _, o := range seq {
						if f := o.run(x, r); f != "" {
							return "", f
						}
						if f := x.compare(r, "a", "b", "c"); f != "" {
							return "", f
						}
						hl.Step(1)
					}
					hl.State(fmt.Sprint(fb, fac, r.m))
					return fmt.Sprint(r.m), ""
				})
			}) {
				return
			}
		}
	}
}

// manyNames has histories over many names: they are added, replaced, asked for and removed in turn.
func manyNames(e *hl.E) {
	type script struct {
		name string
		ops  func(i int, ops [][]regOp) []regOp // the operations on a name: add c1, add c2, remove, get
	}
	const add, set, rem, get = 0, 1, 2, 3
	each := func(k ...int) func(int, [][]regOp) []regOp {
		return func(i int, ops [][]regOp) (r []regOp) {
			for _, x := range k {
				r = append(r, ops[i][x])
			}
			return
		}
	}
	lag := func(by int, k ...int) func(int, [][]regOp) []regOp {
		return func(i int, ops [][]regOp) (r []regOp) {
			for j, x := range k {
				r = append(r, ops[(i+j*by)%len(ops)][x])
			}
			return
		}
	}
	phases := [][]script{
		{{"add", each(add)}, {"get", each(get)}, {"replace", each(set, get)}, {"remove", each(rem, get)}, {"get", each(get)}},
		{{"get", each(get)}, {"get", each(get)}, {"remove", each(rem)}, {"get", each(get)}},
		{{"add and remove", each(add, get, rem, get, add)}, {"remove", each(rem, rem)}, {"add", each(set, get)}},
		{{"add", each(add)}, {"mixed", lag(3, rem, get, set, get)}, {"mixed", lag(7, set, rem, get, rem)}, {"get", each(get)}},
	}
	for _, n := range hl.Pick([]int{4, 9, 17, 65}, []int{4, 8, 9, 16, 17, 33, 65, 130, 300}) {
		for fb := absent; fb <= removes; fb++ {
			for fac := absent; fac <= removes; fac++ {
				for pi, ph := range phases {
					for _, down := range []bool{false, true} {
						if !e.Case(func() string {
							return fmt.Sprintf("%d names, fallback %v, factory %v, history %d down=%v", n, fb, fac, pi, down)
						}, func() (string, string) {
							x := &real{mk: stubs{}, mark: map[string]any{}}
							x.r = router.NewRouter(x.options(fb, fac, router.WithFactory)...)
							r := &ref{m: map[string]string{}, fb: fb, fac: fac}
							var names []string
							var ops [][]regOp
							for i := 0; i < n; i++ {
								nm := fmt.Sprint("n", i)
								if i == n/2 {
									nm = "a"
								} else if i == n/3 {
									nm = ""
								}
								names = append(names, nm)
								ops = append(ops, regOps(nm))
							}
							if len(ops[0]) != 4 {
								panic("operations")
							}
							for _, sc := range ph {
								for i := 0; i < n; i++ {
									at := i
									if down {
										at = n - 1 - i
									}
									for _, o := range sc.ops(at, ops) {
										x.log, r.log, x.asked, r.asked = nil, nil, nil, nil
										if f := o.run(x, r); f != "" {
											return "", f
										}
										if f := x.compare(r, names[at], names[(at+1)%n], "other"); f != "" {
											return "", f
										}
										hl.Step(1)
									}
								}
								if f := x.compare(r, names...); f != "" {
									return "", f
								}
							}
							return fmt.Sprint(len(r.m)), ""
						}) {
							return
						}
					}
				}
			}
		}
	}
}

// typedRegistry enumerates histories of every generated router, through its typed
// methods and with a call following every operation.
func typedRegistry(e *hl.E) {
	for _, s := range ts.Services() {
		var m *ts.Method
		for _, c := range s.Methods() {
			if !c.Stream {
				m = c
			}
		}
		ops := typedOps(s, m)
		for _, fac := range []source{absent, supply, fails, none, adds} {
			for _, fb := range []source{absent, onlyA} {
				if !sequences(ops, hl.Pick(3, 4), func(seq []regOp) bool {
					return e.Case(func() string {
						return fmt.Sprintf("%s.%s fallback %v, factory %v:%s", s.Pkg, s.Name, fb, fac, showOps(seq))
					}, func() (string, string) {
						w := &world{}
						x := &real{mk: &typed{s, w, map[any]string{}}, mark: map[string]any{}}
						x.r = s.NewRouter(x.options(fb, fac, s.Factory)...)
						r := &ref{m: map[string]string{}, fb: fb, fac: fac}
						for _, o := range seq {
							if f := o.run(x, r); f != "" {
								return "", f
							}
							if f := x.compare(r, "a", "b", ""); f != "" {
								return "", f
							}
							hl.Step(1)
						}
						return fmt.Sprint(r.m), ""
					})
				}) {
					return
				}
			}
		}
		// clients of other types are refused
		other := &stub{"other"}
		if m == nil && len(s.Methods()) == 0 {
			continue // every client will do
		}
		if !e.Case(func() string { return s.Pkg + "." + s.Name + " wrong client" }, func() (string, string) {
			r := s.NewRouter()
			c := s.NewClient(&child{&world{}, "a"})
			if !r.HoldsType(c) || r.HoldsType(other) || r.HoldsType(nil) {
				return "", "type: HoldsType is wrong"
			}
			panicked := func(c any) (p bool) {
				defer func() { p = recover() != nil }()
				r.Add("a", c)
				return
			}
			if !panicked(other) || r.Has("a") {
				return "", "type: Add of a wrong client is not refused"
			}
			r.Add("a", c)
			if !panicked(other) {
				return "", "type: Add of a wrong client is not refused"
			}
			if got, err := r.Get("a"); got != c || err != nil {
				return "", "type: Add of a wrong client changes the router"
			}
			return "ok", ""
		}) {
			return
		}
	}
}

func typedOps(s *ts.Service, m *ts.Method) (out []regOp) {
	for _, n := range []string{"a", "b"} {
		for _, c := range []string{"c1", "c2"} {
			if n == "b" && c == "c2" {
				continue
			}
			out = append(out, regOp{"Add(" + n + "," + c + ")", func(x *real, r *ref) string {
				if x.mark[c] == nil {
					x.mark[c] = x.mk.make(c)
				}
				if got, want := x.mk.id(s.Add(x.r.(ts.Router), n, x.mark[c])), r.add(n, c); got != want {
					return fmt.Sprintf("add: Add%sClient(%s) returns %q, want %q", s.Name, n, got, want)
				}
				return ""
			}})
		}
		out = append(out, regOp{"Remove(" + n + ")", func(x *real, r *ref) string {
			if got, want := x.mk.id(s.Remove(x.r.(ts.Router), n)), r.remove(n); got != want {
				return fmt.Sprintf("remove: Remove%sClient(%s) returns %q, want %q", s.Name, n, got, want)
			}
			return ""
		}}, regOp{"Get(" + n + ")", func(x *real, r *ref) string {
			c, err := s.Get(x.r.(ts.Router), n)
			want := r.get(n)
			if (err != nil) != (c == nil) || err != nil && status.Code(err) != codes.NotFound {
				return fmt.Sprintf("get: Get%sClient(%s) gives %v, %v", s.Name, n, c, err)
			}
			if x.mk.id(c) != want {
				return fmt.Sprintf("get: Get%sClient(%s) gives %q, want %q", s.Name, n, x.mk.id(c), want)
			}
			return ""
		}})
		if m != nil {
			out = append(out, regOp{m.Name + "(" + n + ")", func(x *real, r *ref) string {
				w := x.mk.(*typed).w
				w.calls, w.script = nil, &script{msgs: []proto.Message{ts.Full(m.Out, 1)}}
				_, err := unary(m, x.r.(ts.Router), context.Background(), ts.Named(ts.Full(m.In, 1), n))
				want := r.get(n)
				if want == "" {
					if status.Code(err) != codes.NotFound || len(w.calls) > 0 {
						return fmt.Sprintf("call: %s(%s) without a client gives %v and reaches%s", m.Name, n, err, showCalls(w))
					}
					return ""
				}
				if err != nil || len(w.calls) != 1 || w.calls[0].client != want {
					return fmt.Sprintf("call: %s(%s) gives %v and reaches%s, want %s", m.Name, n, err, showCalls(w), want)
				}
				return ""
			}})
		}
	}
	return
}

// ---- concurrent use ----

type cop struct {
	kind, name, client string
	start, end         int
	ret                string
	made               string // the client this Get's factory made
	fbMade             string
}

func (o *cop) String() string {
	return fmt.Sprintf("%s(%s%s)=%s [%d,%d]", o.kind, o.name, o.client, o.ret, o.start, o.end)
}

type cstate struct {
	m   map[string]string
	log []string
}

// step applies o atomically; it reports whether the result o saw is the one expected.
func (s *cstate) step(o *cop, fb, fac source) (ret string) {
	old, ok := s.m[o.name]
	switch o.kind {
	case "Add":
		s.m[o.name] = o.client
		s.log = append(s.log, change(o.name, old, o.client, false))
		return old
	case "Remove":
		if ok {
			delete(s.m, o.name)
			s.log = append(s.log, change(o.name, old, "", false))
		}
		return old
	case "Has":
		return fmt.Sprint(ok)
	}
	switch {
	case ok:
		return old
	case fb == supply:
		return o.fbMade
	case fac == supply:
		if o.made == "" {
			return "?"
		}
		s.m[o.name] = o.made
		s.log = append(s.log, change(o.name, "", o.made, true))
		return o.made
	}
	return ""
}

// linear reports whether some order of the operations that respects real time
// explains every result, the final contents and the reported changes.
func linear(ops []*cop, init map[string]string, final map[string]string, log []string, fb, fac source) bool {
	sort.Strings(log)
	want := strings.Join(log, ";")
	used := make([]bool, len(ops))
	var rec func(s *cstate, n int) bool
	rec = func(s *cstate, n int) bool {
		if n == len(ops) {
			if fmt.Sprint(s.m) != fmt.Sprint(final) {
				return false
			}
			l := append([]string(nil), s.log...)
			sort.Strings(l)
			return strings.Join(l, ";") == want
		}
	next:
		for i, o := range ops {
			if used[i] {
				continue
			}
			for j, p := range ops {
				if !used[j] && p.end < o.start {
					continue next
				}
			}
			t := &cstate{m: map[string]string{}, log: append([]string(nil), s.log...)}
			for k, v := range s.m {
				t.m[k] = v
			}
			if t.step(o, fb, fac) != o.ret {
				continue
			}
			used[i] = true
			ok := rec(t, n+1)
			used[i] = false
			if ok {
				return true
			}
		}
		return false
	}
	s := &cstate{m: map[string]string{}}
	for k, v := range init {
		s.m[k] = v
	}
	return rec(s, 0)
}

type copSpec struct{ kind, name, client string }

func concurrent(name string, init bool, fb, fac source, prog [][]copSpec, bound, bound2 int) hl.Scenario {
	return hl.Scenario{Name: name, Cfg: vrt.Config{Mode: vrt.Repo | vrt.Harness, Bound: bound}, Bound2: bound2, Body: func() (string, string) {
		clock, made := 0, 0
		tick := func() int { clock++; return clock }
		var log []string
		cur := map[int]*cop{}
		gid := func() int { return int(vrt.Gid()) }
		mk := func(kind string) router.Factory {
			return func(n string) (any, error) {
				made++
				id := fmt.Sprintf("%s%d", kind, made)
				o := cur[gid()]
				if kind == "f" {
					o.made = id
				} else {
					o.fbMade = id
				}
				vrt.Yield()
				return &stub{id}, nil
			}
		}
		opts := []router.Option{router.WithOnChange(func(c router.Change) {
			vrt.Yield()
			log = append(log, change(c.Name, stubs{}.id(c.Old), stubs{}.id(c.New), c.Auto))
		})}
		if fb == supply {
			opts = append(opts, router.WithFallback(mk("fb")))
		}
		if fac == supply {
			opts = append(opts, router.WithFactory(mk("f")))
		}
		r := router.NewRouter(opts...)
		start := map[string]string{}
		if init {
			r.Add("a", &stub{"c0"})
			start["a"] = "c0"
			log = nil
		}
		var all []*cop
		bad := ""
		for _, p := range prog {
			go func() {
				for _, sp := range p {
					o := &cop{kind: sp.kind, name: sp.name, client: sp.client, end: 1 << 30}
					all = append(all, o)
					cur[gid()] = o
					vrt.Yield()
					o.start = tick()
					switch o.kind {
					case "Add":
						o.ret = stubs{}.id(r.Add(o.name, &stub{o.client}))
					case "Remove":
						o.ret = stubs{}.id(r.Remove(o.name))
					case "Has":
						o.ret = fmt.Sprint(r.Has(o.name))
					case "Get":
						c, err := r.Get(o.name)
						if err != nil && (c != nil || status.Code(err) != codes.NotFound) || err == nil && c == nil {
							bad = fmt.Sprintf("get: Get gives %v, %v", c, err)
						}
						o.ret = stubs{}.id(c)
					}
					o.end = tick()
				}
			}()
		}
		vrt.Quiesce()
		if bad != "" {
			return "", bad
		}
		final := map[string]string{}
		out := ""
		for _, n := range []string{"a", "b"} {
			if r.Has(n) {
				c, err := r.Get(n)
				if err != nil {
					return "", fmt.Sprintf("get: Has(%s) but Get gives %v", n, err)
				}
				final[n] = stubs{}.id(c)
			}
		}
		for _, o := range all {
			if o.end == 1<<30 {
				return "", fmt.Sprintf("stuck: %v does not return", o)
			}
			out += " " + o.kind + o.name + o.ret
		}
		if !linear(all, start, final, log, fb, fac) {
			return "", fmt.Sprintf("linearizability: no order of %v from %v explains the final %v with changes %v", all, start, final, log)
		}
		return out + fmt.Sprint(final), ""
	}}
}

func concurrents() (out []hl.Scenario) {
	alphabet := []copSpec{{"Get", "a", ""}, {"Add", "a", "c1"}, {"Remove", "a", ""}, {"Has", "a", ""}, {"Get", "b", ""}, {"Add", "b", "c2"}}
	label := func(p [][]copSpec) string {
		var s []string
		for _, t := range p {
			w := ""
			for _, o := range t {
				w += o.kind + o.name
			}
			s = append(s, w)
		}
		return strings.Join(s, "|")
	}
	confs := []struct {
		name    string
		fb, fac source
	}{{"none", absent, absent}, {"factory", absent, supply}, {"fallback", supply, absent}, {"both", supply, supply}}
	for _, c := range confs {
		for _, init := range []bool{false, true} {
			add := func(p [][]copSpec, b, b2 int) {
				n := fmt.Sprintf("conc/%s/%v/%s", c.name, init, label(p))
				out = append(out, concurrent(n, init, c.fb, c.fac, p, b, b2))
			}
			for i, x := range alphabet {
				for _, y := range alphabet[i:] {
					y2 := y
					if y.kind == "Add" {
						y2.client += "'"
					}
					add([][]copSpec{{x}, {y2}}, 4, 6)
				}
			}
			for i, x := range alphabet[:4] {
				for j, y := range alphabet[i:4] {
					for _, z := range alphabet[i+j : 4] {
						if x.kind == "Has" {
							continue
						}
						y2, z2 := y, z
						y2.client += "'"
						z2.client += "''"
						add([][]copSpec{{x}, {y2}, {z2}}, 2, 3)
					}
				}
			}
			get, rem := alphabet[0], alphabet[2]
			c1, c2 := alphabet[1], copSpec{"Add", "a", "c2"}
			for _, p := range [][][]copSpec{
				{{get, get}, {get, rem}}, {{get, rem}, {get, rem}}, {{c1, rem}, {get, get}}, {{get, c1}, {get, c2}}, {{c1, rem}, {c2, rem}},
				{{rem, get}, {c1, get}}, {{rem, c1}, {get, get}}, {{get}, {get}, {get}, {rem}},
			} {
				add(p, 2, 3)
			}
		}
	}
	return
}
