package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"google.golang.org/protobuf/proto"
)

type set = map[string]bool

type pop struct {
	kind  string // add, remove, child, delete
	name  string
	names []trait.Name
}

func (o pop) String() string { return fmt.Sprintf("%s(%s,%v)", o.kind, o.name, o.names) }

type pref map[string]set

func (r pref) clone() pref {
	n := pref{}
	for k, v := range r {
		s := set{}
		for t := range v {
			s[t] = true
		}
		n[k] = s
	}
	return n
}

func (r pref) String() string {
	var ks []string
	for k, v := range r {
		ks = append(ks, k+"["+strings.Join(sortedSet(v), " ")+"]")
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func sortedSet(s set) []string {
	r := []string{}
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// apply returns the next state, whether the child exists after, and created.
func (r pref) apply(o pop) (n pref, exists, created bool) {
	n = r.clone()
	c, ok := n[o.name]
	switch o.kind {
	case "add", "child":
		if !ok {
			c = set{}
			n[o.name] = c
			created = true
		} else if o.kind == "child" {
			return n, true, false
		}
		for _, t := range o.names {
			c[string(t)] = true
		}
		return n, true, created
	case "remove":
		for _, t := range o.names {
			delete(c, string(t))
		}
		return n, ok, false
	case "delete":
		delete(n, o.name)
		return n, false, false
	}
	panic(o.kind)
}

func childStr(c *traits.Child) string {
	var s []string
	for _, t := range c.GetTraits() {
		s = append(s, t.GetName())
	}
	return c.GetName() + "[" + strings.Join(s, " ") + "]"
}

func toTraits(names []trait.Name) (ts []*traits.Trait) {
	for _, n := range names {
		ts = append(ts, &traits.Trait{Name: string(n)})
	}
	return
}

// doParent performs o. out is the returned child.
func doParent(m *parentpb.Model, o pop) (out *traits.Child, created bool, err error) {
	switch o.kind {
	case "add":
		out, created = m.AddChildTrait(o.name, o.names...)
	case "remove":
		out = m.RemoveChildTrait(o.name, o.names...)
	case "child":
		m.AddChild(&traits.Child{Name: o.name, Traits: toTraits(o.names)})
	case "delete":
		out, err = m.RemoveChildByName(o.name)
	}
	return
}

func listChildren(m *parentpb.Model) string {
	var s []string
	for _, c := range m.ListChildren() {
		s = append(s, childStr(c))
	}
	return strings.Join(s, " ")
}

func parentSeq(init pref, ops []pop) (string, string) {
	var opts []resource.Option
	for _, k := range sortedSet(keys(init)) {
		var ns []trait.Name
		for _, t := range sortedSet(init[k]) {
			ns = append(ns, trait.Name(t))
		}
		opts = append(opts, parentpb.WithInitialChildren(&traits.Child{Name: k, Traits: toTraits(ns)}))
	}
	m := parentpb.NewModel(opts...)
	r := init.clone()
	if got := listChildren(m); got != r.String() {
		return "", fmt.Sprintf("parent-initial: %s, want %s", got, r)
	}
	type kept struct {
		m    *traits.Child
		copy proto.Message
	}
	var held []kept
	for i, o := range ops {
		n, exists, created := r.apply(o)
		out, c, _ := doParent(m, o)
		hl.Step(1)
		if o.kind == "add" || o.kind == "remove" {
			if (out != nil) != exists || out != nil && childStr(out) != o.name+"["+strings.Join(sortedSet(n[o.name]), " ")+"]" {
				return "", fmt.Sprintf("parent-result: step %d %v returned %s, want %v of %s", i, o, childStr(out), sortedSet(n[o.name]), n)
			}
			if c != created {
				return "", fmt.Sprintf("parent-created: step %d %v reports created=%v, want %v", i, o, c, created)
			}
		}
		if got := listChildren(m); got != n.String() {
			return "", fmt.Sprintf("parent-state: after step %d %v the children are %s, want %s", i, o, got, n)
		}
		if out != nil {
			held = append(held, kept{out, proto.Clone(out)})
		}
		r = n
	}
	for _, h := range held {
		if !proto.Equal(h.m, h.copy) {
			return "", fmt.Sprintf("parent-alias: a returned child %v became %v", h.copy, h.m)
		}
	}
	return r.String(), ""
}

func keys(r pref) set {
	s := set{}
	for k := range r {
		s[k] = true
	}
	return s
}

func parentRace(init pref, ops [][]pop) vrt.Body {
	return func() (string, string) {
		m := parentpb.NewModel()
		r := init.clone()
		for k, v := range init {
			for _, t := range sortedSet(v) {
				m.AddChildTrait(k, trait.Name(t))
			}
		}
		pan := make([]any, len(ops))
		var fs []func()
		for i, p := range ops {
			fs = append(fs, func() {
				defer func() { pan[i] = recover() }()
				for _, o := range p {
					doParent(m, o)
				}
			})
		}
		par(fs...)
		for i, p := range pan {
			if p != nil {
				return "", fmt.Sprintf("parent-panic: %v panicked: %v", ops[i], p)
			}
		}
		got := listChildren(m)
		// some order of the calls explains the result
		var search func(r pref, at []int) bool
		search = func(r pref, at []int) bool {
			done := true
			for i, p := range ops {
				if at[i] < len(p) {
					done = false
					n, _, _ := r.apply(p[at[i]])
					next := append([]int{}, at...)
					next[i]++
					if search(n, next) {
						return true
					}
				}
			}
			return done && r.String() == got
		}
		if !search(r, make([]int, len(ops))) {
			return got, fmt.Sprintf("parent-lost: %v from %s ended as %s", ops, init, got)
		}
		return got, ""
	}
}

func parent(s *scenarios) {
	tn := []trait.Name{"a", "b", "c", "d"}
	var lists [][]trait.Name
	for n := 0; n <= 2; n++ {
		words(3, n, func(w []int) bool { lists = append(lists, pick(tn, w)); return true })
	}
	lists = append(lists, []trait.Name{"c", "b", "a"}, []trait.Name{"d", "a", "d"}, []trait.Name{"b", "c", "b", "a"}, []trait.Name{"d"})
	var ops []pop
	for _, l := range lists {
		ops = append(ops, pop{"add", "x", l}, pop{"remove", "x", l})
	}
	ops = append(ops, pop{"child", "x", nil}, pop{"child", "x", []trait.Name{"a", "c"}}, pop{"delete", "x", nil}, pop{"add", "y", []trait.Name{"a"}}, pop{"remove", "y", []trait.Name{"b"}})
	inits := []pref{{}, {"x": set{"b": true}}, {"x": set{"a": true, "b": true, "c": true}, "y": set{}}}
	for ii, in := range inits {
		s.enum(fmt.Sprintf("parent/seq/%d", ii), 4, func(e *hl.E) {
			words(len(ops), hl.Pick(3, 4), func(w []int) bool {
				p := pick(ops, w)
				return e.Case(func() string { return fmt.Sprintf("%s: %v", in, p) }, func() (string, string) { return parentSeq(in, p) })
			})
		})
	}
	s.enum("parent/subsets", 4, func(e *hl.E) {
		tn := append(tn, "e")
		for bits := 0; bits < 32; bits++ {
			in := pref{"x": set{}}
			for i, t := range tn {
				if bits>>i&1 == 1 {
					in["x"][string(t)] = true
				}
			}
			for n := 0; n <= hl.Pick(3, 4); n++ {
				words(5, n, func(w []int) bool {
					l := pick(tn, w)
					for _, k := range []string{"add", "remove"} {
						p := []pop{{k, "x", l}}
						if !e.Case(func() string { return fmt.Sprintf("%s: %v", in, p) }, func() (string, string) { return parentSeq(in, p) }) {
							return false
						}
					}
					return true
				})
			}
		}
	})
	races := []pop{{"add", "x", []trait.Name{"a", "c"}}, {"add", "x", []trait.Name{"b"}}, {"remove", "x", []trait.Name{"a"}}, {"delete", "x", nil}, {"child", "x", []trait.Name{"d"}}}
	for ii, in := range []pref{{}, {"x": set{"a": true, "b": true}}} {
		for i, p := range races {
			for j, q := range races[:i+1] {
				s.conc(fmt.Sprintf("parent/race/%d/%d-%d", ii, i, j), 2, 4, parentRace(in, [][]pop{{p}, {q}}))
				for k, t := range races[:j+1] {
					s.conc(fmt.Sprintf("parent/race/%d/%d-%d-%d", ii, i, j, k), 1, 2, parentRace(in, [][]pop{{p}, {q}, {t}}))
				}
			}
		}
	}
}
