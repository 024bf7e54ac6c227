package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/ts"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// The names the server is reachable under.
const devA, devB = "dev/a", "dev/b"

// world is one server behind wrapper, router and wrapper.
type world struct {
	reg     *register
	model   any
	clients map[string]any // by service: wrapper of a router of wrappers of the server
	cancels []func()
}

func (r *register) newWorld() *world {
	server, model := r.mk()
	w := &world{reg: r, model: model, clients: map[string]any{}}
	for _, sn := range r.services {
		s := svc(sn)
		rt := s.NewRouter()
		c := s.Wrap(server)
		s.Add(rt, devA, c)
		s.Add(rt, devB, c)
		w.clients[sn] = s.Wrap(rt)
	}
	return w
}

// close ends all streams, so that nothing of the world stays behind.
func (w *world) close() {
	for _, c := range w.cancels {
		c()
	}
	vrt.Quiesce()
}

func svc(n string) *ts.Service {
	pkg, name, _ := strings.Cut(n, ".")
	return ts.Find(pkg, name)
}

// method finds a method of the register's services.
func (r *register) method(name string) (*ts.Method, string) {
	for _, sn := range r.services {
		for _, m := range svc(sn).Methods() {
			if m.Name == name {
				return m, sn
			}
		}
	}
	panic(r.name + " has no method " + name)
}

func (w *world) call(method string, req proto.Message) (proto.Message, error) {
	m, sn := w.reg.method(method)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	res, err := m.Call(w.clients[sn], ctx, req)
	if err != nil {
		return nil, err
	}
	return res.(proto.Message), nil
}

func (r *register) request(method, name string, mask rm.Mask, updatesOnly bool) proto.Message {
	m, _ := r.method(method)
	req := m.In.New()
	set := func(f string, v any) {
		fd := req.Descriptor().Fields().ByName(protoreflect.Name(f))
		if fd == nil {
			panic(fmt.Sprintf("%s has no %s", req.Descriptor().FullName(), f))
		}
		req.Set(fd, protoreflect.ValueOf(v))
	}
	set("name", name)
	if r.keyField != "" && req.Descriptor().Fields().ByName(protoreflect.Name(r.keyField)) != nil {
		set(r.keyField, r.key)
	}
	if mask.Set {
		set("read_mask", (&fieldmaskpb.FieldMask{Paths: mask.Paths}).ProtoReflect())
	}
	if updatesOnly {
		set("updates_only", true)
	}
	if r.exclude != "" && req.Descriptor().Fields().ByName(protoreflect.Name(r.exclude)) != nil {
		set(r.exclude, true)
	}
	return req.Interface()
}

// view is the content of a register: one message for a single resource, by id for a collection.
type view map[string]proto.Message

func (v view) String() string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s{%s} ", k, text(v[k]))
	}
	return b.String()
}

func text(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	b, err := prototext.MarshalOptions{}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return strings.ReplaceAll(string(b), "  ", " ")
}

// short is text for labels.
func short(m proto.Message) string {
	t := text(m)
	if len(t) > 90 {
		h := fnv.New32()
		h.Write([]byte(t))
		t = fmt.Sprintf("%s... #%08x", t[:60], h.Sum32())
	}
	return t
}

func (v view) equal(o view) bool {
	if len(v) != len(o) {
		return false
	}
	for k, a := range v {
		if b, ok := o[k]; !ok || !proto.Equal(a, b) {
			return false
		}
	}
	return true
}

// changed lists ids whose message differs.
func changed(a, b view) (out []string) {
	for k, x := range a {
		if y, ok := b[k]; !ok || !proto.Equal(x, y) {
			out = append(out, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

// get reads the register.
func (w *world) get(name string, mask rm.Mask) (view, error) {
	r := w.reg
	req := r.request(r.get, name, mask, false)
	res, err := w.call(r.get, req)
	if err != nil {
		if r.keyField != "" && status.Code(err) == codes.NotFound {
			return view{}, nil
		}
		return nil, err
	}
	if r.id == nil {
		return view{"": res}, nil
	}
	v := view{}
	rf := res.ProtoReflect()
	fs := rf.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if f := fs.Get(i); f.IsList() && f.Message() == r.typ() {
			l := rf.Get(f).List()
			for j := 0; j < l.Len(); j++ {
				m := l.Get(j).Message().Interface()
				v[r.id(m)] = m
			}
		}
	}
	return v, nil
}

// project is what a reader with the mask sees of v.
func (r *register) project(v view, mask rm.Mask) view {
	if !mask.Set {
		return v
	}
	t := rm.MaskTree(mask.Paths)
	out := view{}
	for k, m := range v {
		if len(mask.Paths) == 0 {
			out[k] = m.ProtoReflect().New().Interface() // nothing is asked for
		} else if r.projectWith != nil {
			out[k] = r.projectWith(m, mask)
		} else {
			out[k] = rm.Project(m, t)
		}
	}
	return out
}

// seed is what an initial event carries of v.
func (r *register) seeded(v view) view {
	if r.seed == nil {
		return v
	}
	out := view{}
	for k, m := range v {
		m = proto.Clone(m)
		r.seed(m)
		out[k] = m
	}
	return out
}

// stream is an open Pull call with a reader that keeps up.
type stream struct {
	reg    *register
	name   string
	mask   rm.Mask
	uo     bool
	cancel context.CancelFunc

	msgs []proto.Message
	err  error
	done bool

	closed bool // the resource is gone, the stream ended
	used   int
	view   view
	base   view // the (projected) content at the last check
}

func (s stream) String() string {
	return fmt.Sprintf("pull(%s mask=%v updates_only=%v)", s.name, s.mask, s.uo)
}

func (w *world) open(name string, mask rm.Mask, uo bool) *stream {
	r := w.reg
	m, sn := r.method(r.pull)
	ctx, cancel := context.WithCancel(context.Background())
	w.cancels = append(w.cancels, cancel)
	s := &stream{reg: r, name: name, mask: mask, uo: uo, cancel: cancel, view: view{}}
	res, err := m.Call(w.clients[sn], ctx, r.request(r.pull, name, mask, uo))
	if err != nil {
		s.err, s.done = err, true
		return s
	}
	go func() {
		for {
			msg := m.Out.New().Interface()
			if err := res.(grpc.ClientStream).RecvMsg(msg); err != nil {
				s.err, s.done = err, true
				return
			}
			s.msgs = append(s.msgs, msg)
		}
	}()
	return s
}

// drain folds what arrived since last time into the view; it reports the ids it saw.
func (s *stream) drain() (seen map[string]int, fail string) {
	seen = map[string]int{}
	for ; s.used < len(s.msgs); s.used++ {
		rf := s.msgs[s.used].ProtoReflect()
		fd := rf.Descriptor().Fields().ByName("changes")
		l := rf.Get(fd).List()
		if l.Len() == 0 {
			return nil, "a Pull response without changes"
		}
		for i := 0; i < l.Len(); i++ {
			c := l.Get(i).Message()
			fs := c.Descriptor().Fields()
			if n := c.Get(fs.ByName("name")).String(); n != s.name {
				return nil, fmt.Sprintf("a change is named %q", n)
			}
			if s.reg.id == nil {
				for j := 0; j < fs.Len(); j++ {
					if f := fs.Get(j); f.Message() == s.reg.typ() {
						if !c.Has(f) {
							return nil, "a change without a value"
						}
						s.view[""] = c.Get(f).Message().Interface()
						seen[""]++
					}
				}
				continue
			}
			if o, n := fs.ByName("old_value"), fs.ByName("new_value"); c.Has(n) {
				m := c.Get(n).Message().Interface()
				s.view[s.reg.id(m)] = m
				seen[s.reg.id(m)]++
			} else if c.Has(o) {
				id := s.reg.id(c.Get(o).Message().Interface())
				delete(s.view, id)
				seen[id]++
			} else {
				return nil, "a change without values"
			}
		}
	}
	return seen, ""
}

// opened checks the initial events: what is there now unless updates-only.
func (s *stream) opened(now view) string {
	vrt.Quiesce()
	if s.done {
		return fmt.Sprintf("seed: %v ended at once: %v", s, s.err)
	}
	seen, fail := s.drain()
	if fail != "" {
		return fmt.Sprintf("seed: %v: %s", s, fail)
	}
	s.base = s.reg.project(now, s.mask)
	want := view{}
	if !s.uo {
		want = s.reg.seeded(s.base)
	}
	if !s.view.equal(want) && !(s.reg.withheld != nil && s.reg.withheld(now[""]) && len(s.view) == 0) {
		return fmt.Sprintf("seed: %v starts with %v, the register holds %v", s, s.view, s.base)
	}
	for id, n := range seen {
		if n > 1 {
			return fmt.Sprintf("seed: %v: %d initial changes for %q", s, n, id)
		}
	}
	return ""
}

// advanced checks the events since the last check against the register's content.
func (s *stream) advanced(now view, why func() string) string {
	if s.closed {
		return ""
	}
	seen, fail := s.drain()
	if fail != "" {
		return fmt.Sprintf("stream: %s: %v: %s", why(), s, fail)
	}
	after := s.reg.project(now, s.mask)
	if s.done {
		if s.reg.keyField != "" && len(after) == 0 {
			s.closed = true
			return ""
		}
		return fmt.Sprintf("stream: %s: %v ended: %v", why(), s, s.err)
	}
	if s.reg.withheld != nil && s.reg.withheld(now[""]) {
		return ""
	}
	for _, id := range changed(s.base, after) {
		if seen[id] == 0 {
			return fmt.Sprintf("missed: %s: %v saw nothing, the register went from {%v} to {%v}", why(), s, s.base, after)
		}
	}
	for id := range seen {
		got, ok := s.view[id]
		want, has := after[id]
		if ok != has || ok && !proto.Equal(got, want) {
			return fmt.Sprintf("event: %s: %v ends on {%s}, the register holds {%s}", why(), s, text(got), text(want))
		}
	}
	s.base = after
	return ""
}
