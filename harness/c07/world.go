package main

import (
	"context"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/internal/verif/ts"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// op is one call of the public API.
type op struct {
	label string
	read  bool // leaves the state as it is
	// run makes the call. It reports what it obtained and returns the messages that
	// belong to the caller, who may now change them.
	run func(w *world) []pm
}

// world is one model with its servers and a twin built the same way.
type world struct {
	sp            *spec
	model, server any
	methods       []*ts.Method // of the server
	twin, twinSrv any
	*tracker
	ctx      context.Context
	cancel   func()
	live     []sub // drained after every step
	slow     []sub // not read before the end
	racing   bool  // calls overlap
	last     []probe
	twinLast []probe
}

type sub struct {
	where string
	st    tm.Stream
	got   *[]pm // for server streams
	n     int
}

// spec describes how a model is made and what it is called with.
type spec struct {
	name   string
	mk     func() (model, server any)
	keys   map[string][]string // by method, "" for all others
	msgs   func() []pm         // messages to write, first is used most
	wopts  []wopt              // more write options
	more   []op
	always []string                       // calls that races always include
	big    bool                           // many records: few consumers
	res    protoreflect.MessageDescriptor // for methods that do not tell
}

type wopt struct {
	label string
	mk    func(t *sub0) []resource.WriteOption
}

// sub0 gives options access to the world of the call.
type sub0 struct {
	w    *world
	mine *[]pm // messages of the caller
	read bool  // the message written was read before
}

func (sp *spec) newWorld() *world {
	w := &world{sp: sp, tracker: newTracker()}
	w.model, w.server = sp.mk()
	w.twin, w.twinSrv = sp.mk()
	w.ctx, w.cancel = context.WithCancel(context.Background())
	w.methods = methods(w.server)
	return w
}

var methodsOf = map[reflect.Type][]*ts.Method{}

func methods(server any) (out []*ts.Method) {
	if server == nil {
		return nil
	}
	if ms, ok := methodsOf[reflect.TypeOf(server)]; ok {
		return ms
	}
	defer func() { methodsOf[reflect.TypeOf(server)] = out }()
	for _, s := range ts.Services() {
		if reflect.TypeOf(server).Implements(reflect.TypeOf(s.Desc.HandlerType).Elem()) {
			out = append(out, s.Methods()...)
		}
	}
	return out
}

func (w *world) close() {
	w.cancel()
	vrt.Quiesce()
}

// ---- model calls by reflection ----

var (
	tCtx   = reflect.TypeOf((*context.Context)(nil)).Elem()
	tMsg   = reflect.TypeOf((*proto.Message)(nil)).Elem()
	tWrite = reflect.TypeOf((*resource.WriteOption)(nil)).Elem()
	tRead  = reflect.TypeOf((*resource.ReadOption)(nil)).Elem()
	tErr   = reflect.TypeOf((*error)(nil)).Elem()
)

var writePrefixes = []string{"Update", "Create", "Delete", "Add", "Remove", "Set", "Change", "Merge", "Record", "Reset", "Generate", "Dispense"}
var readPrefixes = []string{"Get", "List", "Pull", "Find", "Has", "Modes", "ModeValues", "NormalMode", "ActiveMode", "Demand", "FanSpeed", "AvailableValues"}

func hasPrefix(n string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// harvest records every message in the result v of a call and returns them.
func (w *world) harvest(kind, where string, v reflect.Value) (out []pm) {
	switch {
	case !v.IsValid() || v.Type() == tErr:
	case v.Type().Implements(tMsg):
		if v.Kind() == reflect.Pointer && v.IsNil() || v.Kind() == reflect.Interface && v.IsNil() {
			return
		}
		m := v.Interface().(pm)
		w.see(kind, where, m)
		out = append(out, m)
	case v.Kind() == reflect.Slice && v.Type().Elem().Implements(tMsg):
		for i := 0; i < v.Len(); i++ {
			out = append(out, w.harvest(kind, fmt.Sprintf("%s[%d]", where, i), v.Index(i))...)
		}
	}
	return
}

// scalars of a result, for comparing reads.
func scalars(vs []reflect.Value) string {
	var b strings.Builder
	for _, v := range vs {
		switch v.Kind() {
		case reflect.Bool, reflect.Int, reflect.String:
			fmt.Fprint(&b, v.Interface(), " ")
		}
	}
	return b.String()
}

// ---- server calls ----

func (w *world) unary(m *ts.Method, req pm) (in, resp pm, err error) {
	out, err := m.Unary.Handler(w.server, context.Background(), func(v any) error {
		in = v.(pm)
		proto.Merge(in, req)
		return nil
	}, nil)
	if p, ok := out.(pm); ok && !isNil(p) {
		resp = p
	}
	return in, resp, err
}

type srvStream struct {
	use func(pm)
	ctx context.Context
	req pm
	in  pm
	got *[]pm
}

func (s *srvStream) SetHeader(metadata.MD) error  { return nil }
func (s *srvStream) SendHeader(metadata.MD) error { return nil }
func (s *srvStream) SetTrailer(metadata.MD)       {}
func (s *srvStream) Context() context.Context     { return s.ctx }
func (s *srvStream) SendMsg(m any) error {
	if s.use != nil {
		s.use(m.(pm))
		return nil
	}
	*s.got = append(*s.got, m.(pm))
	return nil
}
func (s *srvStream) RecvMsg(m any) error {
	if s.in != nil {
		return io.EOF
	}
	s.in = m.(pm)
	proto.Merge(s.in, s.req)
	return nil
}

func (w *world) stream(m *ts.Method, req pm) *srvStream {
	s := &srvStream{ctx: w.ctx, req: req, got: new([]pm)}
	if w.racing {
		s.use = use
	}
	go m.Str.Handler(w.server, s)
	return s
}

// drain takes everything the live subscriptions have.
func (w *world) drain(ss []sub) {
	for i := range ss {
		s := &ss[i]
		if s.got != nil {
			for ; s.n < len(*s.got); s.n++ {
				w.see("event", s.where, (*s.got)[s.n])
			}
			continue
		}
		for {
			v, ok, _ := s.st.Try()
			if !ok {
				break
			}
			s.n++
			ms := tm.Messages(v)
			var ks []string
			for k := range ms {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				w.see("event", s.where+"."+k, ms[k])
			}
			vrt.Quiesce()
		}
	}
}

// ---- probing the state ----

type probe struct {
	label string
	msgs  []pm // copies
	rest  string
}

// probe reads everything there is to read. Results are recorded too.
func (w *world) probe(model any, kind string) (out []probe) {
	v := reflect.ValueOf(model)
	if model != nil {
		for _, r := range w.sp.readCalls(v.Type()) {
			res := v.MethodByName(r.method).Call(r.args)
			p := probe{label: r.label, rest: scalars(res)}
			for _, x := range res {
				for _, m := range w.harvest(kind, r.label, x) {
					if !w.lite {
						p.msgs = append(p.msgs, proto.Clone(m))
					}
				}
			}
			out = append(out, p)
		}
	}
	if kind == "twin" {
		return
	}
	for _, m := range w.methods {
		if m.Unary == nil || !hasPrefix(m.Name, []string{"Get", "List", "Describe"}) {
			continue
		}
		for _, req := range w.sp.requests(m, true) {
			_, resp, err := w.unary(m, req)
			p := probe{}
			if !w.lite {
				p.label = m.Name + "(" + show(req) + ")"
			}
			if err != nil {
				p.rest = err.Error()
			} else if resp != nil {
				w.see(kind, p.label, resp)
				if !w.lite {
					p.msgs = append(p.msgs, proto.Clone(resp))
				}
			}
			out = append(out, p)
		}
	}
	return out
}

func differ(a, b []probe) string {
	for i := range a {
		if a[i].rest != b[i].rest || len(a[i].msgs) != len(b[i].msgs) {
			return fmt.Sprintf("%s: %d messages %s, then %d messages %s", a[i].label, len(a[i].msgs), a[i].rest, len(b[i].msgs), b[i].rest)
		}
		for j := range a[i].msgs {
			if !proto.Equal(a[i].msgs[j], b[i].msgs[j]) {
				return fmt.Sprintf("%s gave {%s}, then {%s}", a[i].label, show(a[i].msgs[j]), show(b[i].msgs[j]))
			}
		}
	}
	return ""
}

type readCall struct {
	label, method string
	args          []reflect.Value
}

// readCalls lists the plain reads of a model.
func (sp *spec) readCalls(t reflect.Type) (out []readCall) {
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if !hasPrefix(m.Name, readPrefixes) || strings.HasPrefix(m.Name, "Pull") {
			continue
		}
		for _, a := range sp.argLists(m, nil, true) {
			out = append(out, readCall{m.Name + "(" + a.label + ")", m.Name, a.vals(nil)})
		}
	}
	return
}

// field of a message descriptor that holds the resource.
func resourceType(d protoreflect.MessageDescriptor) protoreflect.MessageDescriptor {
	fs := d.Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.Message() == nil || f.IsMap() {
			continue
		}
		n := string(f.Message().FullName())
		if strings.HasPrefix(n, "google.protobuf.") || strings.HasPrefix(n, "smartcore.types.time.") {
			continue
		}
		if f.IsList() || strings.HasSuffix(string(d.Name()), "Request") || strings.HasSuffix(string(d.Name()), "Change") {
			return f.Message()
		}
	}
	return nil
}

func (w *world) method(name string) *ts.Method {
	for _, m := range w.methods {
		if m.Name == name {
			return m
		}
	}
	panic("no method " + name)
}
