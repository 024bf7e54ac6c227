package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

// In a build with the race detector (for C11) the same calls are made by two goroutines at
// once, on one model or on two, while others read all events.

// use reads all of a message.
func use(m pm) {
	if !isNil(m) {
		proto.MarshalOptions{AllowPartial: true}.Marshal(m)
	}
}

func consume(st tm.Stream) {
	for {
		v, ok := st.Recv()
		if !ok {
			return
		}
		for _, m := range tm.Messages(v) {
			use(m)
		}
	}
}

// others subscribes consumers in every way.
func (w *world) others() {
	n := 0
	if w.model != nil {
		t := reflect.TypeOf(w.model)
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if !strings.HasPrefix(m.Name, "Pull") {
				continue
			}
			f := reflect.ValueOf(w.model).Method(i)
			for i, a := range w.sp.argLists(m, nil, true) {
				if i > 0 {
					break
				}
				go consume(tm.Of(f.Call(a.vals(&sub0{w: w}))[0]))
				if n++; n == 1 && !w.sp.big {
					go consume(tm.Of(f.Call(append(a.vals(&sub0{w: w}), reflect.ValueOf(resource.WithBackpressure(false))))[0]))
				}
			}
		}
	}
	for _, m := range w.methods {
		if m.Stream && !w.sp.big {
			for _, req := range w.sp.requests(m, true) {
				w.stream(m, req)
			}
		}
	}
}

// part is the world of one goroutine.
func (w *world) part(twin bool) *world {
	p := *w
	p.tracker = newTracker()
	p.lite = true
	for _, e := range w.list {
		p.list = append(p.list, e)
		p.byP[e.msg] = e
	}
	p.live = nil
	if twin {
		p.model, p.server = w.twin, w.twinSrv
	}
	return &p
}

func (w *world) act(o op, done chan bool) {
	old := len(w.list)
	mine := o.run(w)
	for _, e := range w.list[old:] {
		use(e.msg)
	}
	for _, m := range mine {
		vandalise(m.ProtoReflect())
	}
	done <- true
}

func (sp *spec) race(a, b op, twin bool) vrt.Body {
	return func() (string, string) {
		var w *world
		vrt.Quiet(func() { w = sp.newWorld() })
		defer w.cancel()
		w.racing, w.lite = true, true
		var pa, pb *world
		vrt.Quiet(func() {
			w.others()
			vrt.Quiesce()
			w.probe(w.model, "read")
			pa, pb = w.part(false), w.part(twin)
		})
		done := make(chan bool, 2)
		go pa.act(a, done)
		go pb.act(b, done)
		<-done
		<-done
		vrt.Quiesce()
		vrt.Quiet(w.cancel)
		return fmt.Sprint(len(pa.list)-len(w.list), len(pb.list)-len(w.list)), ""
	}
}

func races() (out []hl.Scenario) {
	cores := coreSpecs()
	for i, sp := range append(cores, specs()...) {
		sp := sp
		lim, lim2 := hl.Pick(15, 400), hl.Pick(3, 45)
		if i < len(cores) {
			lim = hl.Pick(36, 300)
		}
		all := sp.ops()
		ops := sp.with(all, func(n int) bool { return n*(n+1)/2 <= lim })
		for i, a := range ops {
			for j, b := range ops[i:] {
				if a.read && b.read && (j > 0 || sp.big) {
					continue
				}
				if !hl.Thorough() && len(ops) > 8 && j > 1 && j != len(ops)/2 {
					continue // every call with itself and its neighbours
				}
				out = append(out, hl.Scenario{Name: "one/" + sp.name + "/" + name(a) + " with " + name(b),
					Cfg: vrt.Config{Bound: 1, Mode: vrt.Repo}, Body: sp.race(a, b, false)})
			}
		}
		ops = sp.with(plain(all), func(n int) bool { return n*(n+1)/2 <= lim2 })
		for i, a := range ops {
			for j, b := range ops[i:] {
				if !hl.Thorough() && j > 1 {
					continue
				}
				out = append(out, hl.Scenario{Name: "two/" + sp.name + "/" + name(a) + " with " + name(b),
					Cfg: vrt.Config{Bound: 1, Mode: vrt.Repo}, Body: sp.race(a, b, true)})
			}
		}
	}
	return
}

func name(o op) string {
	return strings.NewReplacer("/", "_", "[", "(", "]", ")", "*", "x", "?", "-").Replace(o.label)
}

// with adds the calls that generate ids to a thinned choice.
func (sp *spec) with(ops []op, fits func(n int) bool) []op {
	out := thin(ops, fits)
	have := map[string]bool{}
	for _, o := range out {
		have[o.label] = true
	}
	for _, o := range ops {
		for _, l := range sp.always {
			if o.label == l && !have[l] {
				out = append(out, o)
			}
		}
	}
	return out
}
