// C03: a subscriber's folded view converges to the store's state.
package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

type md = traits.Metadata

func m(name, title string) *md {
	return &md{Name: name, Appearance: &traits.Metadata_Appearance{Title: title}}
}

type conf struct {
	upd, bp, equiv bool
	mask           rm.Mask
	byID           bool
}

func (c conf) String() string {
	s := "Pull"
	if c.byID {
		s = "PullID"
	}
	return fmt.Sprintf("%s,updatesOnly=%v,backpressure=%v,equiv=%v,mask=%v", s, c.upd, c.bp, c.equiv, c.mask)
}

func (c conf) opts() []resource.ReadOption {
	o := []resource.ReadOption{resource.WithBackpressure(c.bp), resource.WithUpdatesOnly(c.upd)}
	if c.mask.Set {
		o = append(o, resource.WithReadMask(c.mask.PB()))
	}
	return o
}

func (c conf) read() []resource.ReadOption {
	if c.mask.Set {
		return []resource.ReadOption{resource.WithReadMask(c.mask.PB())}
	}
	return nil
}

// op is a write on the collection.
type op struct {
	id   string
	msg  *md
	kind string // up, upd, add, del, inc
}

func (o op) String() string {
	if o.kind == "del" {
		return "del " + o.id
	}
	return o.kind + " " + o.id + "=" + o.msg.GetName()
}

func (o op) do(c *resource.Collection) error {
	var err error
	switch o.kind {
	case "up":
		_, err = c.Update(o.id, proto.Clone(o.msg), resource.WithCreateIfAbsent())
	case "upd":
		_, err = c.Update(o.id, proto.Clone(o.msg))
	case "add":
		_, err = c.Add(o.id, proto.Clone(o.msg))
	case "del":
		_, err = c.Delete(o.id)
	}
	return err
}

type tally struct {
	started map[string]int // writes begun, per id
	after   map[string]int // successful writes begun after Pull returned, per id
	opened  bool
	dels    int
}

func (t *tally) write(id string, del bool, f func() error) {
	after := t.opened
	err := f()
	if err == nil {
		if after {
			t.after[id]++
		}
		if del {
			t.dels++
		}
	}
}

func collection(c conf, w [][]op, pre int) vrt.Body {
	return func() (string, string) {
		var ropts []resource.Option
		if c.equiv {
			ropts = append(ropts, resource.WithNoDuplicates())
		}
		if pre > 0 {
			ropts = append(ropts, resource.WithInitialRecord("a", m("p", "a")))
		}
		col := resource.NewCollection(ropts...)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		t := &tally{after: map[string]int{}}
		done := make(chan bool, len(w)+1)
		for _, ops := range w {
			go func() {
				for _, o := range ops {
					t.write(o.id, o.kind == "del", func() error { return o.do(col) })
				}
				done <- true
			}()
		}
		var sink *rm.Sink
		base := rm.View{}
		go func() {
			if c.byID {
				ch := col.PullID(ctx, "a", c.opts()...)
				t.opened = true
				sink = rm.CollectV(ch)
			} else {
				ch := col.Pull(ctx, c.opts()...)
				t.opened = true
				sink = rm.Collect(ch)
			}
			done <- true
		}()
		for i := 0; i <= len(w); i++ {
			<-done
		}
		vrt.Quiesce()
		final := rm.View{}
		for _, id := range []string{"a", "b"} {
			if x, ok := col.Get(id, c.read()...); ok {
				final[id] = x
			}
		}
		if l := col.List(c.read()...); len(l) != len(final) {
			return "", fmt.Sprintf("list: List has %d items, Get finds %d", len(l), len(final))
		}
		got := rm.Evs(sink.Evs)
		if c.byID {
			return got, idCheck(c, t, sink, final, col)
		}
		v := base
		touched := map[string]bool{}
		for i, e := range sink.Evs {
			if c.upd && e.Seed {
				return got, fmt.Sprintf("seed: updates-only subscription received %v", e)
			}
			first := !touched[e.ID]
			touched[e.ID] = true
			if c.upd && first {
				// the view starts from whatever the subscriber holds: the first event's old value
				if e.Old != nil {
					v[e.ID] = e.Old
				}
			}
			if d := v.Apply(e); d != "" && !c.equiv {
				return got, fmt.Sprintf("event does not fit: %s (event %d of %v)", d, i, got)
			}
		}
		if !c.upd {
			if !v.Equal(final) {
				return got, fmt.Sprintf("fold: view %v, store %v, received %v", v, final, got)
			}
			return got, ""
		}
		for _, id := range []string{"a", "b"} {
			if !touched[id] {
				_, exists := final[id]
				// without backpressure an add followed by a remove may cancel out
				if t.after[id] > 0 && !c.equiv && (c.bp || exists) {
					return got, fmt.Sprintf("missed: %d writes of %q began after Pull returned, no event was received (%v)", t.after[id], id, got)
				}
				continue
			}
			a, okA := v[id]
			b, okB := final[id]
			if okA != okB || okA && !proto.Equal(a, b) {
				return got, fmt.Sprintf("fold: view %v, store %v, received %v", v, final, got)
			}
		}
		return got, ""
	}
}

// idCheck judges a PullID stream.
func idCheck(c conf, t *tally, s *rm.Sink, final rm.View, col *resource.Collection) string {
	got := rm.Evs(s.Evs)
	for i, e := range s.Evs {
		if e.Seed && (i > 0 || c.upd) {
			return fmt.Sprintf("seed: %v", got)
		}
		if e.New == nil {
			return fmt.Sprintf("event does not fit: value change without value: %v", got)
		}
		if c.equiv && i > 0 && proto.Equal(e.New, s.Evs[i-1].New) {
			return fmt.Sprintf("duplicate: %v", got)
		}
	}
	if s.Closed {
		if t.dels == 0 {
			return fmt.Sprintf("ended: the stream ended but nothing was removed (%v)", got)
		}
		return ""
	}
	x, ok := final["a"]
	if len(s.Evs) == 0 {
		if c.upd {
			if t.after["a"] > 0 && !c.equiv && (c.bp || ok) {
				return fmt.Sprintf("missed: writes began after PullID returned, nothing was received")
			}
			return ""
		}
		if ok {
			return fmt.Sprintf("fold: nothing received, store has %v", rm.Text(x))
		}
		return ""
	}
	last := s.Evs[len(s.Evs)-1].New
	if !ok || !proto.Equal(x, last) {
		return fmt.Sprintf("fold: last event %v, store %v (%v)", rm.Text(last), final, got)
	}
	return ""
}

// ---- values

func value(c conf, w [][]*md, init bool) vrt.Body {
	return func() (string, string) {
		var ropts []resource.Option
		if c.equiv {
			ropts = append(ropts, resource.WithNoDuplicates())
		}
		if init {
			ropts = append(ropts, resource.WithInitialValue(m("p", "a")))
		}
		val := resource.NewValue(ropts...)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		t := &tally{after: map[string]int{}}
		done := make(chan bool, len(w)+1)
		var hist []proto.Message
		for _, msgs := range w {
			go func() {
				for _, x := range msgs {
					t.write("", false, func() error {
						r, err := val.Set(proto.Clone(x), resource.InterceptAfter(func(old, new proto.Message) {
							o, _ := old.(*md)
							n := new.(*md)
							n.Product = &traits.Metadata_Product{Title: o.GetProduct().GetTitle() + n.Name}
						}))
						if err == nil {
							hist = append(hist, r)
						}
						return err
					})
				}
				done <- true
			}()
		}
		var sink *rm.Sink
		go func() {
			ch := val.Pull(ctx, c.opts()...)
			t.opened = true
			sink = rm.CollectV(ch)
			done <- true
		}()
		for i := 0; i <= len(w); i++ {
			<-done
		}
		vrt.Quiesce()
		got := rm.Evs(sink.Evs)
		final := val.Get(c.read()...)
		for i, e := range sink.Evs {
			if e.Seed && (c.upd || i > 0) {
				return got, fmt.Sprintf("seed: %v", got)
			}
			if c.bp && !c.mask.Set && i > 0 && !c.equiv {
				// the product title logs the history: every event extends the previous one
				a, b := sink.Evs[i-1].New.(*md).GetProduct().GetTitle(), e.New.(*md).GetProduct().GetTitle()
				if len(b) != len(a)+1 || !strings.HasPrefix(b, a) {
					return got, fmt.Sprintf("order: event %d (%s) does not follow %s: %v", i, b, a, got)
				}
			}
			if c.equiv && i > 0 && proto.Equal(e.New, sink.Evs[i-1].New) {
				return got, fmt.Sprintf("duplicate: %v", got)
			}
		}
		if len(sink.Evs) == 0 {
			if c.upd {
				if t.after[""] > 0 && !c.equiv {
					return got, "missed: writes began after Pull returned, nothing was received"
				}
			} else if final != nil && (init || t.after[""] > 0) {
				return got, fmt.Sprintf("missed: nothing received, the value is %v", rm.Text(final))
			}
			return got, ""
		}
		if last := sink.Evs[len(sink.Evs)-1].New; !proto.Equal(last, final) {
			return got, fmt.Sprintf("last event: the last event is %v, the value is %v (%v)", rm.Text(last), rm.Text(final), got)
		}
		return got, ""
	}
}

func main() {
	hl.Main("C03", func() (scs []hl.Scenario) {
		x, y := m("x", "a"), m("y", "a")
		ops := []op{{"a", x, "up"}, {"a", y, "upd"}, {"a", nil, "del"}, {"b", x, "up"}, {"a", y, "add"}}
		var confs []conf
		for _, byID := range []bool{false, true} {
			for _, u := range []bool{false, true} {
				for _, bp := range []bool{false, true} {
					confs = append(confs, conf{upd: u, bp: bp, byID: byID})
				}
			}
		}
		extra := []conf{
			{mask: rm.MaskOf("name")}, {mask: rm.MaskOf("appearance"), equiv: true}, {bp: true, mask: rm.MaskOf("appearance"), equiv: true},
			{bp: true, equiv: true}, {equiv: true}, {bp: true, equiv: true, byID: true}, {upd: true, bp: true, mask: rm.MaskOf("name")}, {byID: true, mask: rm.MaskOf("name")},
		}
		mode := vrt.Repo
		add := func(name string, b1, b2 int, body vrt.Body) {
			scs = append(scs, hl.Scenario{Name: name, Cfg: vrt.Config{Mode: mode, Bound: b1}, Bound2: b2, Body: body})
		}
		small := [][][]op{
			{{ops[0], ops[2]}, {ops[1]}}, {{ops[2], ops[0]}, {ops[1]}}, {{ops[1], ops[0]}, {ops[3]}},
			{{ops[2], ops[4]}, {ops[1]}}, {{ops[2], ops[4]}, {ops[2], ops[0]}},
		}
		for _, pre := range []int{0, 1} {
			for _, c := range confs {
				for i, o1 := range ops {
					for j, o2 := range ops {
						for k, o3 := range ops {
							if pre == 0 && (i == 1 || i == 2) {
								continue // nothing to update or remove yet
							}
							add(fmt.Sprintf("col/pre=%d,%v/%d%d|%d", pre, c, i, j, k), 1, 2, collection(c, [][]op{{o1, o2}, {o3}}, pre))
						}
					}
				}
			}
			for _, c := range append(append([]conf{}, extra...), confs...) {
				for i, w := range small {
					add(fmt.Sprintf("col3/pre=%d,%v/%d", pre, c, i), 2, 4, collection(c, w, pre))
				}
				for i, o := range ops {
					// one write each by three writers
					add(fmt.Sprintf("col1/pre=%d,%v/%d", pre, c, i), 2, 4, collection(c, [][]op{{o}, {ops[2]}, {ops[0]}}, pre))
					// a lone write against the opening subscription, deeper
					b := 2
					if pre == 1 && !c.mask.Set && !c.equiv {
						b = 3
					}
					add(fmt.Sprintf("deep/pre=%d,%v/%d", pre, c, i), b, 4, collection(c, [][]op{{o}}, pre))
				}
			}
		}
		for _, init := range []bool{true, false} {
			for _, c := range append(append([]conf{}, extra...), confs...) {
				if c.byID {
					continue
				}
				add(fmt.Sprintf("val/init=%v,%v/21", init, c), 2, 3, value(c, [][]*md{{x, y}, {m("z", "a")}}, init))
				add(fmt.Sprintf("val/init=%v,%v/111", init, c), 1, 3, value(c, [][]*md{{x}, {y}, {m("z", "a")}}, init))
				add(fmt.Sprintf("val/init=%v,%v/1", init, c), 3, 5, value(c, [][]*md{{x}}, init))
			}
		}
		_ = types.ChangeType_ADD
		scs = append(scs, rm.ManyScenarios("fold")...)
		return
	})
}
