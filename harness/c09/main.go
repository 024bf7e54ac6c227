// C09: lossy delivery preserves the folded view; slow readers never block writers.
package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

type md = traits.Metadata

func m(name, title string) *md {
	return &md{Name: name, Appearance: &traits.Metadata_Appearance{Title: title}}
}

type conf struct {
	upd, equiv, incl bool
	mask             rm.Mask
	pre              int
}

func (c conf) String() string {
	return fmt.Sprintf("updatesOnly=%v,equiv=%v,include=%v,mask=%v,pre=%d", c.upd, c.equiv, c.incl, c.mask, c.pre)
}

func (c conf) in(x proto.Message) bool { return x != nil && (!c.incl || x.(*md).Name != "z") }

func (c conf) opts() []resource.ReadOption {
	o := []resource.ReadOption{resource.WithUpdatesOnly(c.upd)}
	if c.mask.Set {
		o = append(o, resource.WithReadMask(c.mask.PB()))
	}
	if c.incl {
		o = append(o, resource.WithInclude(func(id string, x proto.Message) bool { return c.in(x) }))
	}
	return o
}

func (c conf) proj(x proto.Message) proto.Message {
	if x == nil || !c.mask.Set {
		return x
	}
	return rm.Project(x, rm.MaskTree(c.mask.Paths))
}

type op struct {
	name, id string
	msg      *md
	act      string
}

var ops = []op{
	{"a=x", "a", m("x", "1"), "set"},
	{"a=y", "a", m("y", "1"), "set"},
	{"a=z", "a", m("z", "1"), "set"},
	{"del a", "a", nil, "del"},
	{"b=x", "b", m("x", "2"), "set"},
	{"del b", "b", nil, "del"},
	{"recv", "", nil, "recv"},
	{"drain", "", nil, "drain"},
}

// runSeq runs writes and receives of one lossy subscriber in the given order.
func runSeq(c conf, seq []int) (string, string) {
	var ropts []resource.Option
	if c.equiv {
		ropts = append(ropts, resource.WithNoDuplicates())
	}
	model := map[string]proto.Message{}
	if c.pre > 0 {
		model["a"], model["b"] = m("x", "0"), m("y", "0")
		ropts = append(ropts, resource.WithInitialRecord("a", m("x", "0")), resource.WithInitialRecord("b", m("y", "0")))
	}
	col := resource.NewCollection(ropts...)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := col.Pull(ctx, c.opts()...)
	view := rm.View{}
	if c.upd {
		for id, x := range model {
			if c.in(x) {
				view[id] = c.proj(x)
			}
		}
	}
	var evs []rm.Ev
	// what became of each id at each write, to name what a merged event stands for
	at := func(k int) time.Time { return time.Unix(int64(5000+k), 0) }
	gone := map[string][]bool{"a": {model["a"] == nil}, "b": {model["b"] == nil}}
	wrote := map[string][]time.Time{"a": {{}}, "b": {{}}}
	last := map[string]int{}
	kind := func(e rm.Ev) string {
		if c.incl || c.equiv {
			return ""
		}
		from, to := last[e.ID], slices.IndexFunc(wrote[e.ID], e.Time.Equal)
		last[e.ID] = max(to, 0)
		if to <= from || e.Kind == types.ChangeType_ADD || e.Kind == types.ChangeType_REMOVE {
			return "" // Apply judges these
		}
		want := types.ChangeType_UPDATE
		if slices.Contains(gone[e.ID][from:to+1], true) {
			want = types.ChangeType_REPLACE
		}
		if e.Kind != want {
			return fmt.Sprintf("kind %v of an event that stands for %v", e.Kind, want)
		}
		return ""
	}
	recv := func() (bool, string) {
		vrt.Quiesce()
		select {
		case x, ok := <-ch:
			if !ok {
				return false, "closed: the stream ended although its context is alive"
			}
			e := rm.FromCollection(x)
			evs = append(evs, e)
			if d := kind(e); d != "" {
				return false, fmt.Sprintf("event kind: %s (%v of %v)", d, e, rm.Evs(evs))
			}
			if d := view.Apply(e); d != "" && !c.equiv {
				return false, fmt.Sprintf("event does not fit: %s (%v of %v)", d, e, rm.Evs(evs))
			}
			return true, ""
		default:
			return false, ""
		}
	}
	drain := func() string {
		for {
			ok, d := recv()
			if d != "" {
				return d
			}
			if !ok {
				break
			}
		}
		want := rm.View{}
		for id, x := range model {
			if c.in(x) {
				want[id] = c.proj(x)
			}
		}
		if !view.Equal(want) {
			return fmt.Sprintf("fold: nothing more to receive, view %v, store %v (received %v)", view, want, rm.Evs(evs))
		}
		return ""
	}
	t0 := time.Now()
	for k, i := range seq {
		o := ops[i]
		d := ""
		if o.act == "set" || o.act == "del" && model[o.id] != nil {
			gone[o.id] = append(gone[o.id], o.act == "del")
			wrote[o.id] = append(wrote[o.id], at(k))
		}
		switch o.act {
		case "recv":
			_, d = recv()
		case "drain":
			d = drain()
		case "set":
			if _, err := col.Update(o.id, proto.Clone(o.msg), resource.WithCreateIfAbsent(), resource.WithWriteTime(at(k))); err != nil {
				d = fmt.Sprintf("write: %v", err)
			}
			model[o.id] = o.msg
		case "del":
			if _, err := col.Delete(o.id, resource.WithAllowMissing(true), resource.WithWriteTime(at(k))); err != nil {
				d = fmt.Sprintf("write: %v", err)
			}
			delete(model, o.id)
		}
		if d != "" {
			return "", d
		}
	}
	if d := drain(); d != "" {
		return "", d
	}
	if time.Since(t0) != 0 {
		return "", fmt.Sprintf("writer waited: %v passed", time.Since(t0))
	}
	return rm.Evs(evs), ""
}

// runValue is runSeq for values: the drained subscriber holds the current value.
func runValue(c conf, seq []int) (string, string) {
	var ropts []resource.Option
	if c.equiv {
		ropts = append(ropts, resource.WithNoDuplicates())
	}
	var cur, held proto.Message
	if c.pre > 0 {
		cur = m("x", "0")
		ropts = append(ropts, resource.WithInitialValue(m("x", "0")))
	}
	if c.upd {
		held = c.proj(cur)
	}
	val := resource.NewValue(ropts...)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := val.Pull(ctx, c.opts()...)
	var evs []rm.Ev
	hist := []proto.Message{cur}
	recv := func() (bool, string) {
		vrt.Quiesce()
		select {
		case x, ok := <-ch:
			if !ok {
				return false, "closed: the stream ended although its context is alive"
			}
			e := rm.FromValue(x)
			evs = append(evs, e)
			held = e.New
			return true, ""
		default:
			return false, ""
		}
	}
	drain := func() string {
		for {
			ok, d := recv()
			if d != "" {
				return d
			}
			if !ok {
				break
			}
		}
		if want := c.proj(cur); (held == nil) != (want == nil) || want != nil && !proto.Equal(held, want) {
			return fmt.Sprintf("fold: nothing more to receive, held %v, value %v (received %v)", rm.Text(held), rm.Text(want), rm.Evs(evs))
		}
		return ""
	}
	t0 := time.Now()
	for _, i := range seq {
		o := ops[i]
		d := ""
		switch o.act {
		case "recv":
			_, d = recv()
		case "drain":
			d = drain()
		case "set":
			if _, err := val.Set(proto.Clone(o.msg)); err != nil {
				d = fmt.Sprintf("write: %v", err)
			}
			cur = o.msg
			hist = append(hist, cur)
		}
		if d != "" {
			return "", d
		}
	}
	if d := drain(); d != "" {
		return "", d
	}
	if time.Since(t0) != 0 {
		return "", fmt.Sprintf("writer waited: %v passed", time.Since(t0))
	}
	// what was received is a subsequence of what was written
	k := 0
	for _, e := range evs {
		for k < len(hist) && (hist[k] == nil || !proto.Equal(c.proj(hist[k]), e.New)) {
			k++
		}
		if k == len(hist) {
			return "", fmt.Sprintf("order: received %v is not a subsequence of the writes", rm.Evs(evs))
		}
	}
	return rm.Evs(evs), ""
}

// ---- idle subscribers and concurrent writers, all schedules

// idle: subscribers receive k events and then stop; writers must finish without
// waiting; then the subscribers drain.
func idle(k int, nsub int, w [][]op, byID, upd bool) vrt.Body {
	return func() (string, string) {
		col := resource.NewCollection(resource.WithInitialRecord("a", m("x", "0")))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		opts := []resource.ReadOption{resource.WithUpdatesOnly(upd)}
		var chs []<-chan *resource.CollectionChange
		var vchs []<-chan *resource.ValueChange
		sinks := make([]*rm.Sink, nsub)
		gate := make(chan bool)
		for i := 0; i < nsub; i++ {
			s := &rm.Sink{}
			sinks[i] = s
			if byID {
				ch := col.PullID(ctx, "a", opts...)
				vchs = append(vchs, ch)
				go func() {
					for n := 0; ; n++ {
						if n == k {
							<-gate
						}
						c, ok := <-ch
						if !ok {
							s.Closed = true
							return
						}
						s.Evs = append(s.Evs, rm.FromValue(c))
					}
				}()
			} else {
				ch := col.Pull(ctx, opts...)
				chs = append(chs, ch)
				go func() {
					for n := 0; ; n++ {
						if n == k {
							<-gate
						}
						c, ok := <-ch
						if !ok {
							s.Closed = true
							return
						}
						s.Evs = append(s.Evs, rm.FromCollection(c))
					}
				}()
			}
		}
		t0 := time.Now()
		done := make(chan bool, len(w))
		removed := false
		for _, os := range w {
			go func() {
				for _, o := range os {
					if o.act == "del" {
						if _, err := col.Delete(o.id); err == nil && o.id == "a" {
							removed = true
						}
					} else {
						col.Update(o.id, proto.Clone(o.msg), resource.WithCreateIfAbsent())
					}
				}
				done <- true
			}()
		}
		for range w {
			<-done // blocks for ever (a reported deadlock) if a writer waits for a subscriber
		}
		if d := time.Since(t0); d != 0 {
			return "", fmt.Sprintf("writer waited: writers needed %v with idle lossy subscribers", d)
		}
		close(gate)
		vrt.Quiesce()
		out := ""
		for _, s := range sinks {
			out += rm.Evs(s.Evs)
			a, ok := col.Get("a")
			if byID {
				if s.Closed {
					if !removed {
						return out, "closed: PullID ended although nothing was removed"
					}
					continue
				}
				if len(s.Evs) == 0 {
					if !upd {
						return out, "fold: nothing received"
					}
					continue
				}
				if last := s.Evs[len(s.Evs)-1].New; !ok || !proto.Equal(last, a) {
					return out, fmt.Sprintf("fold: last event %v, store has %v", rm.Text(last), rm.Text(a))
				}
				continue
			}
			view, want := rm.View{}, rm.View{}
			if upd {
				view["a"] = m("x", "0")
			}
			for i, e := range s.Evs {
				if d := view.Apply(e); d != "" {
					return out, fmt.Sprintf("event does not fit: %s (event %d of %v)", d, i, rm.Evs(s.Evs))
				}
			}
			for _, id := range []string{"a", "b"} {
				if x, ok := col.Get(id); ok {
					want[id] = x
				}
			}
			if !view.Equal(want) {
				return out, fmt.Sprintf("fold: view %v, store %v (%v)", view, want, rm.Evs(s.Evs))
			}
		}
		return out, ""
	}
}

func idleValue(k int, nsub int, w [][]string, upd bool) vrt.Body {
	return func() (string, string) {
		val := resource.NewValue(resource.WithInitialValue(m("p", "0")))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		sinks := make([]*rm.Sink, nsub)
		gate := make(chan bool)
		for i := 0; i < nsub; i++ {
			s := &rm.Sink{}
			sinks[i] = s
			ch := val.Pull(ctx, resource.WithUpdatesOnly(upd))
			go func() {
				for n := 0; ; n++ {
					if n == k {
						<-gate
					}
					c, ok := <-ch
					if !ok {
						s.Closed = true
						return
					}
					s.Evs = append(s.Evs, rm.FromValue(c))
				}
			}()
		}
		t0 := time.Now()
		done := make(chan bool, len(w))
		fails := 0
		for _, names := range w {
			go func() {
				for _, n := range names {
					if _, err := val.Set(m(n, "1")); err != nil && len(w) == 1 {
						fails++
					}
				}
				done <- true
			}()
		}
		for range w {
			<-done
		}
		if d := time.Since(t0); d != 0 {
			return "", fmt.Sprintf("writer waited: writers needed %v with idle lossy subscribers", d)
		}
		if fails > 0 {
			return "", "write: a lone writer's Set failed with idle lossy subscribers"
		}
		close(gate)
		vrt.Quiesce()
		out := ""
		for _, s := range sinks {
			out += rm.Evs(s.Evs)
			if len(s.Evs) == 0 {
				return out, "fold: nothing received"
			}
			if last := s.Evs[len(s.Evs)-1].New; !proto.Equal(last, val.Get()) {
				return out, fmt.Sprintf("fold: last event %v, value %v", rm.Text(last), rm.Text(val.Get()))
			}
		}
		return out, ""
	}
}

// dropExcess: the bare helper.
func dropExcess(n, k int) vrt.Body {
	return func() (string, string) {
		in := make(chan any)
		out := minibus.DropExcess(in)
		var got []int
		gate := make(chan bool)
		end := make(chan bool)
		go func() {
			for i := 0; ; i++ {
				if i == k {
					<-gate
				}
				x, ok := <-out
				if !ok {
					close(end)
					return
				}
				got = append(got, x.(int))
			}
		}()
		for i := 1; i <= n; i++ {
			in <- i
		}
		close(gate)
		vrt.Quiesce()
		if len(got) == 0 || got[len(got)-1] != n {
			return fmt.Sprint(got), fmt.Sprintf("fold: sent 1..%d, received %v", n, got)
		}
		for i := 1; i < len(got); i++ {
			if got[i] <= got[i-1] {
				return fmt.Sprint(got), fmt.Sprintf("order: %v", got)
			}
		}
		close(in)
		vrt.Quiesce()
		select {
		case <-end:
		default:
			return fmt.Sprint(got), "not closed: the output stays open after its input is closed"
		}
		return fmt.Sprint(got), ""
	}
}

// ---- backpressure

// waits: with a backpressured subscriber that has received r events, the writer
// is never more than the pipeline's one event (two for PullID) ahead.
func waits(kind string, r int, upd bool) vrt.Body {
	return func() (string, string) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		n := 0 // completed writes
		recv := 0
		gate := make(chan bool)
		opts := []resource.ReadOption{resource.WithBackpressure(true), resource.WithUpdatesOnly(upd)}
		next := func(more func() bool) {
			for {
				if recv == r {
					<-gate
				}
				if !more() {
					return
				}
				recv++
			}
		}
		slack := 1
		var write func(i int) error
		switch kind {
		case "Value":
			val := resource.NewValue(resource.WithInitialValue(m("p", "0")))
			ch := val.Pull(ctx, opts...)
			go next(func() bool { _, ok := <-ch; return ok })
			write = func(i int) error { _, err := val.Set(m(fmt.Sprint(i), "")); return err }
		case "Collection":
			col := resource.NewCollection(resource.WithInitialRecord("a", m("p", "0")))
			ch := col.Pull(ctx, opts...)
			go next(func() bool { _, ok := <-ch; return ok })
			write = func(i int) error { _, err := col.Update("a", m(fmt.Sprint(i), "")); return err }
		case "PullID":
			slack = 2
			col := resource.NewCollection(resource.WithInitialRecord("a", m("p", "0")))
			ch := col.PullID(ctx, "a", opts...)
			go next(func() bool { _, ok := <-ch; return ok })
			write = func(i int) error { _, err := col.Update("a", m(fmt.Sprint(i), "")); return err }
		}
		seeds := 1
		if upd {
			seeds = 0
		}
		total := r + 8
		bad := ""
		done := make(chan bool)
		go func() {
			for i := 0; i < total; i++ {
				if err := write(i); err != nil {
					bad = fmt.Sprintf("write: %v", err)
					break
				}
				n++
				if ahead := n + seeds - recv; ahead > slack+3 && bad == "" {
					bad = fmt.Sprintf("dropped wait: %d writes completed but the subscriber received only %d events", n, recv)
				}
			}
			close(done)
		}()
		vrt.Quiesce()
		if bad != "" {
			return "", bad
		}
		if n == total {
			return "", "dropped wait: every write completed although the backpressured subscriber stopped receiving"
		}
		close(gate)
		<-done
		vrt.Quiesce()
		if bad != "" {
			return "", bad
		}
		if recv != total+seeds {
			return "", fmt.Sprintf("dropped: %d writes, %d seeds, %d events received", total, seeds, recv)
		}
		return fmt.Sprint(n, recv), ""
	}
}

// timeout: readers take an event every gap; a Value write whose event is not taken
// within five seconds fails at five seconds, otherwise it succeeds.
func timeout(gap time.Duration, others int) vrt.Body {
	return func() (string, string) {
		val := resource.NewValue(resource.WithInitialValue(m("p", "0")))
		ctx, cancel := context.WithCancel(context.Background())
		stuckCtx, unstick := context.WithCancel(context.Background())
		defer cancel()
		defer unstick()
		var lossy, eager []*rm.Sink
		for i := 0; i < others; i++ {
			lossy = append(lossy, rm.CollectV(val.Pull(ctx)))
			eager = append(eager, rm.CollectV(val.Pull(ctx, resource.WithBackpressure(true))))
		}
		ch := val.Pull(stuckCtx, resource.WithBackpressure(true))
		for i := 0; i < others; i++ {
			lossy = append(lossy, rm.CollectV(val.Pull(ctx)))
			eager = append(eager, rm.CollectV(val.Pull(ctx, resource.WithBackpressure(true))))
		}
		if gap > 0 {
			go func() {
				for {
					time.Sleep(gap)
					if _, ok := <-ch; !ok {
						return
					}
				}
			}()
		}
		var out strings.Builder
		fails := 0
		for i := 0; i < 4; i++ {
			t0 := time.Now()
			_, err := val.Set(m(fmt.Sprint(i), ""))
			d := time.Since(t0)
			fmt.Fprintf(&out, "%v err=%v; ", d, err != nil)
			if err != nil {
				fails++
				if d < 5*time.Second || d > 6*time.Second {
					return out.String(), fmt.Sprintf("timeout: Set failed after %v", d)
				}
			} else if d > 5*time.Second {
				return out.String(), fmt.Sprintf("timeout: Set took %v", d)
			}
			vrt.Quiesce()
			for k, s := range append(append([]*rm.Sink{}, lossy...), eager...) {
				// everyone who keeps receiving has the value, whatever the stuck reader does
				if len(s.Evs) == 0 || s.Evs[len(s.Evs)-1].New.(*md).Name != fmt.Sprint(i) {
					return out.String(), fmt.Sprintf("starved: subscriber %d has %v after write %d", k, rm.Evs(s.Evs), i)
				}
			}
		}
		if gap == 0 && fails == 0 {
			return out.String(), "timeout: no Set failed although the backpressured reader never receives"
		}
		if gap > 0 && gap < 5*time.Second && fails > 0 {
			return out.String(), fmt.Sprintf("timeout: a Set failed although the reader receives every %v", gap)
		}
		unstick()
		vrt.Quiesce()
		t0 := time.Now()
		if _, err := val.Set(m("end", "")); err != nil || time.Since(t0) > time.Second {
			return out.String(), fmt.Sprintf("stall: Set after the reader was cancelled: %v, %v", err, time.Since(t0))
		}
		vrt.Quiesce()
		for _, s := range eager {
			if n := len(s.Evs); n != 6 {
				return out.String(), fmt.Sprintf("dropped: 5 writes and a seed, received %v", rm.Evs(s.Evs))
			}
		}
		return out.String(), ""
	}
}

// slow: a backpressured reader of a collection takes an event every gap, however
// long that is every successful write is waited for and received, in order.
func slow(gap time.Duration, byID bool, others int) vrt.Body {
	return func() (string, string) {
		col := resource.NewCollection(resource.WithInitialRecord("a", m("p", "0")))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var eager []*rm.Sink
		for i := 0; i < others; i++ {
			eager = append(eager, rm.Collect(col.Pull(ctx, resource.WithBackpressure(true))))
		}
		ch := col.Pull(ctx, resource.WithBackpressure(true))
		idc := col.PullID(ctx, "a", resource.WithBackpressure(true))
		got := &rm.Sink{}
		stop := make(chan bool)
		if byID {
			rm.Collect(ch)
		} else {
			rm.CollectV(idc)
		}
		go func() {
			for {
				select {
				case <-stop:
				case <-time.After(gap):
				}
				var e rm.Ev
				if byID {
					x, ok := <-idc
					if !ok {
						return
					}
					e = rm.FromValue(x)
				} else {
					x, ok := <-ch
					if !ok {
						return
					}
					e = rm.FromCollection(x)
				}
				got.Evs = append(got.Evs, e)
			}
		}()
		for i := 0; i < others; i++ {
			eager = append(eager, rm.Collect(col.Pull(ctx, resource.WithBackpressure(true))))
		}
		want := []string{"p"}
		var errs []string
		for i, id := range []string{"a", "a", "b", "a", "b", "-b", "a", "+c", "a"} {
			name := fmt.Sprint(i)
			var err error
			switch id[0] {
			case '-':
				_, err = col.Delete(id[1:])
				name = "-"
			case '+':
				_, err = col.Add(id[1:], m(name, ""))
			default:
				_, err = col.Update(id, m(name, ""), resource.WithCreateIfAbsent())
			}
			if err != nil {
				errs = append(errs, err.Error())
				continue
			}
			if id == "a" || !byID {
				want = append(want, name)
			}
		}
		close(stop)
		vrt.Quiesce()
		for k, s := range append(eager, got) {
			w := want
			if k < len(eager) && byID {
				if len(s.Evs) != 10-len(errs) {
					return "", fmt.Sprintf("dropped: %d writes and a seed, an eager subscriber received %v", 9-len(errs), rm.Evs(s.Evs))
				}
				continue
			}
			var g []string
			for _, e := range s.Evs {
				if e.New == nil {
					g = append(g, "-")
				} else {
					g = append(g, e.New.(*md).Name)
				}
			}
			if fmt.Sprint(g) != fmt.Sprint(w) {
				return "", fmt.Sprintf("dropped: subscriber %d received %v of %v, a reader takes an event every %v (errors %v)", k, g, w, gap, errs)
			}
		}
		return fmt.Sprint(got.Evs, errs), ""
	}
}

func main() {
	hl.Main("C09", func() (scs []hl.Scenario) {
		var confs []conf
		for _, pre := range []int{0, 1} {
			for _, u := range []bool{false, true} {
				confs = append(confs, conf{upd: u, pre: pre}, conf{upd: u, pre: pre, incl: true}, conf{upd: u, pre: pre, mask: rm.MaskOf("name")}, conf{upd: u, pre: pre, mask: rm.MaskOf("name"), equiv: true, incl: true})
			}
		}
		enum := func(name string, c conf, acts []int, n int, run func(conf, []int) (string, string)) {
			scs = append(scs, hl.Scenario{Name: name + "/" + c.String(), Shards: hl.Pick(1, 4), Enum: func(e *hl.E) {
				seq := make([]int, n)
				var rec func(i int) bool
				rec = func(i int) bool {
					if i == n {
						return e.Case(func() string {
							var s []string
							for _, i := range seq {
								s = append(s, ops[i].name)
							}
							return strings.Join(s, ", ")
						}, func() (string, string) {
							return hl.Single(func() (string, string) { return run(c, seq) })
						})
					}
					for _, j := range acts {
						seq[i] = j
						if !rec(i + 1) {
							return false
						}
					}
					return true
				}
				rec(0)
			}})
		}
		for _, c := range confs {
			// one id, long; two ids
			enum("one", c, []int{0, 1, 3, 6}, hl.Pick(7, 9), runSeq)
			enum("two", c, []int{0, 2, 3, 4, 5, 6}, hl.Pick(6, 7), runSeq)
			enum("drain", c, []int{0, 1, 3, 4, 6, 7}, hl.Pick(5, 6), runSeq)
			if !c.incl {
				enum("value", c, []int{0, 1, 2, 6, 7}, hl.Pick(5, 7), runValue)
			}
		}
		ax, ay, da, bx := ops[0], ops[1], ops[3], ops[4]
		for _, k := range []int{0, 1, 2} {
			for _, u := range []bool{false, true} {
				for _, byID := range []bool{false, true} {
					for i, w := range [][][]op{{{ax, da, ay}}, {{ax, bx}, {da}}, {{da, ax}, {ay}}, {{da, ax, da, ay}}} {
						scs = append(scs, hl.Scenario{Name: fmt.Sprintf("idle/recv=%d,updatesOnly=%v,byID=%v,script=%d", k, u, byID, i),
							Cfg: vrt.Config{Bound: 2}, Bound2: 3, Body: idle(k, 1, w, byID, u)})
					}
					scs = append(scs, hl.Scenario{Name: fmt.Sprintf("idle3/recv=%d,updatesOnly=%v,byID=%v", k, u, byID),
						Cfg: vrt.Config{Bound: 1}, Bound2: 2, Body: idle(k, 3, [][]op{{ax, bx}, {da}}, byID, u)})
				}
				for i, w := range [][][]string{{{"1", "2", "3"}}, {{"1", "2"}, {"3"}}} {
					scs = append(scs, hl.Scenario{Name: fmt.Sprintf("idleValue/recv=%d,updatesOnly=%v,script=%d", k, u, i),
						Cfg: vrt.Config{Bound: 2}, Bound2: 3, Body: idleValue(k, 1, w, u)})
				}
			}
			for n := 1; n <= 3; n++ {
				scs = append(scs, hl.Scenario{Name: fmt.Sprintf("dropExcess/n=%d,recv=%d", n, k), Cfg: vrt.Config{Bound: 4}, Bound2: 8, Body: dropExcess(n, k)})
			}
		}
		for _, kind := range []string{"Value", "Collection", "PullID"} {
			for r := 0; r < 3; r++ {
				for _, u := range []bool{false, true} {
					scs = append(scs, hl.Scenario{Name: fmt.Sprintf("waits/%s,recv=%d,updatesOnly=%v", kind, r, u), Cfg: vrt.Config{Bound: 1}, Bound2: 2, Body: waits(kind, r, u)})
				}
			}
		}
		for _, gap := range []time.Duration{0, time.Second, 4 * time.Second, 4999 * time.Millisecond, 6 * time.Second, 11 * time.Second} {
			for others := 0; others <= 2; others++ {
				b := 1
				if others > 0 {
					b = 0
				}
				scs = append(scs, hl.Scenario{Name: fmt.Sprintf("timeout/gap=%v,others=%d", gap, 2*others), Cfg: vrt.Config{Bound: b}, Bound2: b + 1, Body: timeout(gap, others)})
			}
		}
		for _, gap := range []time.Duration{0, time.Second, 4999 * time.Millisecond, 6 * time.Second, 11 * time.Second, 61 * time.Second, 25 * time.Hour} {
			for _, byID := range []bool{false, true} {
				for others := 0; others <= 1; others++ {
					scs = append(scs, hl.Scenario{Name: fmt.Sprintf("slow/gap=%v,byID=%v,others=%d", gap, byID, 2*others), Cfg: vrt.Config{Bound: 0}, Bound2: 1, Body: slow(gap, byID, others)})
				}
			}
		}
		scs = append(scs, rm.ManyScenarios("lossy")...)
		return
	})
}
