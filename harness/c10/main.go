// C10: subscriptions and the event bus shut down cleanly under any timing.
package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

type md = traits.Metadata

// sub is one subscription under test.
type sub struct {
	kind    string // Value, Collection, PullID
	bp, upd bool
	equiv   bool
	reads   int // the consumer stops receiving after this many events, -1: never stops
}

func (s sub) String() string {
	return fmt.Sprintf("%s(bp=%v,upd=%v,reads=%d)", s.kind, s.bp, s.upd, s.reads)
}

type running struct {
	sub
	cancel func()
	n      int
	ended  bool
	resume chan bool
	last   string
}

type world struct {
	val *resource.Value
	col *resource.Collection
}

func newWorld() *world {
	return &world{
		val: resource.NewValue(resource.WithInitialValue(&md{Name: "0"})),
		col: resource.NewCollection(resource.WithInitialRecord("a", &md{Name: "0"}), resource.WithInitialRecord("b", &md{Name: "0"})),
	}
}

// start opens the subscription and its consumer.
func (w *world) start(s sub, ctx context.Context, cancel func()) *running {
	r := &running{sub: s, cancel: cancel, resume: make(chan bool)}
	opts := []resource.ReadOption{resource.WithBackpressure(s.bp), resource.WithUpdatesOnly(s.upd)}
	pump := func(recv func() (string, bool)) {
		for {
			if r.n == r.reads {
				<-r.resume
			}
			x, ok := recv()
			if !ok {
				r.ended = true
				return
			}
			r.last = x
			r.n++
		}
	}
	switch s.kind {
	case "Value":
		ch := w.val.Pull(ctx, opts...)
		go pump(func() (string, bool) {
			c, ok := <-ch
			if !ok {
				return "", false
			}
			return c.Value.(*md).Name, true
		})
	case "Collection":
		ch := w.col.Pull(ctx, opts...)
		go pump(func() (string, bool) {
			c, ok := <-ch
			if !ok {
				return "", false
			}
			x, _ := c.NewValue.(*md)
			return c.Id + x.GetName(), true
		})
	case "PullID":
		ch := w.col.PullID(ctx, "a", opts...)
		go pump(func() (string, bool) {
			c, ok := <-ch
			if !ok {
				return "", false
			}
			return c.Value.(*md).Name, true
		})
	}
	return r
}

func (w *world) write(kind string, i int) error {
	switch kind {
	case "Value":
		_, err := w.val.Set(&md{Name: fmt.Sprint(i)})
		return err
	case "del":
		_, err := w.col.Delete("a")
		return err
	case "b":
		_, err := w.col.Update("b", &md{Name: fmt.Sprint(i)}, resource.WithCreateIfAbsent())
		return err
	default:
		_, err := w.col.Update("a", &md{Name: fmt.Sprint(i)}, resource.WithCreateIfAbsent())
		return err
	}
}

// cancelAny cancels the first subscription at any moment while a writer works and
// other subscriptions look on; all channels must close, the writer must not wait
// (no virtual time passes), the others must see the last write, nothing leaks.
func cancelAny(target sub, others []sub, writes []string, deadline time.Duration) vrt.Body {
	return func() (string, string) {
		w := newWorld()
		base := vrt.Goroutines()
		var ctx context.Context
		var cancel func()
		if deadline > 0 {
			ctx, cancel = context.WithTimeout(context.Background(), deadline)
		} else {
			ctx, cancel = context.WithCancel(context.Background())
		}
		octx, ocancel := context.WithCancel(context.Background())
		defer ocancel()
		t0 := time.Now()
		var os []*running
		for i, s := range others {
			if i%2 == 0 {
				os = append(os, w.start(s, octx, ocancel))
			}
		}
		t := w.start(target, ctx, cancel)
		for i, s := range others {
			if i%2 == 1 {
				os = append(os, w.start(s, octx, ocancel))
			}
		}
		done := make(chan bool, 2)
		go func() {
			if deadline == 0 {
				vrt.Yield()
				cancel()
			}
			done <- true
		}()
		werr := ""
		go func() {
			for i, k := range writes {
				if err := w.write(k, i+1); err != nil {
					werr = fmt.Sprintf("write: write %d failed: %v", i, err)
				}
			}
			done <- true
		}()
		<-done
		<-done
		if werr != "" {
			return "", werr
		}
		if d := time.Since(t0); d > deadline {
			return "", fmt.Sprintf("stalled: the writer waited until %v although the subscription ended at %v", d, deadline)
		}
		if deadline > 0 {
			time.Sleep(deadline)
		}
		vrt.Quiesce()
		tParked := t.reads >= 0 && t.n >= t.reads
		if !t.ended && !tParked {
			return fmt.Sprint(t.n), "not closed: the subscription's channel is still open after its context was cancelled"
		}
		for i, o := range os {
			if o.reads >= 0 {
				continue
			}
			want := ""
			for j, k := range writes {
				switch {
				case o.kind == "Value" && k == "Value", o.kind == "PullID" && k == "a":
					want = fmt.Sprint(j + 1)
				case o.kind == "Collection" && k != "Value":
					want = k + fmt.Sprint(j+1)
					if k == "del" {
						want = "a"
					}
				}
			}
			if o.ended {
				return "", fmt.Sprintf("closed: another subscription (%d, %v) was closed", i, o.sub)
			}
			if want != "" && o.last != want {
				return "", fmt.Sprintf("others: another subscription (%d, %v) last received %q, want %q", i, o.sub, o.last, want)
			}
		}
		ocancel()
		cancel()
		vrt.Quiesce()
		parked := 0
		for _, o := range append(os, t) {
			if o.reads >= 0 && o.n >= o.reads {
				parked++
			}
		}
		if g := vrt.Goroutines(); g > base+parked {
			return "", fmt.Sprintf("leak: %d goroutines of cancelled subscriptions live on while nobody receives", g-base-parked)
		}
		for _, o := range append(os, t) {
			if o.reads >= 0 && o.n >= o.reads {
				close(o.resume)
			}
		}
		vrt.Quiesce()
		if !t.ended {
			return fmt.Sprint(t.n), "not closed: the subscription's channel is still open after its context was cancelled"
		}
		for i, o := range os {
			if !o.ended {
				return "", fmt.Sprintf("not closed: subscription %d (%v) is still open after its context was cancelled", i, o.sub)
			}
		}
		if g := vrt.Goroutines(); g > base {
			return "", fmt.Sprintf("leak: %d goroutines are left after everything was cancelled", g-base)
		}
		return fmt.Sprint(t.n), ""
	}
}

// alone opens subscriptions with nobody writing, cancels (or lets the item be
// removed) and checks closing and leaks.
func alone(s sub, how string) vrt.Body {
	return func() (string, string) {
		w := newWorld()
		base := vrt.Goroutines()
		ctx, cancel := context.WithCancel(context.Background())
		if how == "before" {
			cancel()
		}
		r := w.start(s, ctx, cancel)
		switch how {
		case "after":
			vrt.Quiesce()
			cancel()
		case "race":
			vrt.Yield()
			cancel()
		case "deadline":
			c2, cc := context.WithTimeout(ctx, time.Second)
			r2 := w.start(s, c2, cc)
			time.Sleep(2 * time.Second)
			vrt.Quiesce()
			if s.reads >= 0 && r2.n >= s.reads {
				close(r2.resume)
				vrt.Quiesce()
			}
			if !r2.ended {
				return "", "not closed: the subscription is open after its deadline"
			}
			cancel()
		}
		vrt.Quiesce()
		if s.reads >= 0 && r.n >= s.reads {
			if g := vrt.Goroutines(); g > base+1 { // the consumer itself is parked
				return "", fmt.Sprintf("leak: %d goroutines of a cancelled subscription live on while nobody receives", g-base-1)
			}
			close(r.resume)
			vrt.Quiesce()
		}
		if !r.ended {
			return "", "not closed: the subscription's channel is open although its context is cancelled"
		}
		if g := vrt.Goroutines(); g > base {
			return "", fmt.Sprintf("leak: %d goroutines left", g-base)
		}
		// a subscription that is gone must not disturb a write
		t0 := time.Now()
		if err := w.write(s.kind, 1); err != nil || time.Since(t0) != 0 {
			return "", fmt.Sprintf("stalled: a write after the subscription ended: %v, %v", err, time.Since(t0))
		}
		vrt.Quiesce()
		if g := vrt.Goroutines(); g > base {
			return "", fmt.Sprintf("leak: %d goroutines left after a write", g-base)
		}
		return fmt.Sprint(r.n), ""
	}
}

// removed: a PullID subscription ends when its item is removed, with the context
// still alive, and later writers are not disturbed.
func removed(s sub, n int, writes []string) vrt.Body {
	return func() (string, string) {
		w := newWorld()
		base := vrt.Goroutines()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var rs []*running
		for i := 0; i < n; i++ {
			rs = append(rs, w.start(s, ctx, cancel))
		}
		for i, k := range writes {
			if err := w.write(k, i+1); err != nil {
				return "", fmt.Sprintf("write: %v", err)
			}
		}
		// nobody may be waiting on the ended subscription
		for i := 0; i < 3; i++ {
			if err := w.write("b", i+10); err != nil {
				return "", fmt.Sprintf("write: %v", err)
			}
		}
		vrt.Quiesce()
		out := ""
		for _, r := range rs {
			if r.reads >= 0 && r.n >= r.reads {
				close(r.resume)
			}
		}
		vrt.Quiesce()
		for i, r := range rs {
			if !r.ended {
				return "", fmt.Sprintf("not ended: PullID subscription %d is open although its item was removed", i)
			}
			out += fmt.Sprint(r.n, " ")
		}
		if g := vrt.Goroutines(); g > base {
			return "", fmt.Sprintf("leak: %d goroutines are left after the item was removed", g-base)
		}
		return out, ""
	}
}

// ---- the bus

type rec struct {
	ready   bool // Listen returned
	cancel  bool // cancel was called (or may have been)
	got     []int
	ended   bool
	bad     string
	liveAt  map[int]bool // listening when the send began
	endedAt map[int]bool // still not cancelled when the send returned
}

// bus: senders x listeners, one listener joins late, cancels race with everything.
func bus(senders, sends, listeners int, late bool, cancels int, stop int) vrt.Body {
	return func() (string, string) {
		var b minibus.Bus
		base := vrt.Goroutines()
		recs := make([]*rec, listeners)
		cancelsF := make([]func(), listeners)
		listen := func(i int) {
			ctx, cancel := context.WithCancel(context.Background())
			cancelsF[i] = func() { recs[i].cancel = true; cancel() }
			ch := b.Listen(ctx)
			r := recs[i]
			r.ready = true
			go func() {
				n := 0
				for x := range ch {
					v := x.(int)
					r.got = append(r.got, v)
					n++
					if i == 0 && stop > 0 && n == stop {
						// stops receiving and cancels
						cancelsF[0]()
						vrt.Quiesce()
					}
				}
				if _, ok := <-ch; ok {
					r.bad = "after close: the channel produced an event after it was closed"
				}
				r.ended = true
			}()
		}
		for i := range recs {
			recs[i] = &rec{liveAt: map[int]bool{}, endedAt: map[int]bool{}}
			if !(late && i == listeners-1) {
				listen(i)
			}
		}
		done := make(chan bool, 8)
		n := 0
		for s := 0; s < senders; s++ {
			n++
			go func() {
				for k := 0; k < sends; k++ {
					v := s*100 + k
					for _, r := range recs {
						r.liveAt[v] = r.ready && !r.cancel
					}
					ok := b.Send(context.Background(), v)
					for _, r := range recs {
						r.endedAt[v] = ok && !r.cancel
						if !ok && r.bad == "" {
							r.bad = "send: Send reported failure although its context is alive"
						}
					}
				}
				done <- true
			}()
		}
		if late {
			n++
			go func() { listen(listeners - 1); done <- true }()
		}
		for i := 0; i < cancels; i++ {
			n++
			go func() { vrt.Yield(); cancelsF[i](); done <- true }()
		}
		for i := 0; i < n; i++ {
			<-done
		}
		vrt.Quiesce()
		vrt.Quiesce() // a stopped listener waits for the first
		out := ""
		for i, r := range recs {
			out += fmt.Sprint(r.got)
			if r.bad != "" {
				return out, r.bad
			}
			seen := map[int]int{}
			lastOf := map[int]int{}
			for _, v := range r.got {
				seen[v]++
				if seen[v] > 1 {
					return out, fmt.Sprintf("twice: listener %d received %d twice (%v)", i, v, r.got)
				}
				if p, ok := lastOf[v/100]; ok && p > v {
					return out, fmt.Sprintf("order: listener %d received %v", i, r.got)
				}
				lastOf[v/100] = v
			}
			for v, live := range r.liveAt {
				if live && r.endedAt[v] && seen[v] != 1 {
					return out, fmt.Sprintf("missed: listener %d was live for the whole send of %d but received %v", i, v, r.got)
				}
			}
			if r.cancel && !r.ended {
				return out, fmt.Sprintf("not closed: listener %d is cancelled but its channel is open", i)
			}
			if !r.cancel && r.ended {
				return out, fmt.Sprintf("closed: listener %d is live but its channel was closed", i)
			}
		}
		for _, c := range cancelsF {
			c()
		}
		vrt.Quiesce()
		for i, r := range recs {
			if !r.ended {
				return out, fmt.Sprintf("not closed: listener %d is cancelled but its channel is open", i)
			}
		}
		if g := vrt.Goroutines(); g > base {
			return out, fmt.Sprintf("leak: %d goroutines left", g-base)
		}
		return out, ""
	}
}

// sendCtx: a listener that never receives; Send gives up when its context ends,
// the other listeners still get the event, and the stalled one gets later events.
func sendCtx(how string, stalled int) vrt.Body {
	return func() (string, string) {
		var b minibus.Bus
		base := vrt.Goroutines()
		lctx, lcancel := context.WithCancel(context.Background())
		defer lcancel()
		var chs [3]<-chan any
		var got [3][]int
		var ended [3]bool
		gate := make(chan bool)
		for i := range chs {
			chs[i] = b.Listen(lctx)
			go func() {
				if i == stalled {
					<-gate
				}
				for x := range chs[i] {
					got[i] = append(got[i], x.(int))
				}
				ended[i] = true
			}()
		}
		t0 := time.Now()
		var ctx context.Context
		var cancel func()
		switch how {
		case "deadline":
			ctx, cancel = context.WithTimeout(context.Background(), 5*time.Second)
		case "cancel", "race":
			ctx, cancel = context.WithCancel(context.Background())
			go func() {
				if how == "cancel" {
					vrt.Quiesce()
				} else {
					vrt.Yield()
				}
				cancel()
			}()
		case "cancelled":
			ctx, cancel = context.WithCancel(context.Background())
			cancel()
		}
		ok := b.Send(ctx, 1)
		defer cancel()
		if ok {
			return "", "send: Send reports success although a live listener never received the event"
		}
		d := time.Since(t0)
		if how == "deadline" && d != 5*time.Second || how != "deadline" && d != 0 {
			return "", fmt.Sprintf("send: Send returned after %v", d)
		}
		vrt.Quiesce()
		if how == "deadline" || how == "cancel" {
			for i := range got {
				if i != stalled && len(got[i]) != 1 {
					return fmt.Sprint(got), fmt.Sprintf("starved: listener %d received %v", i, got[i])
				}
			}
		}
		close(gate)
		vrt.Quiesce()
		if !b.Send(context.Background(), 2) {
			return fmt.Sprint(got), "send: a later Send failed although everyone receives"
		}
		vrt.Quiesce()
		for i := range got {
			if len(got[i]) == 0 || got[i][len(got[i])-1] != 2 {
				return fmt.Sprint(got), fmt.Sprintf("missed: listener %d received %v after a later send", i, got[i])
			}
			if len(got[i]) > 2 || len(got[i]) == 2 && got[i][0] != 1 {
				return fmt.Sprint(got), fmt.Sprintf("twice: listener %d received %v", i, got[i])
			}
		}
		lcancel()
		vrt.Quiesce()
		for i := range ended {
			if !ended[i] {
				return fmt.Sprint(got), fmt.Sprintf("not closed: listener %d", i)
			}
		}
		if g := vrt.Goroutines(); g > base {
			return fmt.Sprint(got), fmt.Sprintf("leak: %d goroutines left", g-base)
		}
		return fmt.Sprint(got), ""
	}
}

// dropExcess: closing the input at any point ends the helper.
func dropExcess(n, reads int) vrt.Body {
	return func() (string, string) {
		base := vrt.Goroutines()
		in := make(chan any)
		out := minibus.DropExcess(in)
		var got []any
		gate := make(chan bool)
		ended := false
		go func() {
			for i := 0; ; i++ {
				if i == reads {
					<-gate
				}
				x, ok := <-out
				if !ok {
					ended = true
					return
				}
				got = append(got, x)
			}
		}()
		for i := 0; i < n; i++ {
			in <- i
		}
		close(in)
		vrt.Quiesce()
		if reads >= 0 {
			close(gate)
			vrt.Quiesce()
		}
		if !ended {
			return "", "not closed: DropExcess's output is open after its input was closed"
		}
		if g := vrt.Goroutines(); g > base {
			return "", "leak: DropExcess leaves a goroutine"
		}
		return fmt.Sprint(got), ""
	}
}

// ---- trait models

// model: a model's subscription, receiving reads events, with touches changes,
// then cancelled: it closes, nothing leaks, changes are not held up.
func model(mm tm.Model, method string, opts []resource.ReadOption, reads, touches int, race bool) vrt.Body {
	return func() (string, string) {
		var m any
		vrt.Quiet(func() { m = mm.New() })
		base := vrt.Goroutines()
		ctx, cancel := context.WithCancel(context.Background())
		s := tm.Pull(m, method, mm.Key, ctx, opts...)
		n, ended := 0, false
		gate := make(chan bool)
		go func() {
			for {
				if n == reads {
					<-gate
				}
				if _, ok := s.Recv(); !ok {
					ended = true
					return
				}
				n++
			}
		}()
		t0 := time.Now()
		done := make(chan bool, 2)
		if race {
			go func() { vrt.Yield(); cancel(); done <- true }()
		}
		go func() {
			for i := 0; i < touches; i++ {
				mm.Touch(m, i)
			}
			done <- true
		}()
		<-done
		if race {
			<-done
		}
		if d := time.Since(t0); d != 0 {
			return "", fmt.Sprintf("stalled: updates waited %v", d)
		}
		if !race {
			vrt.Quiesce()
			cancel()
		}
		vrt.Quiesce()
		// goroutines must end even though the consumer does not receive any more
		extra := 0
		if n == reads {
			extra = 1 // the consumer itself
		}
		if g := vrt.Goroutines(); g > base+extra {
			return fmt.Sprint(n), fmt.Sprintf("leak: %d goroutines are left after cancelling %s", g-base-extra, method)
		}
		if extra == 1 {
			close(gate)
			vrt.Quiesce()
		}
		if !ended {
			return fmt.Sprint(n), fmt.Sprintf("not closed: %s's channel is open after its context was cancelled", method)
		}
		if g := vrt.Goroutines(); g > base {
			return fmt.Sprint(n), fmt.Sprintf("leak: %d goroutines left", g-base)
		}
		return fmt.Sprint(n), ""
	}
}

// manySubs has n subscriptions, of which one after the other is cancelled in the given order, with a write in between.
// With stall the one to be cancelled stops receiving before the write, so that a backpressured write has to wait for the cancel.
func manySubs(kind string, n int, order string, bp, stall bool) (string, string) {
	base := vrt.Goroutines()
	w := newWorld()
	rs := make([]*running, n)
	for i := range rs {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		rs[i] = w.start(sub{kind: kind, bp: bp, upd: i%3 == 1, reads: -1}, ctx, cancel)
	}
	vrt.Quiesce()
	t0 := time.Now()
	live := make([]bool, n)
	count := make([]int, n)
	for i := range live {
		live[i] = true
		count[i] = rs[i].n
	}
	last := ""
	check := func(k int) string {
		for i, r := range rs {
			if !live[i] {
				if !r.ended {
					return fmt.Sprintf("closed: subscription %d of %d is still open after %d cancels", i, n, k)
				}
				continue
			}
			if r.ended {
				return fmt.Sprintf("ended: subscription %d of %d ended although only others were cancelled", i, n)
			}
			if bp && r.n != count[i]+1 {
				return fmt.Sprintf("delivery: subscription %d of %d received %d events for one write", i, n, r.n-count[i])
			}
			if r.last != last {
				return fmt.Sprintf("delivery: subscription %d of %d last received %s, want %s", i, n, r.last, last)
			}
			count[i] = r.n
		}
		return ""
	}
	for k := 0; k < n; k++ {
		i := k
		switch order {
		case "down":
			i = n - 1 - k
		case "middle":
			i = (k + n/2) % n
		case "interleaved":
			i = k / 2
			if k%2 == 1 {
				i = n - 1 - k/2
			}
		}
		r := rs[i]
		if stall {
			r.reads = r.n + 1 // takes the event of the next write but no more
		}
		var done bool
		var werr error
		write := func(j int) {
			v := 10*k + j + 1
			done, werr = false, nil
			go func() { werr = w.write(kind, v); done = true }()
			vrt.Quiesce()
			last = fmt.Sprint(v)
			if kind == "Collection" {
				last = "a" + last
			}
		}
		write(0)
		if !done || werr != nil {
			return "", fmt.Sprintf("write: %v although everyone receives (%v)", werr, done)
		}
		if d := check(k); d != "" {
			return "", d
		}
		skip := 0
		for j := 1; stall && j < 4 && done; j++ {
			write(j) // nobody takes these for the stalled one; with backpressure one of them waits
			skip++
			if !bp && !done {
				return "", "write: waits for a stalled subscriber that has no backpressure"
			}
			if werr != nil {
				return "", fmt.Sprintf("write: %v", werr)
			}
		}
		for x := range count {
			count[x] += max(skip-1, 0)
		}
		live[i] = false
		r.cancel()
		vrt.Quiesce()
		if stall {
			close(r.resume)
			vrt.Quiesce()
			if !done || werr != nil {
				return "", fmt.Sprintf("write: waiting after the stalled subscriber was cancelled (%v, %v)", done, werr)
			}
			if d := check(k + 1); d != "" {
				return "", d
			}
		}
	}
	if err := w.write(kind, 5); err != nil {
		return "", fmt.Sprintf("write: %v without subscribers", err)
	}
	vrt.Quiesce()
	for i, r := range rs {
		if !r.ended {
			return "", fmt.Sprintf("closed: subscription %d of %d is still open", i, n)
		}
	}
	if time.Since(t0) != 0 {
		return "", fmt.Sprintf("waited: %v passed", time.Since(t0))
	}
	if g := vrt.Goroutines(); g > base {
		return "", fmt.Sprintf("leak: %d goroutines are left", g-base)
	}
	return fmt.Sprintf("%d cancelled", n), ""
}

func main() {
	hl.Main("C10", func() (scs []hl.Scenario) {
		add := func(name string, b1, b2 int, body vrt.Body) {
			scs = append(scs, hl.Scenario{Name: name, Cfg: vrt.Config{Mode: vrt.Repo | vrt.Harness, Bound: b1}, Bound2: b2, Body: body})
		}
		for _, kind := range []string{"Value", "Collection", "PullID"} {
			scs = append(scs, hl.Scenario{Name: "many/" + kind, Enum: func(e *hl.E) {
				for _, n := range []int{2, 3, 4, 5, 7, 8, 9, 16, 17, 33} {
					for _, order := range []string{"up", "down", "middle", "interleaved"} {
						for _, bp := range []bool{false, true} {
							for _, stall := range []bool{false, true} {
								if !e.Case(func() string {
									return fmt.Sprintf("%d subscriptions, cancelled %s, backpressure=%v, stall=%v", n, order, bp, stall)
								},
									func() (string, string) {
										return hl.Single(func() (string, string) { return manySubs(kind, n, order, bp, stall) })
									}) {
									return
								}
							}
						}
					}
				}
			}})
		}
		var subs []sub
		for _, k := range []string{"Value", "Collection", "PullID"} {
			for _, bp := range []bool{false, true} {
				for _, upd := range []bool{false, true} {
					for _, r := range []int{-1, 0, 1} {
						subs = append(subs, sub{kind: k, bp: bp, upd: upd, reads: r})
					}
				}
			}
		}
		for _, s := range subs {
			for _, how := range []string{"before", "after", "race", "deadline"} {
				b := 3
				if how == "deadline" {
					b = 1
				}
				add(fmt.Sprintf("alone/%v/%s", s, how), b, b+2, alone(s, how))
			}
			ws := []string{"a", "a"}
			if s.kind == "Value" {
				ws = []string{"Value", "Value"}
			}
			add(fmt.Sprintf("cancel/%v/w2", s), 2, 4, cancelAny(s, nil, ws, 0))
			if s.kind != "Value" {
				add(fmt.Sprintf("cancel/%v/del", s), 2, 4, cancelAny(s, nil, []string{"del", "b"}, 0))
			}
			if s.reads != -1 {
				add(fmt.Sprintf("deadline/%v", s), 1, 3, cancelAny(s, nil, []string{ws[0], ws[0], ws[0], ws[0]}, 2*time.Second))
			}
			eager := sub{kind: s.kind, bp: true, reads: -1}
			lossy := sub{kind: s.kind, reads: -1}
			idle := sub{kind: s.kind, reads: 0}
			add(fmt.Sprintf("cancel3/%v", s), 1, 3, cancelAny(s, []sub{eager, lossy}, ws, 0))
			add(fmt.Sprintf("cancel4/%v", s), 1, 2, cancelAny(s, []sub{eager, idle, lossy}, ws, 0))
			add(fmt.Sprintf("cancel9/%v", s), 0, 1, cancelAny(s, []sub{eager, idle, lossy, eager, idle, lossy, eager, lossy}, ws, 0))
			if s.kind == "PullID" {
				for n := 1; n <= 2; n++ {
					for i, ws := range [][]string{{"del"}, {"a", "del"}, {"b", "del"}, {"a", "a", "del", "b"}, {"del", "a"}} {
						if i == 4 && !s.bp || s.reads >= 0 && s.bp {
							continue // a lossy subscription may replace; a stopped consumer holds up writers
						}
						add(fmt.Sprintf("removed/%v,n=%d,script=%d", s, n, i), 3-n, 5-n, removed(s, n, ws))
					}
				}
			}
		}
		for senders := 0; senders <= 2; senders++ {
			for sends := 1; sends <= 2; sends++ {
				for l := 1; l <= 3; l++ {
					for cancels := 0; cancels <= 1 && cancels <= l; cancels++ {
						for _, late := range []bool{false, true} {
							if late && cancels >= l {
								continue
							}
							for stop := 0; stop <= 1; stop++ {
								if stop == 1 && (cancels > 0 || late && l == 1) {
									continue
								}
								b := 3
								if senders*l > 2 {
									b = 2
								}
								if senders*l*sends > 6 {
									b = 1
								}
								add(fmt.Sprintf("bus/senders=%d,sends=%d,listeners=%d,late=%v,cancels=%d,stop=%d", senders, sends, l, late, cancels, stop), b, b+2, bus(senders, sends, l, late, cancels, stop))
							}
						}
					}
				}
			}
		}
		for _, how := range []string{"deadline", "cancel", "race", "cancelled"} {
			for st := 0; st < 3; st++ {
				add(fmt.Sprintf("sendCtx/%s,stalled=%d", how, st), 2, 3, sendCtx(how, st))
			}
		}
		for n := 0; n <= 3; n++ {
			for r := -1; r <= 2; r++ {
				add(fmt.Sprintf("dropExcess/n=%d,reads=%d", n, r), 4, 8, dropExcess(n, r))
			}
		}
		for _, mm := range tm.Models() {
			for _, method := range tm.PullMethods(mm.New()) {
				for _, upd := range []bool{false, true} {
					for _, bp := range []bool{false, true} {
						opts := []resource.ReadOption{resource.WithUpdatesOnly(upd), resource.WithBackpressure(bp)}
						for reads := -1; reads <= 1; reads++ {
							if reads == -1 || !bp {
								add(fmt.Sprintf("model/%s.%s/upd=%v,bp=%v,reads=%d", mm.Name, method, upd, bp, reads), 1, 2, model(mm, method, opts, reads, 2, false))
							}
							if !bp {
								add(fmt.Sprintf("modelrace/%s.%s/upd=%v,bp=%v,reads=%d", mm.Name, method, upd, bp, reads), 2, 3, model(mm, method, opts, reads, 1, true))
							}
						}
					}
				}
			}
		}
		_ = rm.Evs
		_ = strings.Join
		return
	})
}
