package main

import (
	"context"
	"fmt"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"google.golang.org/protobuf/proto"
)

type elEvent = traits.EnterLeaveEvent

const (
	enter = traits.EnterLeaveEvent_ENTER
	leave = traits.EnterLeaveEvent_LEAVE
)

// elNext is the specification of creating an event.
func elNext(cur, ev *elEvent) *elEvent {
	n := proto.Clone(ev).(*elEvent)
	total := func(given *int32, cur int32, inc bool) *int32 {
		if given != nil && *given != cur {
			return proto.Int32(*given)
		}
		if inc {
			cur++
		}
		return &cur
	}
	n.EnterTotal = total(ev.EnterTotal, cur.GetEnterTotal(), ev.Direction == enter)
	n.LeaveTotal = total(ev.LeaveTotal, cur.GetLeaveTotal(), ev.Direction == leave)
	return n
}

func elSame(a, b *elEvent) bool {
	return a.GetEnterTotal() == b.GetEnterTotal() && a.GetLeaveTotal() == b.GetLeaveTotal() && a.Direction == b.Direction && proto.Equal(a.Occupant, b.Occupant)
}

// elSeq runs events (by index, -1 for a reset); the same message is passed each time an index occurs.
func elSeq(init *elEvent, events []*elEvent, w []int, viaServer, fresh bool) (string, string) {
	var opts []resource.Option
	cur := &elEvent{}
	if init != nil {
		opts = append(opts, enterleavesensorpb.WithInitialEnterLeaveEvent(proto.Clone(init).(*elEvent)))
		cur = init
	}
	m := enterleavesensorpb.NewModel(opts...)
	srv := enterleavesensorpb.NewModelServer(m)
	got, _ := m.GetEnterLeaveEvent()
	if !elSame(got, cur) {
		return "", fmt.Sprintf("enterleave-initial: %v, want %v", got, cur)
	}
	msgs := make([]*elEvent, len(events))
	for i := range events {
		msgs[i] = proto.Clone(events[i]).(*elEvent)
	}
	for i, x := range w {
		var want *elEvent
		var err error
		if x == len(events) {
			want = proto.Clone(cur).(*elEvent)
			want.EnterTotal, want.LeaveTotal = proto.Int32(0), proto.Int32(0)
			if viaServer {
				_, err = srv.ResetEnterLeaveTotals(context.Background(), &traits.ResetEnterLeaveTotalsRequest{})
			} else {
				err = m.ResetTotals()
			}
		} else {
			want = elNext(cur, events[x])
			ev := msgs[x]
			if fresh {
				ev = proto.Clone(events[x]).(*elEvent)
			}
			err = m.CreateEnterLeaveEvent(ev)
		}
		hl.Step(1)
		if err != nil {
			return "", fmt.Sprintf("enterleave-error: step %d: %v", i, err)
		}
		got, err = srv.GetEnterLeaveEvent(context.Background(), &traits.GetEnterLeaveEventRequest{})
		if err != nil || !elSame(got, want) {
			what := "a reset"
			if x < len(events) {
				what = fmt.Sprint(events[x])
			}
			return "", fmt.Sprintf("enterleave: step %d: %s after %v gave %v, want %v", i, what, cur, got, want)
		}
		cur = want
	}
	return fmt.Sprint(cur), ""
}

func enterLeave(s *scenarios) {
	occ := &traits.EnterLeaveEvent_Occupant{Name: "o"}
	events := []*elEvent{
		{Direction: enter},
		{Direction: leave, Occupant: occ},
		{},
		{Direction: enter, EnterTotal: proto.Int32(2)},
		{Direction: leave, EnterTotal: proto.Int32(5), LeaveTotal: proto.Int32(0)},
		{Direction: enter, EnterTotal: proto.Int32(0), LeaveTotal: proto.Int32(1)},
	}
	for ii, in := range []*elEvent{nil, {EnterTotal: proto.Int32(3), LeaveTotal: proto.Int32(1), Direction: leave, Occupant: occ}, {}, {EnterTotal: proto.Int32(2)}} {
		s.enum(fmt.Sprintf("enterleave/%d", ii), 4, func(e *hl.E) {
			words(len(events)+1, hl.Pick(6, 7), func(w []int) bool {
				for k := 0; k < 2; k++ {
					if !e.Case(func() string { return fmt.Sprintf("from %v %v fresh=%v", in, w, k == 1) }, func() (string, string) {
						return elSeq(in, events, w, k == 1, k == 1)
					}) {
						return false
					}
				}
				return true
			})
		})
	}
	race := func(dirs [][]traits.EnterLeaveEvent_Direction, shared bool) vrt.Body {
		return func() (string, string) {
			m := enterleavesensorpb.NewModel()
			var in, out int32
			var bad error
			var fs []func()
			for _, p := range dirs {
				fs = append(fs, func() {
					for _, d := range p {
						err := m.CreateEnterLeaveEvent(&elEvent{Direction: d})
						switch {
						case err == nil && d == enter:
							in++
						case err == nil && d == leave:
							out++
						case err != nil && !lost(err):
							bad = err
						}
					}
				})
			}
			par(fs...)
			got, _ := m.GetEnterLeaveEvent()
			if bad != nil {
				return "", "enterleave-race: " + bad.Error()
			}
			if got.GetEnterTotal() != in || got.GetLeaveTotal() != out {
				return "", fmt.Sprintf("enterleave-race: %d entered and %d left, the totals are %v", in, out, got)
			}
			return fmt.Sprint(in, out), ""
		}
	}
	type ds = []traits.EnterLeaveEvent_Direction
	s.conc("enterleave/race/2", 3, 5, race([]ds{{enter, enter}, {enter, leave}}, false))
	s.conc("enterleave/race/3", 2, 3, race([]ds{{enter}, {enter}, {leave, enter}}, false))
	s.conc("enterleave/race/reset", 3, 5, func() (string, string) {
		m := enterleavesensorpb.NewModel(enterleavesensorpb.WithInitialEnterLeaveEvent(&elEvent{EnterTotal: proto.Int32(5), LeaveTotal: proto.Int32(5)}))
		var e1, e2 error
		par(func() { e1 = m.CreateEnterLeaveEvent(&elEvent{Direction: enter}) }, func() { e2 = m.ResetTotals() })
		got, _ := m.GetEnterLeaveEvent()
		g := fmt.Sprint(got.GetEnterTotal(), got.GetLeaveTotal())
		ok := false
		switch {
		case e1 == nil && e2 == nil:
			ok = g == "0 0" || g == "1 0"
		case e1 == nil:
			ok = g == "6 5" && lost(e2)
		case e2 == nil:
			ok = g == "0 0" && lost(e1)
		}
		if !ok {
			return "", fmt.Sprintf("enterleave-race: an enter (%v) and a reset (%v) from 5 5 gave %s", e1, e2, g)
		}
		return g, ""
	})
}
