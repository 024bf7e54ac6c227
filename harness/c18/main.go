// C18: timeline algebra matches its mathematical meaning.
package main

import (
	"fmt"
	"math"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	tpb "github.com/smart-core-os/sc-api/go/types/time"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	sctime "github.com/smart-core-os/sc-golang/pkg/time"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb/segmentpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type (
	seg  = *traits.ElectricMode_Segment
	mode = *traits.ElectricMode
)

const unit = 1500 * time.Millisecond // so that seconds and nanos both matter
const half = unit / 2

// ---- timestamps and periods ----

func stamps() []*timestamppb.Timestamp {
	var r []*timestamppb.Timestamp
	for _, s := range []int64{-62135596800, -1 << 31, -5, -1, 0, 1, 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1 << 33, 253402300799} {
		for _, n := range []int32{0, 1, 2, 999999998, 999999999} {
			r = append(r, &timestamppb.Timestamp{Seconds: s, Nanos: n})
		}
	}
	return r
}

func sgn(a, b int) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func compareAll(e *hl.E) {
	ts := stamps() // ascending
	for i := range ts {
		for j := range ts {
			if !e.Case(func() string { return fmt.Sprintf("CompareAscending(%v, %v)", ts[i], ts[j]) }, func() (string, string) {
				a, b := proto.Clone(ts[i]).(*timestamppb.Timestamp), proto.Clone(ts[j]).(*timestamppb.Timestamp)
				got := sctime.CompareAscending(a, b)
				hl.Step(1)
				if got != sgn(i, j) {
					return "", fmt.Sprintf("compare: got %d, want %d", got, sgn(i, j))
				}
				if !proto.Equal(a, ts[i]) || !proto.Equal(b, ts[j]) {
					return "", "modified: the arguments were modified"
				}
				return fmt.Sprint(got), ""
			}) {
				return
			}
		}
	}
}

// periods over a grid of n instants; bound -1 is absent.
func periods(e *hl.E, at []*timestamppb.Timestamp) {
	n := len(at)
	mk := func(lo, hi int) *tpb.Period {
		p := &tpb.Period{}
		if lo >= 0 {
			p.StartTime = at[lo]
		}
		if hi >= 0 {
			p.EndTime = at[hi]
		}
		return p
	}
	// positions: instant i is at 2i+1, the gaps between instants are even
	lower := func(i int) int {
		if i < 0 {
			return math.MinInt32
		}
		return 2*i + 1
	}
	upper := func(i int) int {
		if i < 0 {
			return math.MaxInt32
		}
		return 2*i + 1
	}
	for a := -1; a < n; a++ {
		for b := -1; b < n; b++ {
			for c := -1; c < n; c++ {
				for d := -1; d < n; d++ {
					a, b, c, d := a, b, c, d
					if !e.Case(func() string { return fmt.Sprintf("[%d,%d) and [%d,%d)", a, b, c, d) }, func() (string, string) {
						p, q := mk(a, b), mk(c, d)
						p0, q0 := proto.Clone(p), proto.Clone(q)
						gi, gj := sctime.PeriodsIntersect(p, q), sctime.PeriodsIntersect(q, p)
						gc, gd := sctime.PeriodsConnected(p, q), sctime.PeriodsConnected(q, p)
						hl.Step(4)
						if !proto.Equal(p, p0) || !proto.Equal(q, q0) {
							return "", "modified: the arguments were modified"
						}
						if gi != gj || gc != gd {
							return "", fmt.Sprintf("symmetry: intersect %v/%v connected %v/%v", gi, gj, gc, gd)
						}
						wantI := false
						for x := 0; x <= 2*n; x++ { // does some instant lie in both?
							if lower(a) <= x && x < upper(b) && lower(c) <= x && x < upper(d) {
								wantI = true
							}
						}
						if gi != wantI {
							return "", fmt.Sprintf("intersect: got %v, want %v", gi, wantI)
						}
						if lower(a) > upper(b) || lower(c) > upper(d) {
							return "", "" // not a period
						}
						wantC := false
						for x := 0; x <= 2*n; x++ { // is some cut enclosed by both?
							if lower(a) <= x && x <= upper(b) && lower(c) <= x && x <= upper(d) {
								wantC = true
							}
						}
						if gc != wantC {
							return "", fmt.Sprintf("connected: got %v, want %v", gc, wantC)
						}
						return fmt.Sprint(gi, gc), ""
					}) {
						return
					}
				}
			}
		}
	}
	for _, f := range []func(a, b *tpb.Period) bool{sctime.PeriodsIntersect, sctime.PeriodsConnected} {
		f := f
		e.Case(func() string { return "nil" }, func() (string, string) {
			if f(nil, nil) || f(nil, mk(0, 1)) || f(mk(0, 1), nil) {
				return "", "nil: an absent period overlaps"
			}
			return "", ""
		})
	}
	e.Case(func() string { return "constructors" }, func() (string, string) {
		if !proto.Equal(sctime.AllTime(), mk(-1, -1)) || !proto.Equal(sctime.PeriodBetween(at[0], at[1]), mk(0, 1)) ||
			!proto.Equal(sctime.PeriodBefore(at[1]), mk(-1, 1)) || !proto.Equal(sctime.PeriodOnOrAfter(at[1]), mk(1, -1)) {
			return "", "constructors: wrong period"
		}
		return "", ""
	})
}

// ---- segments ----

// level of one segment list at an instant: the reference step function.
type level struct {
	m  float32 // magnitude
	f  float32 // fixed level
	ok bool
}

func fixed(s seg) float32 {
	if x, ok := s.GetShape().(*traits.ElectricMode_Segment_Fixed); ok {
		return x.Fixed
	}
	return s.GetMagnitude()
}

func eval(ss []seg, t time.Duration) (l level, idx int, before time.Duration) {
	if t < 0 {
		return level{}, 0, t
	}
	var start time.Duration
	for i, s := range ss {
		end := time.Duration(math.MaxInt64)
		if s.Length != nil {
			end = start + s.Length.AsDuration()
		}
		if start <= t && t < end {
			return level{s.Magnitude, fixed(s), true}, i, start
		}
		start = end
	}
	return level{}, len(ss), start
}

func total(ss []seg) (d time.Duration, inf bool) {
	for _, s := range ss {
		if s.Length == nil {
			return d, true
		}
		d += s.Length.AsDuration()
	}
	return d, false
}

func show(ss []seg) string {
	s := "["
	for _, x := range ss {
		l := "inf"
		if x.GetLength() != nil {
			l = fmt.Sprint(float64(x.Length.AsDuration()) / float64(unit))
		}
		f := ""
		if x.GetShape() != nil {
			f = fmt.Sprintf("~%v", fixed(x))
		}
		s += fmt.Sprintf("{%v%s x%s}", x.GetMagnitude(), f, l)
	}
	return s + "]"
}

// mkSeg: l < 0 is infinite, in units. fx is the fixed shape, NaN for none.
func mkSeg(m float32, l int, fx float32) seg {
	s := &traits.ElectricMode_Segment{Magnitude: m}
	if l >= 0 {
		s.Length = durationpb.New(time.Duration(l) * unit)
	}
	if fx == fx {
		s.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: fx}
	}
	return s
}

var none = float32(math.NaN())

// lists returns every well formed list of up to n segments.
func lists(n int, mags []float32, lens []int, shapes []float32) [][]seg {
	var finite, last []seg
	for _, m := range mags {
		for _, fx := range shapes {
			for _, l := range lens {
				finite = append(finite, mkSeg(m, l, fx))
			}
			last = append(last, mkSeg(m, -1, fx))
		}
	}
	r := [][]seg{nil}
	pre := [][]seg{nil}
	for i := 0; i < n; i++ {
		var next [][]seg
		for _, p := range pre {
			for _, s := range finite {
				x := append(append([]seg(nil), p...), s)
				next = append(next, x)
				r = append(r, x)
			}
			for _, s := range last {
				r = append(r, append(append([]seg(nil), p...), s))
			}
		}
		pre = next
	}
	return r
}

func cloneAll(ss []seg) []seg {
	r := make([]seg, len(ss))
	for i, s := range ss {
		r[i] = proto.Clone(s).(seg)
	}
	return r
}

func same(a, b []seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqSeg(a[i], b[i]) {
			return false
		}
	}
	return true
}

// eqSeg is a fast comparison of two segments.
func eqSeg(a, b seg) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Magnitude != b.Magnitude || (a.Length == nil) != (b.Length == nil) || (a.Shape == nil) != (b.Shape == nil) {
		return false
	}
	if a.Length != nil && (a.Length.Seconds != b.Length.Seconds || a.Length.Nanos != b.Length.Nanos) {
		return false
	}
	return a.Shape == nil || fixed(a) == fixed(b)
}

// pristine wraps a call and checks that its inputs are as they were.
func pristine(in [][]seg, f func() string) string {
	cp := make([][]seg, len(in))
	orig := make([][]seg, len(in))
	for i := range in {
		cp[i] = cloneAll(in[i])
		orig[i] = append([]seg(nil), in[i]...)
	}
	if r := f(); r != "" {
		return r
	}
	for i := range in {
		for j := range in[i] {
			if in[i][j] != orig[i][j] {
				return fmt.Sprintf("modified: argument list %d was modified", i)
			}
		}
		if !same(in[i], cp[i]) {
			return fmt.Sprintf("modified: argument %d was modified: %s, was %s", i, show(in[i]), show(cp[i]))
		}
	}
	return ""
}

var samples = func() []time.Duration {
	r := []time.Duration{-unit, -1}
	for t := time.Duration(0); t <= 16*half; t += half {
		r = append(r, t)
	}
	return append(r, unit-1, unit+1, 100*unit)
}()

// readers checks every operation that reads a list.
func readers(ss []seg) string {
	return pristine([][]seg{ss}, func() string {
		for _, t := range samples {
			want, idx, before := eval(ss, t)
			m, ok := segmentpb.MagnitudeAt(t, ss...)
			if m != want.m || ok != want.ok {
				return fmt.Sprintf("magnitude-at: MagnitudeAt(%v) = %v, %v, want %v, %v", t, m, ok, want.m, want.ok)
			}
			el, i := segmentpb.ActiveAt(t, ss...)
			if i != idx || (i < len(ss) || len(ss) > 0) && el != before {
				return fmt.Sprintf("active-at: ActiveAt(%v) = %v, %v, want %v, %v", t, el, i, before, idx)
			}
			gi := segmentpb.MaxAfter(t, ss...)
			if f := wantMax(ss, idx, gi); f != "" {
				return fmt.Sprintf("max-after: MaxAfter(%v) = %d: %s", t, gi, f)
			}
		}
		d, inf := segmentpb.Duration(ss...)
		wd, winf := total(ss)
		if d != wd || inf != winf {
			return fmt.Sprintf("duration: got %v, %v, want %v, %v", d, inf, wd, winf)
		}
		gi := segmentpb.Max(ss...)
		if f := wantMax(ss, 0, gi); f != "" {
			return fmt.Sprintf("max: Max = %d: %s", gi, f)
		}
		wm := float32(0)
		if gi < len(ss) {
			wm = ss[gi].Magnitude
		}
		if m := segmentpb.MaxMagnitude(ss...); m != wm {
			return fmt.Sprintf("max: MaxMagnitude = %v, want %v", m, wm)
		}
		var sum float32
		for _, s := range ss {
			sum += s.Magnitude
		}
		if m := segmentpb.SumMagnitude(ss...); m != sum {
			return fmt.Sprintf("sum-magnitude: got %v, want %v", m, sum)
		}
		return ""
	})
}

// wantMax: got must be a segment of maximal magnitude among the non-empty ones from index from on.
func wantMax(ss []seg, from, got int) string {
	best := float32(math.Inf(-1))
	any := false
	for i := from; i < len(ss); i++ {
		if ss[i].Length == nil || ss[i].Length.AsDuration() > 0 {
			any = true
			if ss[i].Magnitude > best {
				best = ss[i].Magnitude
			}
		}
	}
	if !any {
		if got != len(ss) {
			return fmt.Sprintf("there is no segment, want %d", len(ss))
		}
		return ""
	}
	if got < from || got >= len(ss) || ss[got].Magnitude != best || ss[got].Length != nil && ss[got].Length.AsDuration() <= 0 {
		return fmt.Sprintf("the maximum is %v", best)
	}
	return ""
}

func cutSeg(s seg, d time.Duration) string {
	return pristine([][]seg{{s}}, func() string {
		b, a, outside := segmentpb.Cut(d, s)
		one := []seg{s}
		var bs, as []seg
		if b != nil {
			bs = []seg{b}
		}
		if a != nil {
			as = []seg{a}
		}
		l, inf := total(one)
		if wantOut := d < 0 || !inf && d >= l; outside != wantOut && !(d == 0 && l == 0 && !inf) {
			return fmt.Sprintf("cut: Cut(%v, %s) outside=%v, want %v", d, show(one), outside, wantOut)
		}
		at := d
		if d < 0 {
			at = 0
		}
		for _, t := range samples {
			if t < 0 {
				continue
			}
			want, _, _ := eval(one, t)
			var got level
			if t < at {
				got, _, _ = eval(bs, t)
			} else {
				got, _, _ = eval(as, t-at)
				if x, _, _ := eval(bs, t); x.ok {
					return fmt.Sprintf("cut: Cut(%v, %s): the part before the cut %s reaches beyond it", d, show(one), show(bs))
				}
			}
			if got != want {
				return fmt.Sprintf("cut: Cut(%v, %s) = %s, %s: at %v it is %v, want %v", d, show(one), show(bs), show(as), t, got, want)
			}
		}
		return ""
	})
}

func shifted(ss []seg, d time.Duration) (out []seg, f string) {
	f = pristine([][]seg{ss}, func() string {
		out = segmentpb.Shift(d, ss...)
		for _, t := range samples {
			if t < 0 {
				continue
			}
			want, _, _ := eval(ss, t-d)
			got, _, _ := eval(out, t)
			if t < d {
				got.ok = want.ok // a level of zero or no level
			}
			if got != want {
				return fmt.Sprintf("shift: Shift(%v, %s) = %s: at %v it is %v, want %v", d, show(ss), show(out), t, got, want)
			}
		}
		return ""
	})
	return
}

// close allows for the rounding of adding float32s of total magnitude sum.
func close(got, want, sum float32) bool {
	return math.Abs(float64(got)-float64(want)) <= 1e-4+2.5e-7*float64(sum)
}

// summed checks Sum. exact: the magnitudes add up without rounding.
func summed(in [][]seg, exact bool) (out []seg, f string) {
	f = pristine(in, func() string {
		out = segmentpb.Sum(in...)
		var maxD time.Duration
		anyInf := false
		for _, ss := range in {
			d, inf := total(ss)
			if d > maxD {
				maxD = d
			}
			anyInf = anyInf || inf
		}
		for _, t := range samples {
			if t < 0 {
				continue
			}
			var want, mag float32
			for _, ss := range in {
				l, _, _ := eval(ss, t)
				want += l.m
				mag += float32(math.Abs(float64(l.m)))
			}
			got, _, _ := eval(out, t)
			if exact && got.m != want || !close(got.m, want, mag) {
				return fmt.Sprintf("sum: Sum(%s) = %s: at %v it is %v, want %v", showAll(in), show(out), t, got.m, want)
			}
		}
		d, inf := total(out)
		if inf && !anyInf || d > maxD {
			return fmt.Sprintf("sum: Sum(%s) = %s lasts longer than its parts", showAll(in), show(out))
		}
		for _, o := range out {
			for _, ss := range in {
				for _, s := range ss {
					if o == s {
						return "" // sharing is not modifying
					}
				}
			}
		}
		return ""
	})
	return
}

func showAll(in [][]seg) string {
	s := ""
	for _, x := range in {
		s += show(x)
	}
	return s
}

// ---- modes ----

var epoch = time.Date(2023, 1, 2, 3, 4, 5, 600, time.UTC)

func mkMode(st *time.Time, ss []seg) mode {
	m := &traits.ElectricMode{Id: "id", Title: "t", Description: "d", Voltage: 240, Normal: true, Segments: ss}
	if st != nil {
		m.StartTime = timestamppb.New(*st)
	}
	return m
}

// at evaluates a mode at an absolute time; without start time it starts at t0.
func at(m mode, t0, t time.Time) level {
	if m == nil {
		return level{}
	}
	st := t0
	if m.StartTime != nil {
		st = m.StartTime.AsTime()
	}
	l, _, _ := eval(m.Segments, t.Sub(st))
	return l
}

func showMode(m mode) string {
	if m == nil {
		return "nil"
	}
	st := "-"
	if m.StartTime != nil {
		st = fmt.Sprint(float64(m.StartTime.AsTime().Sub(epoch)) / float64(unit))
	}
	return st + show(m.Segments)
}

func meta(m mode) string {
	return fmt.Sprint(m.Id, m.Title, m.Description, m.Voltage, m.Normal)
}

func keeping(ms []mode, f func() string) string {
	cp := make([]mode, len(ms))
	for i, m := range ms {
		cp[i] = proto.Clone(m).(mode)
	}
	if r := f(); r != "" {
		return r
	}
	for i, m := range ms {
		if !proto.Equal(m, cp[i]) {
			return fmt.Sprintf("modified: the mode %s was modified, it was %s", showMode(m), showMode(cp[i]))
		}
	}
	return ""
}

// gridEnd is the last instant modes are evaluated at.
var gridEnd = 16

func modeReaders(m mode) string {
	return keeping([]mode{m}, func() string {
		for d := -3; d <= gridEnd-4; d++ {
			t := epoch.Add(time.Duration(d) * half)
			l := at(m, t, t)
			g, ok := modepb.MagnitudeAt(t, m)
			if g != l.m || ok != l.ok {
				return fmt.Sprintf("magnitude-at: MagnitudeAt(%d, %s) = %v, %v, want %v", d, showMode(m), g, ok, l)
			}
			st := t
			if m.StartTime != nil {
				st = m.StartTime.AsTime()
			}
			_, idx, el := eval(m.Segments, t.Sub(st))
			ge, gi := modepb.ActiveAt(t, m)
			if gi != idx || ge != el {
				return fmt.Sprintf("active-at: ActiveAt(%d, %s) = %v, %v, want %v, %v", d, showMode(m), ge, gi, el, idx)
			}
			mi := modepb.MaxSegmentAfter(t, m)
			if f := wantMax(m.Segments, idx, mi); f != "" {
				return fmt.Sprintf("max-after: MaxSegmentAfter(%d, %s) = %d: %s", d, showMode(m), mi, f)
			}
		}
		return ""
	})
}

func modeCut(m mode) string {
	return keeping([]mode{m}, func() string {
		for d := -3; d <= gridEnd-4; d++ {
			t := epoch.Add(time.Duration(d) * half)
			b, a, outside := modepb.Cut(t, m)
			st := t
			if m.StartTime != nil {
				st = m.StartTime.AsTime()
			}
			tot, inf := total(m.Segments)
			wantOut := t.Before(st) || !inf && !t.Before(st.Add(tot))
			if outside != wantOut && !(t.Equal(st) && len(m.Segments) > 0) {
				return fmt.Sprintf("cut: Cut(%d, %s) outside=%v, want %v", d, showMode(m), outside, wantOut)
			}
			for _, x := range []mode{b, a} {
				if x != nil && meta(x) != meta(m) {
					return fmt.Sprintf("cut: Cut(%d, %s) lost the mode's metadata", d, showMode(m))
				}
			}
			for q := -5; q <= gridEnd; q++ {
				x := epoch.Add(time.Duration(q) * half)
				want := at(m, t, x)
				var got, other level
				if x.Before(t) {
					got, other = at(b, t, x), at(a, t, x)
				} else {
					got, other = at(a, t, x), at(b, t, x)
				}
				if t.Before(st) || t.Equal(st) { // everything is after the cut
					got = at(a, t, x)
					other = at(b, t, x)
				}
				if got != want || other.ok {
					return fmt.Sprintf("cut: Cut(%d, %s) = %s, %s: at %d they are %v, %v, want %v", d, showMode(m), showMode(b), showMode(a), q, got, other, want)
				}
			}
		}
		return ""
	})
}

func modeShift(m mode) string {
	return keeping([]mode{m}, func() string {
		for d := -7; d <= 7; d++ {
			by := time.Duration(d) * half
			g := modepb.Shift(by, m)
			if meta(g) != meta(m) {
				return fmt.Sprintf("shift: Shift(%d, %s) lost the mode's metadata", d, showMode(m))
			}
			if (g.StartTime == nil) != (m.StartTime == nil) {
				return fmt.Sprintf("shift: Shift(%d, %s) = %s", d, showMode(m), showMode(g))
			}
			for q := -12; q <= gridEnd; q++ {
				x := epoch.Add(time.Duration(q) * half)
				if m.StartTime == nil && q < 0 {
					continue
				}
				want := at(m, epoch, x.Add(-by))
				got := at(g, epoch, x)
				if m.StartTime == nil && x.Sub(epoch) < by {
					got.ok = want.ok
				}
				if got != want {
					return fmt.Sprintf("shift: Shift(%d, %s) = %s: at %d it is %v, want %v", d, showMode(m), showMode(g), q, got, want)
				}
			}
		}
		return ""
	})
}

func modeSum(ms []mode, base time.Time, exact bool) string {
	return keeping(ms, func() string {
		g := modepb.Sum(ms...)
		if len(ms) == 0 {
			if g != nil {
				return "sum: the sum of nothing is something"
			}
			return ""
		}
		var first, last time.Time
		n := 0
		for _, m := range ms {
			if m.StartTime == nil {
				continue
			}
			t := m.StartTime.AsTime()
			if n == 0 || t.Before(first) {
				first = t
			}
			if n == 0 || t.After(last) {
				last = t
			}
			n++
		}
		lab := ""
		for _, m := range ms {
			lab += showMode(m) + " "
		}
		if g == nil || (g.StartTime == nil) != (n == 0) {
			return fmt.Sprintf("sum: Sum(%s) = %s: wrong start time", lab, showMode(g))
		}
		if n == 0 {
			first, last = base, base
		} else if !g.StartTime.AsTime().Equal(first) {
			return fmt.Sprintf("sum: Sum(%s) = %s: does not start at the earliest start time", lab, showMode(g))
		}
		for q := -6; q <= gridEnd; q++ {
			x := base.Add(time.Duration(q) * half)
			if x.Before(first) {
				if l := at(g, first, x); l.ok {
					return fmt.Sprintf("sum: Sum(%s) = %s has a level before its start", lab, showMode(g))
				}
				continue
			}
			var want, mag float32
			for _, m := range ms {
				l := at(m, last, x)
				want += l.m
				mag += float32(math.Abs(float64(l.m)))
			}
			got := at(g, first, x)
			if exact && got.m != want || !close(got.m, want, mag) {
				return fmt.Sprintf("sum: Sum(%s) = %s: at %d it is %v, want %v", lab, showMode(g), q, got.m, want)
			}
		}
		return ""
	})
}

func minAt(ms []mode) string {
	return keeping(ms, func() string {
		mp := map[string]mode{}
		for i, m := range ms {
			mp[fmt.Sprint(i)] = m
		}
		for d := -3; d <= gridEnd-4; d++ {
			t := epoch.Add(time.Duration(d) * half)
			g, v := modepb.MinAt(t, mp)
			if len(ms) == 0 {
				if g != nil {
					return "min-at: a mode out of nothing"
				}
				continue
			}
			best := float32(math.Inf(1))
			found := false
			for _, m := range ms {
				if l := at(m, t, t); l.m < best {
					best = l.m
				}
			}
			for _, m := range ms {
				if g == m && at(m, t, t).m == best {
					found = true
				}
			}
			if !found || v != best {
				return fmt.Sprintf("min-at: MinAt(%d) = %s, %v, want magnitude %v", d, showMode(g), v, best)
			}
		}
		return ""
	})
}

func scenarios() []hl.Scenario {
	var r []hl.Scenario
	add := func(name string, shards int, f func(e *hl.E)) {
		r = append(r, hl.Scenario{Name: name, Shards: shards, Enum: f})
	}
	add("compare", 1, compareAll)
	add("periods/small", 1, func(e *hl.E) {
		periods(e, []*timestamppb.Timestamp{{Seconds: -1, Nanos: 999999999}, {Seconds: 5}, {Seconds: 5, Nanos: 1}, {Seconds: 6}})
	})
	add("periods/large", 4, func(e *hl.E) {
		periods(e, []*timestamppb.Timestamp{{Seconds: -62135596800}, {Seconds: -1}, {}, {Nanos: 1}, {Seconds: 1 << 31}, {Seconds: 1<<32 + 1}, {Seconds: 253402300799, Nanos: 999999999}})
	})
	mags := []float32{0, 1, 2, -1}
	lens := []int{0, 1, 2}
	big := func() [][]seg { return lists(3, mags, lens, []float32{none}) }
	shaped := func() [][]seg { return lists(hl.Pick(2, 3), []float32{0, 1}, lens, []float32{none, 0, 3}) }
	for i, mk := range []func() [][]seg{big, shaped} {
		name, mk := []string{"big", "shaped"}[i], mk
		add("lists/"+name, 8, func(e *hl.E) {
			for _, ss := range mk() {
				ss := ss
				if !e.Case(func() string { return show(ss) }, func() (string, string) {
					hl.State(show(ss))
					if f := readers(ss); f != "" {
						return "", f
					}
					for d := -8; d <= 8; d++ {
						out, f := shifted(ss, time.Duration(d)*half)
						if f != "" {
							return "", f
						}
						if f := readers(out); f != "" {
							return "", fmt.Sprintf("after-shift: %s after Shift(%d): %s", show(out), d, f)
						}
						hl.Step(2)
					}
					return show(ss), ""
				}) {
					return
				}
			}
		})
	}
	add("cut", 1, func(e *hl.E) {
		for _, ss := range lists(1, mags, []int{0, 1, 2, 3}, []float32{none, 0, 3}) {
			for d := -3; d <= 8; d++ {
				if len(ss) == 0 {
					continue
				}
				ss, d := ss, d
				e.Case(func() string { return fmt.Sprintf("%s at %d", show(ss), d) }, func() (string, string) {
					hl.Step(1)
					return show(ss), cutSeg(ss[0], time.Duration(d)*half)
				})
			}
		}
	})
	add("sum/pairs", 8, func(e *hl.E) {
		a := big()
		b := lists(hl.Pick(2, 3), mags, lens, []float32{none})
		for _, x := range a {
			for _, y := range b {
				x, y := x, y
				if !e.Case(func() string { return show(x) + show(y) }, func() (string, string) {
					hl.Step(1)
					_, f := summed([][]seg{x, y}, true)
					return "", f
				}) {
					return
				}
			}
		}
	})
	add("sum/triples", 8, func(e *hl.E) {
		a := lists(2, []float32{0, 1, -1}, hl.Pick([]int{0, 1}, lens), []float32{none})
		for _, x := range a {
			for _, y := range a {
				for _, z := range a {
					x, y, z := x, y, z
					if !e.Case(func() string { return show(x) + show(y) + show(z) }, func() (string, string) {
						hl.Step(1)
						_, f := summed([][]seg{x, y, z}, true)
						return "", f
					}) {
						return
					}
				}
			}
		}
	})
	add("sum/rounding", 8, func(e *hl.E) {
		a := lists(2, []float32{0.1, 0.2, 0.7, 1e6}, []int{1, 2}, []float32{none})
		for _, x := range a {
			for _, y := range a {
				for k := 0; k < len(a); k += hl.Pick(7, 1) {
					x, y, z := x, y, a[k]
					if !e.Case(func() string { return show(x) + show(y) + show(z) }, func() (string, string) {
						hl.Step(2)
						if _, f := summed([][]seg{x, y}, false); f != "" {
							return "", f
						}
						_, f := summed([][]seg{x, y, z}, false)
						return "", f
					}) {
						return
					}
				}
			}
		}
	})
	// sequences of operations on one list, the result of each feeding the next
	add("sequences", 8, func(e *hl.E) {
		small := lists(2, []float32{0, 1, 2}, []int{1, 2}, []float32{none})
		type op struct {
			name string
			f    func(ss []seg) ([]seg, string)
		}
		var ops []op
		for _, d := range []int{-3, -2, -1, 1, 2, 3} {
			d := time.Duration(d) * half
			ops = append(ops, op{fmt.Sprint("shift", d), func(ss []seg) ([]seg, string) { return shifted(ss, d) }})
		}
		for _, o := range [][]seg{{mkSeg(1, 1, none)}, {mkSeg(0, 1, none), mkSeg(3, 2, none)}, {mkSeg(2, -1, none)}, {mkSeg(-1, 2, none)}} {
			o := o
			ops = append(ops, op{"sum" + show(o), func(ss []seg) ([]seg, string) { return summed([][]seg{ss, o}, true) }})
		}
		ops = append(ops, op{"double", func(ss []seg) ([]seg, string) { return summed([][]seg{ss, ss}, true) }})
		depth := hl.Pick(3, 4)
		for _, s0 := range small {
			var rec func(k int, path []int)
			rec = func(k int, path []int) {
				if k == depth {
					p := append([]int(nil), path...)
					e.Case(func() string { return fmt.Sprint(show(s0), p) }, func() (string, string) {
						cur := s0
						var seen [][]seg
						var was [][]seg
						for _, i := range p {
							next, f := ops[i].f(cur)
							hl.Step(1)
							if f != "" {
								return "", f
							}
							seen = append(seen, cur)
							was = append(was, cloneAll(cur))
							cur = next
						}
						for i := range seen {
							if !same(seen[i], was[i]) {
								return "", fmt.Sprintf("modified: the list %s turned into %s", show(was[i]), show(seen[i]))
							}
						}
						hl.State(show(cur))
						return show(cur), readers(cur)
					})
					return
				}
				for i := range ops {
					if e.Stopped() {
						return
					}
					rec(k+1, append(path, i))
				}
			}
			rec(0, nil)
		}
	})
	starts := func() []*time.Time {
		t0, t1, t2, t3 := epoch, epoch.Add(unit), epoch.Add(-half), epoch.Add(3*unit)
		return []*time.Time{nil, &t0, &t1, &t2, &t3}
	}
	add("modes/single", 8, func(e *hl.E) {
		for _, ss := range lists(hl.Pick(2, 3), []float32{0, 1, 2}, lens, []float32{none, 3}) {
			for _, st := range starts() {
				m := mkMode(st, ss)
				if !e.Case(func() string { return showMode(m) }, func() (string, string) {
					hl.State(showMode(m))
					hl.Step(60)
					for _, f := range []func(mode) string{modeReaders, modeCut, modeShift} {
						if r := f(m); r != "" {
							return "", r
						}
					}
					return showMode(m), modeSum([]mode{m}, epoch, true)
				}) {
					return
				}
			}
		}
	})
	add("modes/pairs", 8, func(e *hl.E) {
		var ms []mode
		for _, ss := range lists(2, []float32{0, 1}, []int{1, 2}, []float32{none}) {
			for _, st := range starts() {
				ms = append(ms, mkMode(st, ss))
			}
		}
		for _, a := range ms {
			for _, b := range ms {
				a, b := a, b
				if !e.Case(func() string { return showMode(a) + " " + showMode(b) }, func() (string, string) {
					hl.Step(2)
					if f := modeSum([]mode{a, b}, epoch, true); f != "" {
						return "", f
					}
					return "", minAt([]mode{a, b})
				}) {
					return
				}
			}
		}
	})
	add("modes/triples", 8, func(e *hl.E) {
		var ms []mode
		ls := lists(1, []float32{0, 1, -2}, hl.Pick([]int{2}, []int{1, 2}), []float32{none})
		ls = append(ls, []seg{mkSeg(1, 1, none), mkSeg(2, 1, none)})
		for _, ss := range ls {
			for _, st := range starts() {
				ms = append(ms, mkMode(st, ss))
			}
		}
		e.Case(func() string { return "none" }, func() (string, string) { return "", modeSum(nil, epoch, true) + minAt(nil) })
		for _, a := range ms {
			for _, b := range ms {
				for _, c := range ms {
					a, b, c := a, b, c
					if !e.Case(func() string { return showMode(a) + " " + showMode(b) + " " + showMode(c) }, func() (string, string) {
						hl.Step(2)
						if f := modeSum([]mode{a, b, c}, epoch, true); f != "" {
							return "", f
						}
						return "", minAt([]mode{a, b, c})
					}) {
						return
					}
				}
			}
		}
	})
	// start times around the zero time of the time package and around the epoch
	for i, base := range []time.Time{{}, time.Unix(0, 0)} {
		name, base := []string{"zero", "unix"}[i], base
		add("modes/base-"+name, 1, func(e *hl.E) {
			var ms []mode
			t0, t1 := base, base.Add(unit)
			for _, ss := range [][]seg{{mkSeg(1, 1, none)}, {mkSeg(2, 2, none)}, {mkSeg(0, 1, none), mkSeg(4, -1, none)}} {
				for _, st := range []*time.Time{nil, &t0, &t1} {
					ms = append(ms, mkMode(st, ss))
				}
			}
			for _, a := range ms {
				for _, b := range ms {
					for _, c := range ms {
						a, b, c := a, b, c
						e.Case(func() string { return showMode(a) + " " + showMode(b) + " " + showMode(c) }, func() (string, string) {
							hl.Step(1)
							return "", modeSum([]mode{a, b, c}, base, true)
						})
					}
				}
			}
		})
	}
	// many segments, and many lists and modes
	type pattern struct {
		name string
		ms   []float32
		ls   []int
		inf  bool
	}
	var pats []pattern
	for _, ms := range [][]float32{{1}, {0, 1}, {1, 1, 2}, {3, 0, -1}, {1, 2, 3, 4, 5}} {
		for _, ls := range [][]int{{1}, {1, 2}, {2, 1, 1}, {0, 1}, {1, 0, 0, 2}} {
			for _, inf := range []bool{false, true} {
				pats = append(pats, pattern{fmt.Sprint(ms, ls, inf), ms, ls, inf})
			}
		}
	}
	build := func(p pattern, n int) (ss []seg) {
		for i := 0; i < n; i++ {
			l := p.ls[i%len(p.ls)]
			if p.inf && i == n-1 {
				l = -1
			}
			ss = append(ss, mkSeg(p.ms[i%len(p.ms)], l, none))
		}
		return
	}
	// far extends the instants that are looked at to n units
	far := func(n int, f func() (string, string)) (string, string) {
		was, wasEnd := samples, gridEnd
		defer func() { samples, gridEnd = was, wasEnd }()
		samples = nil
		for d := -2; d <= 2*n+3; d++ {
			samples = append(samples, time.Duration(d)*half)
		}
		gridEnd = 2*n + 8
		return f()
	}
	length := func(ss []seg) int {
		d, _ := total(ss)
		return int(d/unit) + 1
	}
	sizes := hl.Pick([]int{5, 8, 17, 33}, []int{5, 8, 9, 16, 17, 33, 65, 100})
	add("many/segments", 8, func(e *hl.E) {
		for _, n := range sizes {
			for _, p := range pats {
				ss := build(p, n)
				if !e.Case(func() string { return fmt.Sprint(n, " segments ", p.name) }, func() (string, string) {
					return far(length(ss), func() (string, string) {
						if f := readers(ss); f != "" {
							return "", f
						}
						for d := -2*length(ss) - 2; d <= 2*length(ss)+2; d += max(1, n/8) {
							if _, f := shifted(ss, time.Duration(d)*half); f != "" {
								return "", f
							}
							hl.Step(2)
						}
						return "", ""
					})
				}) {
					return
				}
			}
		}
	})
	add("many/lists", 8, func(e *hl.E) {
		for _, n := range sizes {
			for i, p := range pats {
				for j, q := range pats {
					if (i+j)%3 != 0 && !hl.Thorough() {
						continue
					}
					for _, k := range []int{2, 3, 9} {
						// k lists of n segments that differ in how they are rotated
						if !e.Case(func() string { return fmt.Sprint(k, " lists of ", n, " segments ", p.name, q.name) }, func() (string, string) {
							var in [][]seg
							end := 1
							for x := 0; x < k; x++ {
								y := p
								if x%2 == 1 {
									y = q
								}
								ss := build(y, n+x%3)
								end = max(end, length(ss))
								in = append(in, ss)
							}
							return far(end, func() (string, string) {
								hl.Step(1)
								_, f := summed(in, true)
								return "", f
							})
						}) {
							return
						}
					}
				}
			}
		}
	})
	add("many/modes", 8, func(e *hl.E) {
		for _, n := range hl.Pick([]int{5, 8, 17}, sizes) {
			for i, p := range pats {
				for si, st := range starts() {
					if !e.Case(func() string { return fmt.Sprint(n, " segments ", p.name, " start ", si) }, func() (string, string) {
						ss := build(p, n)
						m := mkMode(st, ss)
						return far(length(ss)+3, func() (string, string) {
							for _, f := range []func(mode) string{modeReaders, modeCut, modeShift} {
								if r := f(m); r != "" {
									return "", r
								}
								hl.Step(60)
							}
							ms := []mode{m}
							for k := 1; k < 12; k++ {
								ms = append(ms, mkMode(starts()[(si+k)%5], build(pats[(i+k)%len(pats)], 1+k%n)))
								if k == 1 || k == 4 || k == 11 {
									if f := modeSum(ms, epoch, true); f != "" {
										return "", f
									}
									if f := minAt(ms); f != "" {
										return "", f
									}
								}
							}
							return "", ""
						})
					}) {
						return
					}
				}
			}
		}
	})
	return r
}

func main() { hl.Main("C18", scenarios) }
