package main

import (
	"fmt"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type reading = traits.MeterReading

func ts(d time.Duration) *timestamppb.Timestamp { return timestamppb.New(epoch.Add(d)) }

func meterSeq(init *reading, w []int) (string, string) {
	c := &clk{epoch}
	opts := []resource.Option{resource.WithClock(c)}
	if init != nil {
		opts = append(opts, resource.WithInitialValue(proto.Clone(init)))
	}
	m := meterpb.NewModel(opts...)
	cur, _ := m.GetMeterReading()
	fail := func(what string, got *reading, err error, want any) (string, string) {
		return "", fmt.Sprintf("meter: from %v %v at %v: %s gave %v, %v, want %v", init, w, c.now, what, got, err, want)
	}
	if init == nil {
		init = &reading{}
	}
	if cur.Usage != init.Usage || init.StartTime != nil && !proto.Equal(cur.StartTime, init.StartTime) || init.EndTime != nil && !proto.Equal(cur.EndTime, init.EndTime) {
		return fail("configuration", cur, nil, init)
	}
	ordered := func(r *reading) bool {
		return r.StartTime != nil && r.EndTime != nil && !r.StartTime.AsTime().After(r.EndTime.AsTime())
	}
	if !ordered(cur) {
		return fail("configuration", cur, nil, "start before end")
	}
	var fixed = cur
	for _, x := range w {
		c.now = c.now.Add(time.Minute)
		now := timestamppb.New(c.now)
		want := proto.Clone(fixed).(*reading)
		var got *reading
		var err error
		what := ""
		switch x {
		case 0, 1, 2:
			v := []float32{0, 3, 7.5}[x]
			what = fmt.Sprint("recording ", v)
			got, err = m.RecordReading(v)
			want.Usage, want.EndTime = v, now
		case 3:
			what = "reset"
			got, err = m.Reset()
			want = &reading{StartTime: now, EndTime: now}
		case 4:
			what = "updating usage"
			got, err = m.UpdateMeterReading(&reading{Usage: 9, StartTime: ts(time.Hour)}, resource.WithUpdatePaths("usage"))
			want.Usage = 9
		case 5:
			what = "updating"
			r := &reading{Usage: 1, StartTime: ts(-time.Hour), EndTime: now}
			got, err = m.UpdateMeterReading(proto.Clone(r).(*reading))
			want = r
		}
		hl.Step(1)
		after, _ := m.GetMeterReading()
		if err != nil || !proto.Equal(got, want) || !proto.Equal(after, want) {
			return fail(what, after, err, want)
		}
		if !ordered(after) {
			return fail(what, after, err, "start before end")
		}
		fixed = want
	}
	return fmt.Sprint(fixed), ""
}

func meter(s *scenarios) {
	inits := []*reading{nil}
	for _, u := range []float32{0, 4.5} {
		for _, st := range []*timestamppb.Timestamp{nil, ts(-2 * time.Hour), ts(0)} {
			for _, en := range []*timestamppb.Timestamp{nil, ts(-time.Hour), ts(0)} {
				if st != nil && en != nil && st.AsTime().After(en.AsTime()) {
					continue
				}
				inits = append(inits, &reading{Usage: u, StartTime: st, EndTime: en})
			}
		}
	}
	s.enum("meter", 4, func(e *hl.E) {
		for _, in := range inits {
			words(6, hl.Pick(5, 6), func(w []int) bool {
				return e.Case(func() string { return fmt.Sprint(in, w) }, func() (string, string) { return meterSeq(in, w) })
			})
		}
	})
	race := func(kinds ...string) vrt.Body {
		return func() (string, string) {
			c := &clk{epoch}
			m := meterpb.NewModel(resource.WithClock(c), resource.WithInitialValue(&reading{Usage: 5, StartTime: ts(-time.Hour), EndTime: ts(-time.Minute)}))
			c.now = epoch.Add(time.Minute)
			now := timestamppb.New(c.now)
			allowed := []*reading{}
			var fs []func()
			var bad error
			for i, k := range kinds {
				fs = append(fs, func() {
					var err error
					if k == "reset" {
						_, err = m.Reset()
					} else {
						_, err = m.RecordReading(float32(6 + i))
					}
					if err != nil && !lost(err) {
						bad = err
					}
				})
				if k == "reset" {
					allowed = append(allowed, &reading{StartTime: now, EndTime: now})
				} else {
					allowed = append(allowed, &reading{Usage: float32(6 + i), StartTime: ts(-time.Hour), EndTime: now})
					for _, k2 := range kinds {
						if k2 == "reset" {
							allowed = append(allowed, &reading{Usage: float32(6 + i), StartTime: now, EndTime: now})
						}
					}
				}
			}
			par(fs...)
			got, _ := m.GetMeterReading()
			if bad != nil {
				return "", "meter-race: " + bad.Error()
			}
			for _, a := range allowed {
				if proto.Equal(a, got) {
					return fmt.Sprint(got), ""
				}
			}
			return "", fmt.Sprintf("meter-race: %v gave %v", kinds, got)
		}
	}
	s.conc("meter/race/records", 3, 5, race("record", "record"))
	s.conc("meter/race/reset", 3, 5, race("record", "reset"))
	s.conc("meter/race/3", 2, 3, race("record", "reset", "record"))
}
