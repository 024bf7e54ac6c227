package main

import (
	"fmt"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	scpb "github.com/smart-core-os/sc-api/go/types/time"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// register is one resource a server exposes.
type register struct {
	name     string
	services []string
	res      proto.Message
	mk       func() (server, model any)

	get, update, pull string
	// write updates through the model, for traits without an update method.
	write func(model any, body proto.Message, opts ...resource.WriteOption) (proto.Message, error)

	keyField, key string // for resources that are one of many
	setKey        func(m proto.Message, key string)
	id            func(m proto.Message) string // for collections
	idPath        string

	domain    []proto.Message // meaningful values
	extra     []op            // other changes
	nested    []string        // more paths
	writeMask []string        // a useful mask
	oneName   bool            // the name is part of the state
	exclude   string

	seed        func(m proto.Message) // adjusts what initial events carry
	projectWith func(m proto.Message, mask rm.Mask) proto.Message
	answers     func(resp proto.Message) bool
	settle      func() // lets time pass after each operation

	ops      []op                       // the alphabet, for registers that only have histories
	withheld func(m proto.Message) bool // states that streams may not tell about
}

type pm = proto.Message
type wo = resource.WriteOption

func ms[T pm](vs ...T) (out []pm) {
	for _, v := range vs {
		out = append(out, v)
	}
	return
}

func wr[M any, T pm](f func(M, T, ...wo) (T, error)) func(any, pm, ...wo) (pm, error) {
	return func(m any, b pm, opts ...wo) (pm, error) {
		r, err := f(m.(M), b.(T), opts...)
		if err != nil {
			return nil, err
		}
		return r, nil
	}
}

func do[M any](label string, f func(m M) error) op {
	return local(label, func(m any) (pm, error) { return nil, f(m.(M)) })
}

func did[M any, T pm](label string, f func(m M) (T, error)) op {
	return local(label, func(m any) (pm, error) {
		r, err := f(m.(M))
		if err != nil {
			return nil, err
		}
		return r, nil
	})
}

func stamp(s int64) *timestamppb.Timestamp { return &timestamppb.Timestamp{Seconds: s} }
func celsius(c float64) *types.Temperature { return &types.Temperature{ValueCelsius: c} }
func i32(i int32) *int32                   { return &i }

func self[S any](s S) (any, any) { return s, s }

var lightPresets = []resource.Option{
	lightpb.WithPreset(25, &traits.LightPreset{Name: "dim", Title: "Dim"}),
	lightpb.WithPreset(75, &traits.LightPreset{Name: "bright", Title: "Bright"}),
}

func percent(p float32) *traits.EnergyLevel_Quantity {
	return &traits.EnergyLevel_Quantity{Percentage: p}
}

func pos(d traits.OpenClosePosition_Direction, p float32) *traits.OpenClosePosition {
	return &traits.OpenClosePosition{Direction: d, OpenPercent: p}
}

func positions(ps ...*traits.OpenClosePosition) *traits.OpenClosePositions {
	return &traits.OpenClosePositions{States: ps}
}

const up, down = traits.OpenClosePosition_UP, traits.OpenClosePosition_DOWN

// openCloseProject lets paths go through the repeated states.
func openCloseProject(m pm, k rm.Mask) pm {
	src := m.(*traits.OpenClosePositions)
	out := &traits.OpenClosePositions{}
	t := rm.MaskTree(k.Paths)
	if c, ok := t["states"]; ok {
		for _, s := range src.States {
			if len(c) > 0 {
				s = rm.Project(s, c).(*traits.OpenClosePosition)
			}
			out.States = append(out.States, s)
		}
	}
	delete(t, "states")
	proto.Merge(out, rm.Project(src, t))
	return out
}

func registers() []*register {
	openclose := func(name string, opts ...resource.Option) *register {
		return &register{name: name, services: []string{"openclosepb.OpenCloseApi"}, res: &traits.OpenClosePositions{},
			mk: func() (any, any) {
				m := openclosepb.NewModel(opts...)
				return openclosepb.NewModelServer(m), m
			},
			get: "GetPositions", update: "UpdatePositions", pull: "PullPositions",
			domain: ms(positions(pos(up, 25)), positions(pos(up, 50), pos(down, 75)), positions(pos(down, 100), pos(up, 100)),
				&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "open"}},
				&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "split"}},
				&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "none"}, States: []*traits.OpenClosePosition{pos(up, 10)}}),
			nested: []string{"states.open_percent", "states.direction", "preset.title"}, writeMask: []string{"states.open_percent"},
			projectWith: openCloseProject,
			extra: []op{do("one position", func(m *openclosepb.Model) error {
				_, err := m.UpdatePosition(pos(up, 33), resource.WithCreateIfAbsent())
				return err
			})},
		}
	}
	six := func(p float32) (out []*traits.OpenClosePosition) {
		for d := traits.OpenClosePosition_Direction(6); d > 0; d-- {
			out = append(out, pos(d, p))
		}
		return
	}
	openclosemany := openclose("openclosemany", openclosepb.WithInitialPositions(six(0)...),
		openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "open", Title: "Open"}, six(100)...),
		openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "split", Title: "Split"}, append(six(50)[:5], pos(up, 75))...))
	openclosemany.domain = ms(positions(pos(5, 25)), positions(six(100)...), positions(pos(12, 1), pos(9, 1)),
		&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "open"}},
		&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "split"}})
	openclosemany.extra = []op{do("one position", func(m *openclosepb.Model) error {
		_, err := m.UpdatePosition(pos(6, 33), resource.WithCreateIfAbsent())
		return err
	})}
	out := []*register{
		{name: "access", services: []string{"accesspb.AccessApi"}, res: &traits.AccessAttempt{},
			mk: func() (any, any) {
				m := accesspb.NewModel()
				return accesspb.NewModelServer(m), m
			},
			get: "GetLastAccessAttempt", pull: "PullAccessAttempts", write: wr((*accesspb.Model).UpdateLastAccessAttempt), writeMask: []string{"actor.name", "reason"},
		},
		{name: "airquality", services: []string{"airqualitysensorpb.AirQualitySensorApi"}, res: &traits.AirQuality{},
			mk: func() (any, any) {
				m := airqualitysensorpb.NewModel()
				return airqualitysensorpb.NewModelServer(m), m
			},
			get: "GetAirQuality", pull: "PullAirQuality", write: wr((*airqualitysensorpb.Model).UpdateAirQuality), writeMask: []string{"score", "comfort"},
		},
		{name: "airtemperature", services: []string{"airtemperaturepb.AirTemperatureApi"}, res: &traits.AirTemperature{},
			mk: func() (any, any) {
				m := airtemperaturepb.NewModel()
				return airtemperaturepb.NewModelServer(m), m
			},
			get: "GetAirTemperature", update: "UpdateAirTemperature", pull: "PullAirTemperature", writeMask: []string{"ambient_temperature.value_celsius", "mode"},
			domain: ms(&traits.AirTemperature{Mode: traits.AirTemperature_HEAT}, &traits.AirTemperature{TemperatureGoal: &traits.AirTemperature_TemperatureSetPoint{TemperatureSetPoint: celsius(30)}},
				&traits.AirTemperature{TemperatureGoal: &traits.AirTemperature_TemperatureRange{TemperatureRange: &traits.TemperatureRange{Low: celsius(10), High: celsius(20)}}}),
		},
		{name: "airtemperaturememory", services: []string{"airtemperaturepb.AirTemperatureApi"}, res: &traits.AirTemperature{},
			mk:  func() (any, any) { return self(airtemperaturepb.NewMemoryDevice()) },
			get: "GetAirTemperature", update: "UpdateAirTemperature", pull: "PullAirTemperature", writeMask: []string{"mode", "temperature_set_point"},
			domain: ms(&traits.AirTemperature{Mode: traits.AirTemperature_HEAT}, &traits.AirTemperature{TemperatureGoal: &traits.AirTemperature_TemperatureSetPoint{TemperatureSetPoint: celsius(30)}},
				&traits.AirTemperature{TemperatureGoal: &traits.AirTemperature_TemperatureRange{TemperatureRange: &traits.TemperatureRange{Low: celsius(10), High: celsius(20)}}}),
		},
		{name: "booking", services: []string{"bookingpb.BookingApi"}, res: &traits.Booking{},
			mk: func() (any, any) {
				m := bookingpb.NewModel(bookingpb.WithInitialBooking(&traits.Booking{Id: "a", Title: "0"}, &traits.Booking{Id: "b"}))
				return bookingpb.NewModelServer(m), m
			},
			get: "ListBookings", update: "UpdateBooking", pull: "PullBookings", writeMask: []string{"title", "booked.start_time"},
			id: func(m pm) string { return m.(*traits.Booking).Id }, idPath: "id", key: "a", setKey: func(m pm, k string) { m.(*traits.Booking).Id = k },
			domain: ms(&traits.Booking{Id: "a", Title: "x"}, &traits.Booking{Id: "b", Title: "y", Booked: &scpb.Period{StartTime: stamp(1)}}, &traits.Booking{Id: "zz"}, &traits.Booking{Title: "no id"}),
			extra: []op{
				rpc("CreateBooking", &traits.CreateBookingRequest{Booking: &traits.Booking{Id: "c", Title: "new"}}),
				rpc("CreateBooking", &traits.CreateBookingRequest{Booking: &traits.Booking{Id: "a", Title: "taken"}}),
				rpc("CheckInBooking", &traits.CheckInBookingRequest{BookingId: "a", Time: stamp(5)}),
				rpc("CheckOutBooking", &traits.CheckOutBookingRequest{BookingId: "a", Time: stamp(6)}),
				rpc("CheckInBooking", &traits.CheckInBookingRequest{BookingId: "zz"}),
			},
		},
		{name: "count", services: []string{"countpb.CountApi"}, res: &traits.Count{},
			mk:  func() (any, any) { return self(countpb.NewMemoryDevice()) },
			get: "GetCount", update: "UpdateCount", pull: "PullCounts", writeMask: []string{"added", "removed"},
			domain: ms(&traits.Count{Added: 3}, &traits.Count{Added: 1, Removed: 2}, &traits.Count{}),
			extra: []op{
				rpc("ResetCount", &traits.ResetCountRequest{ResetTime: stamp(9)}),
				rpc("ResetCount", &traits.ResetCountRequest{}),
			},
		},
		{name: "demand", services: []string{"electricpb.ElectricApi", "electricpb.MemorySettingsApi"}, res: &traits.ElectricDemand{},
			mk: func() (any, any) {
				m := electricpb.NewModel()
				return electricpb.NewModelServer(m), m
			},
			get: "GetDemand", update: "UpdateDemand", pull: "PullDemand", writeMask: []string{"current", "voltage"},
		},
		{name: "activemode", services: []string{"electricpb.ElectricApi", "electricpb.MemorySettingsApi"}, res: &traits.ElectricMode{},
			mk: func() (any, any) {
				m := electricpb.NewModel(electricpb.WithInitialMode(&traits.ElectricMode{Id: "n", Normal: true, Title: "N"}, &traits.ElectricMode{Id: "o", Title: "O"}))
				return electricpb.NewModelServer(m), m
			},
			get: "GetActiveMode", update: "UpdateActiveMode", pull: "PullActiveMode", writeMask: []string{"id"},
			domain: ms(&traits.ElectricMode{Id: "n"}, &traits.ElectricMode{Id: "o", Title: "ignored"}, &traits.ElectricMode{Id: "zz"}, &traits.ElectricMode{Title: "no id"}),
			extra:  []op{rpc("ClearActiveMode", &traits.ClearActiveModeRequest{})},
		},
		{name: "modes", services: []string{"electricpb.ElectricApi", "electricpb.MemorySettingsApi"}, res: &traits.ElectricMode{},
			mk: func() (any, any) {
				m := electricpb.NewModel(electricpb.WithInitialMode(&traits.ElectricMode{Id: "n", Normal: true, Title: "N"}, &traits.ElectricMode{Id: "o", Title: "O"}))
				return electricpb.NewModelServer(m), m
			},
			get: "ListModes", update: "UpdateMode", pull: "PullModes", writeMask: []string{"title", "voltage"},
			id: func(m pm) string { return m.(*traits.ElectricMode).Id }, idPath: "id", key: "n", setKey: func(m pm, k string) { m.(*traits.ElectricMode).Id = k },
			domain: ms(&traits.ElectricMode{Id: "n", Title: "x"}, &traits.ElectricMode{Id: "o", Normal: true}, &traits.ElectricMode{Id: "zz"}, &traits.ElectricMode{Title: "no id"}),
			extra: []op{
				rpc("CreateMode", &electricpb.CreateModeRequest{Mode: &traits.ElectricMode{Title: "new"}}),
				rpc("CreateMode", &electricpb.CreateModeRequest{Mode: &traits.ElectricMode{Normal: true}}),
				rpc("DeleteMode", &electricpb.DeleteModeRequest{Id: "o"}),
				rpc("DeleteMode", &electricpb.DeleteModeRequest{Id: "zz"}),
			},
		},
		{name: "emergency", services: []string{"emergencypb.EmergencyApi"}, res: &traits.Emergency{},
			mk:  func() (any, any) { return self(emergencypb.NewMemoryDevice()) },
			get: "GetEmergency", update: "UpdateEmergency", pull: "PullEmergency", writeMask: []string{"level", "reason"},
			domain: ms(&traits.Emergency{Level: traits.Emergency_WARNING, Reason: "r"}, &traits.Emergency{Level: traits.Emergency_EMERGENCY, Drill: true}, &traits.Emergency{Silent: true, LevelChangeTime: stamp(3)}),
		},
		{name: "energystorage", services: []string{"energystoragepb.EnergyStorageApi"}, res: &traits.EnergyLevel{},
			mk: func() (any, any) {
				m := energystoragepb.NewModel()
				return energystoragepb.NewModelServer(m), m
			},
			get: "GetEnergyLevel", pull: "PullEnergyLevel", write: wr((*energystoragepb.Model).UpdateEnergyLevel), writeMask: []string{"quantity.percentage", "charge"},
			domain: ms(&traits.EnergyLevel{Quantity: percent(50)}, &traits.EnergyLevel{Flow: &traits.EnergyLevel_Idle{Idle: &traits.EnergyLevel_Steady{StartTime: stamp(1)}}, PluggedIn: true}),
			extra: []op{
				rpc("Charge", &traits.ChargeRequest{Charge: true}),
				rpc("Charge", &traits.ChargeRequest{}),
			},
		},
		{name: "energystoragereadonly", services: []string{"energystoragepb.EnergyStorageApi"}, res: &traits.EnergyLevel{},
			mk: func() (any, any) {
				m := energystoragepb.NewModel(energystoragepb.WithInitialEnergyLevel(&traits.EnergyLevel{Quantity: percent(10)}))
				return energystoragepb.NewModelServer(m, energystoragepb.ReadOnly()), m
			},
			get: "GetEnergyLevel", pull: "PullEnergyLevel", writeMask: []string{"quantity"},
			extra: []op{
				rpc("Charge", &traits.ChargeRequest{Charge: true}),
				rpc("Charge", &traits.ChargeRequest{}),
			},
		},
		{name: "enterleave", services: []string{"enterleavesensorpb.EnterLeaveSensorApi"}, res: &traits.EnterLeaveEvent{},
			mk: func() (any, any) {
				m := enterleavesensorpb.NewModel()
				return enterleavesensorpb.NewModelServer(m), m
			},
			get: "GetEnterLeaveEvent", pull: "PullEnterLeaveEvents", writeMask: []string{"occupant"},
			seed: func(m pm) {
				// documented: the initial event is not an enter or leave event, it has no direction or occupant
				m.(*traits.EnterLeaveEvent).Direction = 0
				m.(*traits.EnterLeaveEvent).Occupant = nil
			},
			extra: []op{
				do("enter", func(m *enterleavesensorpb.Model) error {
					return m.CreateEnterLeaveEvent(&traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_ENTER, Occupant: &traits.EnterLeaveEvent_Occupant{Name: "x", Title: "X"}})
				}),
				do("leave", func(m *enterleavesensorpb.Model) error {
					return m.CreateEnterLeaveEvent(&traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_LEAVE})
				}),
				do("totals", func(m *enterleavesensorpb.Model) error {
					return m.CreateEnterLeaveEvent(&traits.EnterLeaveEvent{EnterTotal: i32(10), LeaveTotal: i32(4)})
				}),
				rpc("ResetEnterLeaveTotals", &traits.ResetEnterLeaveTotalsRequest{}),
			},
		},
	}
	for _, n := range []string{"fanspeed", "fanspeednopresets"} {
		var opts []resource.Option
		if n == "fanspeednopresets" {
			opts = append(opts, fanspeedpb.WithPresets(), fanspeedpb.WithInitialFanSpeed(&traits.FanSpeed{Percentage: 3}))
		}
		out = append(out, &register{name: n, services: []string{"fanspeedpb.FanSpeedApi"}, res: &traits.FanSpeed{},
			mk: func() (any, any) {
				m := fanspeedpb.NewModel(opts...)
				return fanspeedpb.NewModelServer(m), m
			},
			get: "GetFanSpeed", update: "UpdateFanSpeed", pull: "PullFanSpeed", writeMask: []string{"percentage", "direction"},
			domain: ms(&traits.FanSpeed{Percentage: 40}, &traits.FanSpeed{Preset: "high"}, &traits.FanSpeed{PresetIndex: 1}, &traits.FanSpeed{Percentage: 33, Direction: traits.FanSpeed_FORWARD}),
			extra: []op{
				rpc("ReverseFanSpeedDirection", &traits.ReverseFanSpeedDirectionRequest{}),
				rpc("UpdateFanSpeed", &traits.UpdateFanSpeedRequest{FanSpeed: &traits.FanSpeed{PresetIndex: 1}, Relative: true}),
				rpc("UpdateFanSpeed", &traits.UpdateFanSpeedRequest{FanSpeed: &traits.FanSpeed{Percentage: 5}, Relative: true}),
			}})
	}
	hail := func(n string) *register {
		return &register{name: n, services: []string{"hailpb.HailApi"}, res: &traits.Hail{},
			mk: func() (any, any) {
				m := hailpb.NewModel(hailpb.WithKeepAlive(-1), resource.WithInitialRecord("a", &traits.Hail{Id: "a", State: traits.Hail_CALLED}), resource.WithInitialRecord("b", &traits.Hail{Id: "b"}))
				return hailpb.NewModelServer(m), m
			},
			update: "UpdateHail", writeMask: []string{"state", "origin.name"}, key: "a", setKey: func(m pm, k string) { m.(*traits.Hail).Id = k },
			domain: ms(&traits.Hail{Id: "a", State: traits.Hail_BOARDING}, &traits.Hail{Id: "b", Destination: &traits.Hail_Location{Name: "x"}}, &traits.Hail{Id: "a", ArriveTime: stamp(4)}, &traits.Hail{Id: "zz"}, &traits.Hail{State: traits.Hail_CALLED}),
			extra: []op{
				rpc("CreateHail", &traits.CreateHailRequest{Hail: &traits.Hail{Id: "c"}}),
				rpc("CreateHail", &traits.CreateHailRequest{Hail: &traits.Hail{Id: "a"}}),
				rpc("CreateHail", &traits.CreateHailRequest{}),
				rpc("DeleteHail", &traits.DeleteHailRequest{Id: "a"}),
				rpc("DeleteHail", &traits.DeleteHailRequest{Id: "zz"}),
			},
		}
	}
	one := hail("hail")
	one.get, one.pull, one.keyField = "GetHail", "PullHail", "id"
	one.answers = func(r pm) bool { return r.(*traits.Hail).Id == "a" }
	many := hail("hails")
	many.get, many.pull, many.idPath, many.id = "ListHails", "PullHails", "id", func(m pm) string { return m.(*traits.Hail).Id }
	out = append(out, one, many)
	for _, n := range []string{"light", "lightpresets"} {
		var opts []resource.Option
		if n == "lightpresets" {
			opts = append(lightPresets, lightpb.WithInitialBrightness(&traits.Brightness{LevelPercent: 7}))
		}
		out = append(out, &register{name: n, services: []string{"lightpb.LightApi"}, res: &traits.Brightness{},
			mk: func() (any, any) {
				m := lightpb.NewModel(opts...)
				return lightpb.NewModelServer(m), m
			},
			get: "GetBrightness", update: "UpdateBrightness", pull: "PullBrightness", writeMask: []string{"preset.name", "level_percent"},
			domain: ms(&traits.Brightness{LevelPercent: 20}, &traits.Brightness{Preset: &traits.LightPreset{Name: "bright"}}, &traits.Brightness{LevelPercent: 60, TargetLevelPercent: 80}),
		})
	}
	tween := func(s int64) *types.Tween { return &types.Tween{TotalDuration: &durationpb.Duration{Seconds: s}} }
	lightmem := func(n string) *register {
		return &register{name: n, services: []string{"lightpb.LightApi"}, res: &traits.Brightness{},
			mk:  func() (any, any) { return self(lightpb.NewMemoryDevice()) },
			get: "GetBrightness", update: "UpdateBrightness", pull: "PullBrightness", writeMask: []string{"level_percent"},
			domain: ms(&traits.Brightness{LevelPercent: 20}, &traits.Brightness{LevelPercent: 60, BrightnessTween: tween(2)}, &traits.Brightness{LevelPercent: 150},
				&traits.Brightness{LevelPercent: 5, BrightnessTween: tween(0)}, &traits.Brightness{Preset: &traits.LightPreset{Name: "p"}}),
			extra: []op{rpc("UpdateBrightness", &traits.UpdateBrightnessRequest{Brightness: &traits.Brightness{LevelPercent: 10}, Delta: true}),
				rpc("UpdateBrightness", &traits.UpdateBrightnessRequest{Brightness: &traits.Brightness{LevelPercent: 10, BrightnessTween: tween(1)}, Delta: true})},
		}
	}
	tweened := lightmem("lightmemorytween")
	tweened.settle = func() { time.Sleep(3 * time.Second); vrt.Quiesce() }
	// time passes as an operation of its own, in the middle of ramps too
	sleep := func(d time.Duration) op {
		return op{label: "wait " + d.String(), do: func(*world) (pm, error) { time.Sleep(d); vrt.Quiesce(); return nil, nil },
			check: func(before, after view) string {
				if b := before[""].(*traits.Brightness); b.BrightnessTween == nil && !before.equal(after) {
					return fmt.Sprintf("nothing was ramping and yet {%v} turned into {%v}", before, after)
				}
				if a := after[""].(*traits.Brightness); d >= time.Second && a.BrightnessTween != nil {
					return fmt.Sprintf("the ramp didn't end: {%v}", after)
				}
				return ""
			}}
	}
	set := func(l float32, d time.Duration) op {
		b := &traits.Brightness{LevelPercent: l}
		if d > 0 {
			b.BrightnessTween = &types.Tween{TotalDuration: durationpb.New(d)}
		}
		return rpc("UpdateBrightness", &traits.UpdateBrightnessRequest{Brightness: b})
	}
	for _, exclude := range []string{"", "exclude_ramping"} {
		ramp := lightmem("lightmemoryramp" + exclude)
		ramp.ops = []op{set(40, 0), set(80, 50*time.Millisecond), set(20, 200*time.Millisecond), sleep(70 * time.Millisecond), sleep(time.Second)}
		if exclude != "" {
			ramp.exclude = exclude
			ramp.withheld = func(m pm) bool {
				p := m.(*traits.Brightness).GetBrightnessTween().GetProgress()
				return p != 0 && p != 100
			}
		}
		out = append(out, ramp)
	}
	out = append(out, lightmem("lightmemory"), tweened,
		&register{name: "metadata", services: []string{"metadatapb.MetadataApi"}, res: &traits.Metadata{},
			mk: func() (any, any) {
				m := metadatapb.NewModel(resource.WithInitialValue(&traits.Metadata{Name: "n"}))
				return metadatapb.NewModelServer(m), m
			},
			get: "GetMetadata", pull: "PullMetadata", write: wr((*metadatapb.Model).UpdateMetadata), writeMask: []string{"appearance.title", "name"},
			extra: []op{
				did("merge", func(m *metadatapb.Model) (*traits.Metadata, error) {
					return m.MergeMetadata(&traits.Metadata{Traits: []*traits.TraitMetadata{{Name: "b", More: map[string]string{"k": "v"}}, {Name: "a"}}})
				}),
				did("trait", func(m *metadatapb.Model) (*traits.Metadata, error) {
					return m.UpdateTraitMetadata(&traits.TraitMetadata{Name: "b", More: map[string]string{"l": "w"}})
				}),
			},
		},
		&register{name: "metadatacollection", services: []string{"metadatapb.MetadataApi"}, res: &traits.Metadata{}, oneName: true,
			mk: func() (any, any) {
				m := metadatapb.NewCollection(resource.WithInitialRecord(devA, &traits.Metadata{Name: "n"}), resource.WithInitialRecord(devB, &traits.Metadata{Name: "m"}))
				return metadatapb.NewCollectionServer(m), m
			},
			get: "GetMetadata", pull: "PullMetadata", writeMask: []string{"appearance.title", "name"}, keyField: "name", key: devA,
			write: func(m any, b pm, opts ...wo) (pm, error) {
				r, err := m.(*metadatapb.Collection).UpdateMetadata(devA, b.(*traits.Metadata), opts...)
				if err != nil {
					return nil, err
				}
				return r, nil
			},
			extra: []op{
				did("merge", func(m *metadatapb.Collection) (*traits.Metadata, error) {
					return m.MergeMetadata(devA, &traits.Metadata{Traits: []*traits.TraitMetadata{{Name: "b", More: map[string]string{"k": "v"}}, {Name: "a"}}})
				}),
				do("other", func(m *metadatapb.Collection) error {
					_, err := m.UpdateMetadata(devB, &traits.Metadata{Name: "other"})
					return err
				}),
				do("delete", func(m *metadatapb.Collection) error { _, err := m.DeleteMetadata(devA); return err }),
			},
		},
		&register{name: "meter", services: []string{"meterpb.MeterApi"}, res: &traits.MeterReading{},
			mk: func() (any, any) {
				m := meterpb.NewModel()
				return meterpb.NewModelServer(m), m
			},
			get: "GetMeterReading", pull: "PullMeterReadings", write: wr((*meterpb.Model).UpdateMeterReading), writeMask: []string{"usage", "end_time"},
			extra: []op{
				did("record", func(m *meterpb.Model) (*traits.MeterReading, error) { return m.RecordReading(12) }),
				did("reset", func(m *meterpb.Model) (*traits.MeterReading, error) { return m.Reset() }),
			},
		},
		&register{name: "mode", services: []string{"modepb.ModeApi"}, res: &traits.ModeValues{},
			mk: func() (any, any) {
				m := modepb.NewModel()
				return modepb.NewModelServer(m), m
			},
			get: "GetModeValues", update: "UpdateModeValues", pull: "PullModeValues", writeMask: []string{"values"},
			domain: ms(&traits.ModeValues{Values: map[string]string{"spin": "slow"}}, &traits.ModeValues{Values: map[string]string{"spin": "fast", "temperature": "whites"}}, &traits.ModeValues{Values: map[string]string{"other": "x"}}),
			extra: []op{
				rpc("UpdateModeValues", &traits.UpdateModeValuesRequest{Relative: &traits.ModeValuesRelative{Values: map[string]int32{"spin": 1}}}),
				rpc("UpdateModeValues", &traits.UpdateModeValuesRequest{Relative: &traits.ModeValuesRelative{Values: map[string]int32{"spin": -1, "none": 4}}, ModeValues: &traits.ModeValues{Values: map[string]string{"temperature": "medium"}}}),
				rpc("UpdateModeValues", &traits.UpdateModeValuesRequest{Relative: &traits.ModeValuesRelative{Values: map[string]int32{"spin": 1}}, UpdateMask: rm.MaskOf("values").PB()}),
				rpc("UpdateModeValues", &traits.UpdateModeValuesRequest{Relative: &traits.ModeValuesRelative{Values: map[string]int32{"spin": 1}}, UpdateMask: rm.MaskOf("nope").PB()}),
			},
		},
		&register{name: "occupancy", services: []string{"occupancysensorpb.OccupancySensorApi"}, res: &traits.Occupancy{},
			mk: func() (any, any) {
				m := occupancysensorpb.NewModel()
				return occupancysensorpb.NewModelServer(m), m
			},
			get: "GetOccupancy", pull: "PullOccupancy", write: wr((*occupancysensorpb.Model).SetOccupancy), writeMask: []string{"people_count", "state"},
		},
		&register{name: "onoff", services: []string{"onoffpb.OnOffApi"}, res: &traits.OnOff{},
			mk: func() (any, any) {
				m := onoffpb.NewModel()
				return onoffpb.NewModelServer(m), m
			},
			get: "GetOnOff", update: "UpdateOnOff", pull: "PullOnOff", writeMask: []string{"state"},
			domain: ms(&traits.OnOff{State: traits.OnOff_ON}, &traits.OnOff{State: traits.OnOff_OFF}),
		},
		openclose("openclose"), openclosemany,
		openclose("openclosepresets", openclosepb.WithInitialPositions(pos(up, 0), pos(down, 0)),
			openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "open", Title: "Open"}, pos(up, 100), pos(down, 100)),
			openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "split", Title: "Split"}, pos(up, 50), pos(down, 75))),
		&register{name: "children", services: []string{"parentpb.ParentApi"}, res: &traits.Child{},
			mk: func() (any, any) {
				m := parentpb.NewModel(parentpb.WithInitialChildren(&traits.Child{Name: "a", Traits: []*traits.Trait{{Name: "t"}}}, &traits.Child{Name: "b"}))
				return parentpb.NewModelServer(m), m
			},
			get: "ListChildren", pull: "PullChildren", id: func(m pm) string { return m.(*traits.Child).Name }, idPath: "name", writeMask: []string{"traits"},
			extra: []op{
				do("add", func(m *parentpb.Model) error { m.AddChild(&traits.Child{Name: "c"}); return nil }),
				do("remove", func(m *parentpb.Model) error { _, err := m.RemoveChildByName("a"); return err }),
				do("trait", func(m *parentpb.Model) error { m.AddChildTrait("a", "u"); return nil }),
				do("no trait", func(m *parentpb.Model) error { m.RemoveChildTrait("a", "t"); return nil }),
			},
		},
		&register{name: "press", services: []string{"presspb.PressApi"}, res: &traits.PressedState{},
			mk: func() (any, any) {
				m := presspb.NewModel(traits.PressedState_UNPRESSED)
				return presspb.NewModelServer(m), m
			},
			get: "GetPressedState", update: "UpdatePressedState", pull: "PullPressedState", writeMask: []string{"state", "most_recent_gesture.count"},
			domain: ms(&traits.PressedState{State: traits.PressedState_PRESSED}, &traits.PressedState{State: traits.PressedState_UNPRESSED, StateChangeTime: stamp(1)}),
		},
	)
	pub := func(n string) *register {
		p := func(id, body, aud string) *traits.Publication {
			return &traits.Publication{Id: id, Body: []byte(body), Audience: &traits.Publication_Audience{Name: aud}}
		}
		ack := func(allow bool, version string) op {
			return op{label: "acknowledge " + version, do: func(w *world) (pm, error) {
				res, err := w.call("GetPublication", &traits.GetPublicationRequest{Name: devA, Id: "a"})
				if err != nil {
					return nil, err
				}
				v := version
				if v == "" {
					v = res.(*traits.Publication).Version
				}
				return w.call("AcknowledgePublication", &traits.AcknowledgePublicationRequest{Name: devB, Id: "a", Version: v, AllowAcknowledged: allow})
			}}
		}
		return &register{name: n, services: []string{"publicationpb.PublicationApi"}, res: &traits.Publication{},
			mk: func() (any, any) {
				m := publicationpb.NewModel(publicationpb.WithInitialPublication(&traits.Publication{Id: "a", Version: "v", Audience: &traits.Publication_Audience{Name: "x"}}, &traits.Publication{Id: "b"}))
				return publicationpb.NewModelServer(m), m
			},
			update: "UpdatePublication", writeMask: []string{"body", "audience.name"}, key: "a", setKey: func(m pm, k string) { m.(*traits.Publication).Id = k },
			domain: ms(p("a", "1", "y"), p("b", "2", ""), &traits.Publication{Id: "a", MediaType: "m"}, &traits.Publication{Id: "zz"}, &traits.Publication{Body: []byte("no id")}),
			extra: []op{
				rpc("CreatePublication", &traits.CreatePublicationRequest{Publication: p("c", "3", "z")}),
				rpc("CreatePublication", &traits.CreatePublicationRequest{Publication: p("a", "3", "z")}),
				rpc("UpdatePublication", &traits.UpdatePublicationRequest{Publication: p("a", "4", ""), Version: "v"}),
				rpc("UpdatePublication", &traits.UpdatePublicationRequest{Publication: p("a", "4", ""), Version: "w"}),
				rpc("DeletePublication", &traits.DeletePublicationRequest{Id: "a"}),
				rpc("DeletePublication", &traits.DeletePublicationRequest{Id: "a", Version: "w"}),
				ack(false, ""), ack(true, ""), ack(false, "w"),
			},
		}
	}
	one = pub("publication")
	one.get, one.pull, one.keyField = "GetPublication", "PullPublication", "id"
	one.answers = func(r pm) bool { return r.(*traits.Publication).Id == "a" }
	many = pub("publications")
	many.get, many.pull, many.idPath, many.id = "ListPublications", "PullPublications", "id", func(m pm) string { return m.(*traits.Publication).Id }
	out = append(out, one, many)
	out = append(out, &register{name: "speaker", services: []string{"speakerpb.SpeakerApi"}, res: &types.AudioLevel{},
		mk:  func() (any, any) { return self(speakerpb.NewMemoryDevice(&types.AudioLevel{Gain: 5})) },
		get: "GetVolume", update: "UpdateVolume", pull: "PullVolume", writeMask: []string{"gain", "muted"},
		domain: ms(&types.AudioLevel{Gain: 30}, &types.AudioLevel{Muted: true}, &types.AudioLevel{Gain: -4, Muted: true}),
	})
	stock := func(n string) *register {
		q := func(a float32) *traits.Consumable_Quantity {
			return &traits.Consumable_Quantity{Amount: a, Unit: traits.Consumable_LITER}
		}
		st := func(c string, used, rem float32) *traits.Consumable_Stock {
			return &traits.Consumable_Stock{Consumable: c, Used: q(used), Remaining: q(rem)}
		}
		return &register{name: n, services: []string{"vendingpb.VendingApi"}, res: &traits.Consumable_Stock{},
			mk: func() (any, any) {
				m := vendingpb.NewModel(vendingpb.WithInitialStock(st("a", 1, 20), &traits.Consumable_Stock{Consumable: "b"}), vendingpb.WithInitialConsumable(&traits.Consumable{Name: "a"}))
				return vendingpb.NewModelServer(m), m
			},
			update: "UpdateStock", writeMask: []string{"used.amount", "dispensing"}, key: "a", setKey: func(m pm, k string) { m.(*traits.Consumable_Stock).Consumable = k },
			domain: ms(st("a", 2, 10), &traits.Consumable_Stock{Consumable: "a", Dispensing: true}, st("b", 3, 4), &traits.Consumable_Stock{Consumable: "zz"}, &traits.Consumable_Stock{Dispensing: true}),
			extra: []op{
				rpc("Dispense", &traits.DispenseRequest{Consumable: "a", Quantity: q(2)}),
				rpc("Dispense", &traits.DispenseRequest{Consumable: "a", Quantity: &traits.Consumable_Quantity{Amount: 1, Unit: traits.Consumable_KILOGRAM}}),
				rpc("Dispense", &traits.DispenseRequest{Consumable: "zz", Quantity: q(1)}),
				rpc("StopDispense", &traits.StopDispenseRequest{Consumable: "a"}),
				do("delete", func(m *vendingpb.Model) error { _, err := m.DeleteStock("a"); return err }),
				do("create", func(m *vendingpb.Model) error { _, err := m.CreateStock(st("c", 0, 1)); return err }),
			},
		}
	}
	one = stock("stock")
	one.get, one.pull, one.keyField = "GetStock", "PullStock", "consumable"
	one.answers = func(r pm) bool { return r.(*traits.Consumable_Stock).Consumable == "a" }
	many = stock("inventory")
	many.get, many.pull, many.idPath, many.id = "ListInventory", "PullInventory", "consumable", func(m pm) string { return m.(*traits.Consumable_Stock).Consumable }
	out = append(out, one, many,
		&register{name: "consumables", services: []string{"vendingpb.VendingApi"}, res: &traits.Consumable{},
			mk: func() (any, any) {
				m := vendingpb.NewModel(vendingpb.WithInitialConsumable(&traits.Consumable{Name: "a", DisplayName: "A"}, &traits.Consumable{Name: "b"}))
				return vendingpb.NewModelServer(m), m
			},
			get: "ListConsumables", pull: "PullConsumables", idPath: "name", id: func(m pm) string { return m.(*traits.Consumable).Name }, key: "a", setKey: func(m pm, k string) { m.(*traits.Consumable).Name = k },
			write: wr((*vendingpb.Model).UpdateConsumable), writeMask: []string{"display_name"},
			extra: []op{
				do("create", func(m *vendingpb.Model) error {
					_, err := m.CreateConsumable(&traits.Consumable{Name: "c"})
					return err
				}),
				do("delete", func(m *vendingpb.Model) error { _, err := m.DeleteConsumable("b"); return err }),
			},
		})
	return out
}
