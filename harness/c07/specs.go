package main

import (
	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	scpb "github.com/smart-core-os/sc-api/go/types/time"
	"github.com/smart-core-os/sc-golang/internal/verif/tm"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

var _ = tm.Models

func stamp(s int64) *timestamppb.Timestamp { return &timestamppb.Timestamp{Seconds: s} }
func celsius(c float64) *types.Temperature { return &types.Temperature{ValueCelsius: c} }
func i32(i int32) *int32                   { return &i }
func f32(f float32) *float32               { return &f }

func per(s int64) *scpb.Period { return &scpb.Period{StartTime: stamp(s), EndTime: stamp(s + 1)} }

func none() []pm { return nil }

func list(ms ...pm) func() []pm { return func() []pm { return ms } }

func ks(k ...string) map[string][]string { return map[string][]string{"": k} }

const up, down = traits.OpenClosePosition_UP, traits.OpenClosePosition_DOWN

func pos(d traits.OpenClosePosition_Direction, p float32) *traits.OpenClosePosition {
	return &traits.OpenClosePosition{Direction: d, OpenPercent: p, OpenPercentTween: &types.Tween{Progress: p}}
}

func quantity(a float32) *traits.Consumable_Quantity {
	return &traits.Consumable_Quantity{Amount: a, Unit: traits.Consumable_LITER}
}

func actor(n string) *traits.AccessAttempt_Actor {
	return &traits.AccessAttempt_Actor{Name: n, Ids: map[string]string{"k": n}, LastGrantTime: stamp(3), More: map[string]string{"m": n}}
}

func specs() []*spec {
	modes := func(id string, normal bool) *traits.ElectricMode {
		return &traits.ElectricMode{Id: id, Title: "t" + id, Normal: normal, Segments: []*traits.ElectricMode_Segment{
			{Magnitude: 1, Shape: &traits.ElectricMode_Segment_Fixed{Fixed: 2}}, {Magnitude: 3}}, StartTime: stamp(5)}
	}
	pub := func(id, body string) *traits.Publication {
		return &traits.Publication{Id: id, Body: []byte(body), MediaType: "m" + body, PublishTime: stamp(2), Audience: &traits.Publication_Audience{Name: "x" + body, ReceiptTime: stamp(1)}}
	}
	stock := func(c string, used, rem float32) *traits.Consumable_Stock {
		return &traits.Consumable_Stock{Consumable: c, Used: quantity(used), Remaining: quantity(rem), LastDispensed: quantity(1)}
	}
	md := func(n string, traitNames ...string) *traits.Metadata {
		m := &traits.Metadata{Name: n, Appearance: &traits.Metadata_Appearance{Title: "t" + n}, More: map[string]string{"k": n},
			Membership: &traits.Metadata_Membership{Subsystem: n}, Nics: []*traits.Metadata_NIC{{DisplayName: n}}}
		for _, t := range traitNames {
			m.Traits = append(m.Traits, &traits.TraitMetadata{Name: t, More: map[string]string{"k": n}})
		}
		return m
	}
	out := []*spec{
		{name: "access", mk: func() (any, any) {
			m := accesspb.NewModel(resource.WithInitialValue(&traits.AccessAttempt{Reason: "first", Actor: actor("z")}))
			return m, accesspb.NewModelServer(m)
		}, msgs: list(&traits.AccessAttempt{Reason: "x", Actor: actor("a"), AccessAttemptTime: stamp(1)}, &traits.AccessAttempt{Grant: traits.AccessAttempt_DENIED, Actor: &traits.AccessAttempt_Actor{Name: "b"}})},
		{name: "airquality", mk: func() (any, any) {
			m := airqualitysensorpb.NewModel()
			return m, airqualitysensorpb.NewModelServer(m)
		}, msgs: list(&traits.AirQuality{CarbonDioxideLevel: f32(4), Score: f32(3)}, &traits.AirQuality{Comfort: traits.AirQuality_COMFORTABLE, AirPressure: f32(6)})},
		{name: "airtemperature", mk: func() (any, any) {
			m := airtemperaturepb.NewModel()
			return m, airtemperaturepb.NewModelServer(m)
		}, msgs: list(&traits.AirTemperature{AmbientTemperature: celsius(20), TemperatureGoal: &traits.AirTemperature_TemperatureSetPoint{TemperatureSetPoint: celsius(30)}},
			&traits.AirTemperature{Mode: traits.AirTemperature_HEAT, TemperatureGoal: &traits.AirTemperature_TemperatureRange{TemperatureRange: &traits.TemperatureRange{Low: celsius(10), High: celsius(20)}}})},
		{name: "airtemperaturememory", mk: func() (any, any) { return nil, airtemperaturepb.NewMemoryDevice() },
			msgs: list(&traits.AirTemperature{AmbientTemperature: celsius(20), TemperatureGoal: &traits.AirTemperature_TemperatureSetPoint{TemperatureSetPoint: celsius(30)}},
				&traits.AirTemperature{Mode: traits.AirTemperature_HEAT, TemperatureGoal: &traits.AirTemperature_TemperatureRange{TemperatureRange: &traits.TemperatureRange{Low: celsius(10), High: celsius(20)}}})},
		{name: "booking", always: []string{"CreateBooking(#2)"}, mk: func() (any, any) {
			m := bookingpb.NewModel(bookingpb.WithInitialBooking(&traits.Booking{Id: "a", Title: "0", Booked: per(3)}, &traits.Booking{Id: "b"}))
			return m, bookingpb.NewModelServer(m)
		}, keys: ks("a", "zz"), msgs: list(&traits.Booking{Id: "a", Title: "x", Booked: per(5), CheckIn: per(6)}, &traits.Booking{Id: "c", OwnerName: "o", Booked: per(7)}, &traits.Booking{Title: "no id", Booked: per(7)})},
		{name: "count", mk: func() (any, any) { return nil, countpb.NewMemoryDevice() }, msgs: list(&traits.Count{Added: 3, ResetTime: stamp(4)}, &traits.Count{Removed: 2})},
		{name: "electric", always: []string{"CreateMode(#2)", "ChangeToNormalMode()"}, mk: func() (any, any) {
			m := electricpb.NewModel(electricpb.WithInitialMode(modes("a", true), modes("b", false)), electricpb.WithInitialDemand(&traits.ElectricDemand{Current: 1, Voltage: f32(2)}))
			return m, electricpb.NewModelServer(m)
		}, keys: ks("a", "b"), msgs: list(modes("a", true), modes("b", false), &traits.ElectricMode{Title: "new", Segments: []*traits.ElectricMode_Segment{{Magnitude: 9}}}, modes("d", false),
			&traits.ElectricDemand{Current: 5, Voltage: f32(240), RealPower: f32(3)}, &traits.ElectricDemand{Rating: 7})},
		{name: "emergency", mk: func() (any, any) { return nil, emergencypb.NewMemoryDevice() },
			msgs: list(&traits.Emergency{Level: traits.Emergency_WARNING, Reason: "r"}, &traits.Emergency{Level: traits.Emergency_EMERGENCY, LevelChangeTime: stamp(3)})},
		{name: "energystorage", mk: func() (any, any) {
			m := energystoragepb.NewModel()
			return m, energystoragepb.NewModelServer(m)
		}, msgs: list(&traits.EnergyLevel{Quantity: &traits.EnergyLevel_Quantity{Percentage: 5}, Flow: &traits.EnergyLevel_Charge{Charge: &traits.EnergyLevel_Transfer{StartTime: stamp(1)}}},
			&traits.EnergyLevel{Quantity: &traits.EnergyLevel_Quantity{EnergyKwh: 50}, PluggedIn: true, Flow: &traits.EnergyLevel_Idle{Idle: &traits.EnergyLevel_Steady{StartTime: stamp(2)}}})},
		{name: "enterleave", mk: func() (any, any) {
			m := enterleavesensorpb.NewModel()
			return m, enterleavesensorpb.NewModelServer(m)
		}, msgs: list(&traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_ENTER, Occupant: &traits.EnterLeaveEvent_Occupant{Name: "x", Ids: map[string]string{"k": "v"}}},
			&traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_LEAVE}, &traits.EnterLeaveEvent{EnterTotal: i32(10), LeaveTotal: i32(4)})},
	}
	for _, presets := range []bool{true, false} {
		presets := presets
		n := "fanspeed"
		if !presets {
			n = "fanspeednopresets"
		}
		out = append(out, &spec{name: n, mk: func() (any, any) {
			var opts []resource.Option
			if !presets {
				opts = append(opts, fanspeedpb.WithPresets(), fanspeedpb.WithInitialFanSpeed(&traits.FanSpeed{Percentage: 3}))
			}
			m := fanspeedpb.NewModel(opts...)
			return m, fanspeedpb.NewModelServer(m)
		}, msgs: list(&traits.FanSpeed{Percentage: 40, Direction: traits.FanSpeed_FORWARD}, &traits.FanSpeed{Preset: "high"}, &traits.FanSpeed{PresetIndex: 1})})
	}
	out = append(out,
		&spec{name: "hail", always: []string{"CreateHail(#1)"}, mk: func() (any, any) {
			m := hailpb.NewModel(hailpb.WithKeepAlive(-1), resource.WithInitialRecord("a", &traits.Hail{Id: "a", State: traits.Hail_CALLED, Origin: &traits.Hail_Location{Name: "o"}}), resource.WithInitialRecord("b", &traits.Hail{Id: "b"}))
			return m, hailpb.NewModelServer(m)
		}, keys: ks("a", "zz"), msgs: list(&traits.Hail{Id: "a", State: traits.Hail_BOARDING, Destination: &traits.Hail_Location{Name: "d", DisplayName: "D"}, ArriveTime: stamp(3)},
			&traits.Hail{Destination: &traits.Hail_Location{Name: "e"}}, &traits.Hail{Id: "c", Origin: &traits.Hail_Location{Name: "e"}, State: traits.Hail_DEPARTED})},
		&spec{name: "light", mk: func() (any, any) {
			m := lightpb.NewModel(lightpb.WithInitialBrightness(&traits.Brightness{LevelPercent: 7}),
				lightpb.WithPreset(25, &traits.LightPreset{Name: "dim", Title: "Dim"}), lightpb.WithPreset(75, &traits.LightPreset{Name: "bright", Title: "Bright"}))
			return m, lightpb.NewModelServer(m)
		}, msgs: list(&traits.Brightness{LevelPercent: 20, BrightnessTween: &types.Tween{Progress: 3}}, &traits.Brightness{Preset: &traits.LightPreset{Name: "bright"}},
			&traits.Brightness{Preset: &traits.LightPreset{Name: "dim", Title: "mine"}, TargetPreset: &traits.LightPreset{Name: "bright"}})},
		&spec{name: "lightmemory", mk: func() (any, any) { return nil, lightpb.NewMemoryDevice() },
			msgs: list(&traits.Brightness{LevelPercent: 20}, &traits.Brightness{LevelPercent: 60, Preset: &traits.LightPreset{Name: "p"}})},
		&spec{name: "metadata", mk: func() (any, any) {
			m := metadatapb.NewModel(resource.WithInitialValue(md("n", "c", "a")))
			return m, metadatapb.NewModelServer(m)
		}, msgs: list(md("x", "b", "a"), &traits.Metadata{Traits: []*traits.TraitMetadata{{Name: "c", More: map[string]string{"new": "y"}}, {Name: "b"}}, More: map[string]string{"l": "w"}},
			&traits.TraitMetadata{Name: "a", More: map[string]string{"l": "w"}}, &traits.TraitMetadata{Name: "aa"})},
		&spec{name: "metadatacollection", mk: func() (any, any) {
			m := metadatapb.NewCollection(resource.WithInitialRecord("dev", md("n", "c", "a")), resource.WithInitialRecord("b", md("m")))
			return m, metadatapb.NewCollectionServer(m)
		}, keys: ks("dev", "zz"), msgs: list(md("x", "b", "a"), &traits.Metadata{Traits: []*traits.TraitMetadata{{Name: "c", More: map[string]string{"new": "y"}}, {Name: "b"}}, More: map[string]string{"l": "w"}},
			&traits.TraitMetadata{Name: "a", More: map[string]string{"l": "w"}}, &traits.TraitMetadata{Name: "aa"})},
		&spec{name: "meter", mk: func() (any, any) {
			m := meterpb.NewModel()
			return m, meterpb.NewModelServer(m)
		}, msgs: list(&traits.MeterReading{Usage: 5, StartTime: stamp(1), EndTime: stamp(2)}, &traits.MeterReading{Usage: 6, EndTime: stamp(9)})},
		&spec{name: "meterinfo", mk: func() (any, any) {
			return nil, &meterpb.InfoServer{MeterReading: &traits.MeterReadingSupport{Unit: "u", ResourceSupport: &types.ResourceSupport{Readable: true}}}
		}, msgs: none},
		&spec{name: "mode", mk: func() (any, any) {
			m := modepb.NewModel()
			return m, modepb.NewModelServer(m)
		}, keys: ks("spin", "none"), msgs: list(&traits.ModeValues{Values: map[string]string{"spin": "slow"}}, &traits.ModeValues{Values: map[string]string{"spin": "fast", "temperature": "whites"}},
			&traits.ModeValuesRelative{Values: map[string]int32{"spin": 1}})},
		&spec{name: "modeinfo", mk: func() (any, any) {
			return nil, &modepb.InfoServer{Modes: &traits.ModesSupport{AvailableModes: &traits.Modes{Modes: []*traits.Modes_Mode{{Name: "m", Values: []*traits.Modes_Value{{Name: "v"}}}}}}}
		}, msgs: none},
		&spec{name: "occupancy", mk: func() (any, any) {
			m := occupancysensorpb.NewModel()
			return m, occupancysensorpb.NewModelServer(m)
		}, msgs: list(&traits.Occupancy{PeopleCount: 4, Reasons: []string{"a", "b"}, StateChangeTime: stamp(4)}, &traits.Occupancy{State: traits.Occupancy_OCCUPIED, Reasons: []string{"c"}})},
		&spec{name: "onoff", mk: func() (any, any) {
			m := onoffpb.NewModel()
			return m, onoffpb.NewModelServer(m)
		}, msgs: list(&traits.OnOff{State: traits.OnOff_ON}, &traits.OnOff{State: traits.OnOff_OFF})},
	)
	for _, full := range []bool{true, false} {
		full := full
		n := "openclose"
		if !full {
			n = "opencloseempty"
		}
		out = append(out, &spec{name: n, mk: func() (any, any) {
			var opts []resource.Option
			if full {
				opts = append(opts, openclosepb.WithInitialPositions(pos(up, 1), pos(down, 2)),
					openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "open", Title: "Open"}, pos(up, 100), pos(down, 100)),
					openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "split", Title: "Split"}, pos(up, 50), pos(down, 75)))
			}
			m := openclosepb.NewModel(opts...)
			return m, openclosepb.NewModelServer(m)
		}, keys: ks("open"), msgs: list(pos(up, 10), pos(down, 20), &traits.OpenClosePositions{States: []*traits.OpenClosePosition{pos(up, 30), pos(down, 40)}},
			&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: "split"}}, &traits.OpenClosePositions{States: []*traits.OpenClosePosition{pos(down, 60)}})})
	}
	out = append(out,
		&spec{name: "parent", mk: func() (any, any) {
			m := parentpb.NewModel(parentpb.WithInitialChildren(&traits.Child{Name: "a", Traits: []*traits.Trait{{Name: "s"}, {Name: "t"}, {Name: "v"}}}, &traits.Child{Name: "b"}))
			return m, parentpb.NewModelServer(m)
		}, keys: ks("a", "c"), msgs: list(&traits.Child{Name: "a", Traits: []*traits.Trait{{Name: "w"}}}, &traits.Child{Name: "c", Traits: []*traits.Trait{{Name: "x"}, {Name: "t"}}})},
		&spec{name: "press", mk: func() (any, any) {
			m := presspb.NewModel(traits.PressedState_UNPRESSED)
			return m, presspb.NewModelServer(m)
		}, msgs: list(&traits.PressedState{State: traits.PressedState_PRESSED, StateChangeTime: stamp(1), MostRecentGesture: &traits.PressedState_Gesture{Id: "g", StartTime: stamp(3)}},
			&traits.PressedState{State: traits.PressedState_UNPRESSED, MostRecentGesture: &traits.PressedState_Gesture{Id: "h", Count: 2}})},
		&spec{name: "publication", always: []string{"CreatePublication(#2)"}, mk: func() (any, any) {
			m := publicationpb.NewModel(publicationpb.WithInitialPublication(pub("a", "0"), pub("b", "1")))
			return m, publicationpb.NewModelServer(m)
		}, keys: map[string][]string{"": {"a", "zz"}, "version": {"", "v"}, "receipt_rejected_reason": {""}}, msgs: list(pub("a", "x"), pub("c", "y"), &traits.Publication{Body: []byte("no id")}),
			wopts: []wopt{{"version", func(*sub0) []resource.WriteOption { return []resource.WriteOption{publicationpb.WithNewVersion()} }},
				{"time", func(*sub0) []resource.WriteOption { return []resource.WriteOption{publicationpb.WithNewPublishTime()} }},
				{"receipt", func(*sub0) []resource.WriteOption {
					return []resource.WriteOption{publicationpb.WithResetReceipt(), publicationpb.WithNewPublishTime()}
				}}},
			more: []op{ack(false), ack(true)}},
		&spec{name: "speaker", mk: func() (any, any) { return nil, speakerpb.NewMemoryDevice(&types.AudioLevel{Gain: 5}) },
			msgs: list(&types.AudioLevel{Gain: 30}, &types.AudioLevel{Muted: true, Gain: -4})},
		&spec{name: "vending", always: []string{"CreateConsumable(nothing)", "CreateStock(nothing)"}, mk: func() (any, any) {
			m := vendingpb.NewModel(vendingpb.WithInitialStock(stock("a", 1, 20), &traits.Consumable_Stock{Consumable: "b"}), vendingpb.WithInitialConsumable(&traits.Consumable{Name: "a", DisplayName: "A"}))
			return m, vendingpb.NewModelServer(m)
		}, keys: ks("a", "zz"), msgs: list(stock("a", 2, 10), &traits.Consumable_Stock{Consumable: "c", Remaining: quantity(5)}, quantity(2),
			&traits.Consumable{Name: "a", Picture: &types.Image{Description: "p", Sources: []*types.Image_Source{{}}}, DefaultPortion: quantity(1)}, &traits.Consumable{Name: "c", DisplayName: "C"})},
		&spec{name: "waste", big: true, mk: func() (any, any) {
			m := wastepb.NewModel()
			return m, wastepb.NewModelServer(m)
		}, msgs: list(&traits.WasteRecord{Id: "w", Weight: 3, WasteCreateTime: stamp(4)}, &traits.WasteRecord{Id: "x", System: "s"}, stamp(9))},
	)
	return out
}

// ack acknowledges the publication a with its present version.
func ack(again bool) op {
	l := "acknowledge a"
	if again {
		l += " again"
	}
	return op{label: l, run: func(w *world) []pm {
		var get, acknowledge = w.method("GetPublication"), w.method("AcknowledgePublication")
		_, resp, err := w.unary(get, &traits.GetPublicationRequest{Name: "dev", Id: "a"})
		if err != nil {
			return nil
		}
		in, resp, _ := w.unary(acknowledge, &traits.AcknowledgePublicationRequest{Name: "dev", Id: "a", Version: resp.(*traits.Publication).Version, AllowAcknowledged: again, Receipt: traits.Publication_Audience_REJECTED, ReceiptRejectedReason: "r"})
		if resp != nil {
			w.see("result", l, resp)
		}
		return []pm{in}
	}}
}
