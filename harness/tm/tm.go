// Package tm lists the trait models of the library for the harnesses that treat
// them uniformly.
package tm

import (
	"context"
	"reflect"
	"sort"
	"strings"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// Model is one model instance with something in it.
type Model struct {
	Name string
	New  func() any
	// Touch makes the i-th of a series of changes that every subscription sees.
	Touch func(m any, i int)
	// Keys are ids (first string argument of Pull methods).
	Key string
}

func must(_ any, err error) {
	if err != nil {
		panic(err)
	}
}

func loc(n string) *traits.Hail_Location { return &traits.Hail_Location{Name: n} }

func two[T any](a, b T, i int) T {
	if i%2 == 0 {
		return a
	}
	return b
}

// Models returns all models.
func Models() []Model {
	return []Model{
		{"access", func() any { return accesspb.NewModel() }, func(m any, i int) {
			must(m.(*accesspb.Model).UpdateLastAccessAttempt(&traits.AccessAttempt{Reason: two("x", "y", i)}))
		}, ""},
		{"airquality", func() any { return airqualitysensorpb.NewModel() }, func(m any, i int) {
			f := float32(i + 1)
			must(m.(*airqualitysensorpb.Model).UpdateAirQuality(&traits.AirQuality{CarbonDioxideLevel: &f}))
		}, ""},
		{"airtemperature", func() any { return airtemperaturepb.NewModel() }, func(m any, i int) {
			must(m.(*airtemperaturepb.Model).UpdateAirTemperature(&traits.AirTemperature{AmbientTemperature: &types.Temperature{ValueCelsius: float64(i + 1)}}))
		}, ""},
		{"booking", func() any {
			return bookingpb.NewModel(resource.WithInitialRecord("a", &traits.Booking{Id: "a", Title: "0"}))
		}, func(m any, i int) {
			must(m.(*bookingpb.Model).UpdateBooking(&traits.Booking{Id: "a", Title: two("x", "y", i)}))
		}, "a"},
		{"electric", func() any {
			m := electricpb.NewModel()
			must(m.CreateMode(&traits.ElectricMode{Title: "n", Normal: true}))
			mode, err := m.CreateMode(&traits.ElectricMode{Title: "o"})
			must(nil, err)
			must(m.ChangeActiveMode(mode.Id))
			return m
		}, func(m any, i int) {
			e := m.(*electricpb.Model)
			must(e.UpdateDemand(&traits.ElectricDemand{Current: float32(i + 1)}))
			modes := e.Modes()
			must(e.UpdateMode(&traits.ElectricMode{Id: modes[0].Id, Description: two("x", "y", i)}, resource.WithUpdatePaths("description")))
			if e.ActiveMode().Id == modes[0].Id {
				must(e.ChangeActiveMode(modes[1].Id))
			} else {
				must(e.ChangeActiveMode(modes[0].Id))
			}
		}, ""},
		{"energystorage", func() any { return energystoragepb.NewModel() }, func(m any, i int) {
			must(m.(*energystoragepb.Model).UpdateEnergyLevel(&traits.EnergyLevel{Quantity: &traits.EnergyLevel_Quantity{Percentage: float32(i + 1)}}))
		}, ""},
		{"enterleave", func() any { return enterleavesensorpb.NewModel() }, func(m any, i int) {
			must(nil, m.(*enterleavesensorpb.Model).CreateEnterLeaveEvent(&traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_ENTER, Occupant: &traits.EnterLeaveEvent_Occupant{Name: two("x", "y", i)}}))
		}, ""},
		{"fanspeed", func() any { return fanspeedpb.NewModel() }, func(m any, i int) {
			must(m.(*fanspeedpb.Model).UpdateFanSpeed(&traits.FanSpeed{Percentage: float32(i + 1)}))
		}, ""},
		{"hail", func() any {
			return hailpb.NewModel(hailpb.WithKeepAlive(-1), resource.WithInitialRecord("a", &traits.Hail{Id: "a", Destination: loc("0")}))
		}, func(m any, i int) {
			must(m.(*hailpb.Model).UpdateHail(&traits.Hail{Id: "a", Destination: loc(two("x", "y", i))}))
		}, "a"},
		{"light", func() any { return lightpb.NewModel() }, func(m any, i int) {
			must(m.(*lightpb.Model).UpdateBrightness(&traits.Brightness{LevelPercent: float32(i + 1)}))
		}, ""},
		{"metadata", func() any { return metadatapb.NewModel() }, func(m any, i int) {
			must(m.(*metadatapb.Model).UpdateMetadata(&traits.Metadata{Name: two("x", "y", i)}))
		}, ""},
		{"metadatacollection", func() any {
			return metadatapb.NewCollection(resource.WithInitialRecord("a", &traits.Metadata{Name: "0"}))
		}, func(m any, i int) {
			must(m.(*metadatapb.Collection).UpdateMetadata("a", &traits.Metadata{Name: two("x", "y", i)}))
		}, "a"},
		{"meter", func() any { return meterpb.NewModel() }, func(m any, i int) {
			must(m.(*meterpb.Model).UpdateMeterReading(&traits.MeterReading{Usage: float32(i + 1)}))
		}, ""},
		{"mode", func() any { return modepb.NewModel() }, func(m any, i int) {
			must(m.(*modepb.Model).UpdateModeValues(&traits.ModeValues{Values: map[string]string{"spin": two("auto", "slow", i)}}))
		}, ""},
		{"occupancy", func() any { return occupancysensorpb.NewModel() }, func(m any, i int) {
			must(m.(*occupancysensorpb.Model).SetOccupancy(&traits.Occupancy{PeopleCount: int32(i + 1)}))
		}, ""},
		{"onoff", func() any { return onoffpb.NewModel() }, func(m any, i int) {
			must(m.(*onoffpb.Model).UpdateOnOff(&traits.OnOff{State: two(traits.OnOff_ON, traits.OnOff_OFF, i)}))
		}, ""},
		{"openclose", func() any {
			return openclosepb.NewModel(openclosepb.WithInitialPositions(&traits.OpenClosePosition{OpenPercent: 50, Direction: traits.OpenClosePosition_UP}))
		}, func(m any, i int) {
			must(m.(*openclosepb.Model).UpdatePosition(&traits.OpenClosePosition{OpenPercent: float32(i + 1), Direction: traits.OpenClosePosition_UP}))
		}, ""},
		{"parent", func() any {
			return parentpb.NewModel(parentpb.WithInitialChildren(&traits.Child{Name: "a", Traits: []*traits.Trait{{Name: "t"}}}))
		}, func(m any, i int) {
			if i%2 == 0 {
				m.(*parentpb.Model).AddChildTrait("a", "u")
			} else {
				m.(*parentpb.Model).RemoveChildTrait("a", "u")
			}
		}, "a"},
		{"press", func() any { return presspb.NewModel(traits.PressedState_UNPRESSED) }, func(m any, i int) {
			must(m.(*presspb.Model).UpdatePressedState(&traits.PressedState{State: two(traits.PressedState_PRESSED, traits.PressedState_UNPRESSED, i)}))
		}, ""},
		{"publication", func() any {
			return publicationpb.NewModel(resource.WithInitialRecord("a", &traits.Publication{Id: "a", Body: []byte("0")}))
		}, func(m any, i int) {
			must(m.(*publicationpb.Model).UpdatePublication("a", &traits.Publication{Id: "a", Body: []byte(two("x", "y", i))}))
		}, "a"},
		{"vending", func() any {
			return vendingpb.NewModel(vendingpb.WithInitialConsumable(&traits.Consumable{Name: "a"}), vendingpb.WithInitialStock(&traits.Consumable_Stock{Consumable: "a"}))
		}, func(m any, i int) {
			v := m.(*vendingpb.Model)
			must(v.UpdateConsumable(&traits.Consumable{Name: "a", DisplayName: two("x", "y", i)}))
			must(v.UpdateStock(&traits.Consumable_Stock{Consumable: "a", Dispensing: i%2 == 0}))
		}, "a"},
		{"waste", func() any { return wastepb.NewModel() }, func(m any, i int) {
			must(m.(*wastepb.Model).GenerateWasteRecord(&timestamppb.Timestamp{Seconds: int64(i + 1)}))
		}, ""},
	}
}

// Stream is an opened subscription of any type.
type Stream struct {
	ch reflect.Value
}

// PullMethods lists the names of m's subscription methods.
func PullMethods(m any) []string {
	var out []string
	t := reflect.TypeOf(m)
	for i := 0; i < t.NumMethod(); i++ {
		if n := t.Method(i).Name; strings.HasPrefix(n, "Pull") {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// Pull calls the subscription method by name.
func Pull(m any, method, key string, ctx context.Context, opts ...resource.ReadOption) Stream {
	f := reflect.ValueOf(m).MethodByName(method)
	args := []reflect.Value{reflect.ValueOf(ctx)}
	if f.Type().In(1).Kind() == reflect.String {
		args = append(args, reflect.ValueOf(key))
	}
	for _, o := range opts {
		args = append(args, reflect.ValueOf(&o).Elem())
	}
	return Stream{f.Call(args)[0]}
}

// Of makes a stream of a change channel.
func Of(ch reflect.Value) Stream { return Stream{ch} }

// Recv receives one change (blocking).
func (s Stream) Recv() (any, bool) {
	v, ok := s.ch.Recv()
	if !ok {
		return nil, false
	}
	return v.Interface(), true
}

// Try receives without blocking: ok reports a change, open whether the channel is still open.
func (s Stream) Try() (v any, ok, open bool) {
	chosen, x, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: s.ch}, {Dir: reflect.SelectDefault}})
	if chosen == 1 {
		return nil, false, true
	}
	if !ok {
		return nil, false, false
	}
	return x.Interface(), true, true
}

// Messages returns the proto messages a change carries, by field name.
func Messages(change any) map[string]proto.Message {
	out := map[string]proto.Message{}
	if m, ok := change.(proto.Message); ok {
		out["change"] = m
		return out
	}
	v := reflect.ValueOf(change)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return out
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Pointer && f.IsNil() {
			continue
		}
		if m, ok := f.Interface().(proto.Message); ok {
			out[v.Type().Field(i).Name] = m
		}
	}
	return out
}
