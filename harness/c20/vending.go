package main

import (
	"context"
	"fmt"
	"math"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb/unitpb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type (
	stock = traits.Consumable_Stock
	qty   = traits.Consumable_Quantity
	unit  = traits.Consumable_Unit
)

// si is the size of each convertible unit in its category's base unit.
var si = map[unit]struct {
	cat string
	f   float64
}{
	traits.Consumable_METER:       {"length", 1},
	traits.Consumable_LITER:       {"volume", 1},
	traits.Consumable_CUBIC_METER: {"volume", 1000},
	traits.Consumable_CUP:         {"volume", 3.785411784 / 16},
	traits.Consumable_KILOGRAM:    {"weight", 1},
}

var allUnits = []unit{0, 1, 2, 3, 4, 5, 6, 99}

func conv(v float64, from, to unit) (float64, bool) {
	if from == to {
		return v, true
	}
	a, ok1 := si[from]
	b, ok2 := si[to]
	if !ok1 || !ok2 || a.cat != b.cat {
		return 0, false
	}
	return v * a.f / b.f, true
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= 1e-5*math.Max(1e-3, math.Max(math.Abs(a), math.Abs(b))) || math.IsInf(a, 1) && math.IsInf(b, 1)
}

// units checks the conversion functions.
func units(s *scenarios) {
	s.enum("units", 1, func(e *hl.E) {
		vals := []float64{0, 1, -1, 0.1, 1e-9, 1e9, 3.14159, 1234567.875, math.MaxFloat32}
		for _, a := range allUnits {
			for _, b := range allUnits {
				for _, v := range vals {
					if !e.Case(func() string { return fmt.Sprintf("%v %v to %v", v, a, b) }, func() (string, string) {
						hl.Step(1)
						want, ok := conv(v, a, b)
						got, err := unitpb.Convert(v, a, b)
						if (err == nil) != ok {
							return "", fmt.Sprintf("units: convert = %v, %v, want %v, ok=%v", got, err, want, ok)
						}
						got32, err32 := unitpb.Convert32(float32(v), a, b)
						if (err32 == nil) != ok {
							return "", fmt.Sprintf("units: convert32 = %v, %v, want %v, ok=%v", got32, err32, want, ok)
						}
						if !ok {
							return "error", ""
						}
						if math.Abs(got-want) > 1e-9*math.Abs(want) || math.Abs(want) <= math.MaxFloat32 && math.Abs(float64(got32)-want) > 1e-6*math.Abs(want) {
							return "", fmt.Sprintf("units: convert = %v / %v, want %v", got, got32, want)
						}
						back, err := unitpb.Convert(got, b, a)
						if err != nil || math.Abs(back-v) > 1e-12*math.Abs(v) {
							return "", fmt.Sprintf("units: there and back is %v, %v", back, err)
						}
						return fmt.Sprint(got), ""
					}) {
						return
					}
				}
			}
		}
	})
}

func q(u unit, a float32) *qty { return &qty{Unit: u, Amount: a} }

func cloneStock(s *stock) *stock { return proto.Clone(s).(*stock) }

// dispense is the specification of dispensing.
func dispense(s *stock, d *qty) (*stock, bool) {
	n := cloneStock(s)
	if n.Used != nil {
		x, ok := conv(float64(d.GetAmount()), d.GetUnit(), n.Used.Unit)
		if !ok {
			return s, false
		}
		n.Used.Amount = float32(float64(n.Used.Amount) + x)
	}
	if n.Remaining != nil {
		x, ok := conv(float64(d.GetAmount()), d.GetUnit(), n.Remaining.Unit)
		if !ok {
			return s, false
		}
		n.Remaining.Amount = float32(math.Max(0, float64(n.Remaining.Amount)-x))
	}
	if d != nil {
		n.LastDispensed = proto.Clone(d).(*qty)
	}
	n.Dispensing = false
	return n, true
}

func sameQty(a, b *qty) bool {
	return (a == nil) == (b == nil) && a.GetUnit() == b.GetUnit() && near(float64(a.GetAmount()), float64(b.GetAmount()))
}

func sameStock(a, b *stock) bool {
	return a.GetConsumable() == b.GetConsumable() && sameQty(a.GetUsed(), b.GetUsed()) && sameQty(a.GetRemaining(), b.GetRemaining()) &&
		sameQty(a.GetLastDispensed(), b.GetLastDispensed()) && a.GetDispensing() == b.GetDispensing()
}

func dispenseSeq(init *stock, ds []*qty, server bool) (string, string) {
	m := vendingpb.NewModel(vendingpb.WithInitialStock(cloneStock(init)))
	srv := vendingpb.NewModelServer(m)
	want := init
	for i, d := range ds {
		given := d
		if d != nil {
			given = proto.Clone(d).(*qty)
		}
		n, ok := dispense(want, d)
		var got *stock
		var err error
		if server {
			got, err = srv.Dispense(context.Background(), &traits.DispenseRequest{Name: "n", Consumable: init.Consumable, Quantity: given})
		} else {
			got, err = m.DispenseInstantly(init.Consumable, given)
		}
		hl.Step(1)
		after, there := m.GetStock(init.Consumable)
		if !there {
			return "", fmt.Sprintf("dispense-gone: after dispensing %v the stock is gone", d)
		}
		if d == nil && err != nil {
			n, ok = want, false // refusing to dispense nothing is fine
		}
		if (err == nil) != ok {
			return "", fmt.Sprintf("dispense-error: dispensing %d: %v from %v: error %v, want ok=%v", i, d, want, err, ok)
		}
		if d == nil && ok {
			n.LastDispensed = after.LastDispensed // open
		}
		if !sameStock(after, n) {
			return "", fmt.Sprintf("dispense-state: dispensing %d: %v from %v: the stock is %v, want %v", i, d, want, after, n)
		}
		if ok && !sameStock(got, n) {
			return "", fmt.Sprintf("dispense-result: dispensing %d: %v from %v: returned %v, want %v", i, d, want, got, n)
		}
		if d != nil && !proto.Equal(given, d) {
			return "", fmt.Sprintf("dispense-arg: the quantity %v became %v", d, given)
		}
		want = after // so that roundings do not add up
	}
	return fmt.Sprint(want), ""
}

func vending(s *scenarios) {
	amounts := []float32{0, 0.5, 2000}
	s.enum("vending/dispense", 4, func(e *hl.E) {
		var qs []*qty
		qs = append(qs, nil)
		for _, u := range allUnits {
			for _, a := range amounts {
				qs = append(qs, q(u, a))
			}
		}
		ds := []*qty{nil}
		for _, u := range allUnits {
			for _, a := range []float32{0, 0.25, 1, 3} {
				ds = append(ds, q(u, a))
			}
		}
		for _, used := range qs {
			for _, rem := range qs {
				st := &stock{Consumable: "c", Used: used, Remaining: rem, LastDispensed: q(1, 7), Dispensing: true}
				for _, d := range ds {
					for _, server := range []bool{false, true} {
						if !e.Case(func() string { return fmt.Sprintf("%v dispense %v server=%v", st, d, server) }, func() (string, string) {
							return dispenseSeq(st, []*qty{d}, server)
						}) {
							return
						}
					}
				}
			}
		}
	})
	s.enum("vending/sequences", 4, func(e *hl.E) {
		ds := []*qty{q(3, 1), q(4, 0.001), q(5, 2), q(6, 1), q(1, 1), q(3, 0), q(3, 2.5)}
		for _, st := range []*stock{
			{Consumable: "c", Used: q(3, 0), Remaining: q(3, 5)},
			{Consumable: "c", Used: q(4, 1), Remaining: q(5, 10)},
			{Consumable: "c", Remaining: q(4, 0.004)},
			{Consumable: "c", Used: q(5, 1)},
			{Consumable: "c"},
			{Consumable: "c", Used: q(6, 1), Remaining: q(3, 5)},
			{Consumable: "c", Used: q(1, 1), Remaining: q(1, 2)},
		} {
			words(len(ds), hl.Pick(5, 6), func(w []int) bool {
				p := pick(ds, w)
				return e.Case(func() string { return fmt.Sprintf("%v dispense %v", st, p) }, func() (string, string) { return dispenseSeq(st, p, false) })
			})
		}
	})
	s.enum("vending/unknown", 1, func(e *hl.E) {
		for _, server := range []bool{false, true} {
			e.Case(func() string { return "dispense an unknown consumable" }, func() (string, string) {
				m := vendingpb.NewModel()
				var err error
				if server {
					_, err = vendingpb.NewModelServer(m).Dispense(context.Background(), &traits.DispenseRequest{Consumable: "c", Quantity: q(3, 1)})
				} else {
					_, err = m.DispenseInstantly("c", q(3, 1))
				}
				if status.Code(err) != codes.NotFound || len(m.ListInventory()) != 0 {
					return "", fmt.Sprintf("dispense-unknown: error %v, inventory %v", err, m.ListInventory())
				}
				return "", ""
			})
		}
		for bits := 0; bits < 16; bits++ {
			e.Case(func() string { return fmt.Sprintf("initial records %04b", bits) }, func() (string, string) {
				var ss []*stock
				var cs []*traits.Consumable
				for i := 0; i < 2; i++ {
					if bits>>i&1 == 1 {
						ss = append(ss, &stock{Consumable: fmt.Sprint("s", i), Used: q(3, 1)})
					}
					if bits>>(2+i)&1 == 1 {
						cs = append(cs, &traits.Consumable{Name: fmt.Sprint("c", i), DisplayName: "d"})
					}
				}
				m := vendingpb.NewModel(vendingpb.WithInitialStock(ss...), vendingpb.WithInitialConsumable(cs...))
				gs, gc := m.ListInventory(), m.ListConsumables()
				if len(gs) != len(ss) || len(gc) != len(cs) {
					return "", fmt.Sprintf("vending-initial: inventory %v consumables %v, configured %v %v", gs, gc, ss, cs)
				}
				for i := range ss {
					if !proto.Equal(gs[i], ss[i]) {
						return "", fmt.Sprintf("vending-initial: inventory %v, configured %v", gs, ss)
					}
				}
				for i := range cs {
					if !proto.Equal(gc[i], cs[i]) {
						return "", fmt.Sprintf("vending-initial: consumables %v, configured %v", gc, cs)
					}
				}
				return "", ""
			})
		}
	})
	race := func(ds ...[]*qty) vrt.Body {
		return func() (string, string) {
			st := &stock{Consumable: "c", Used: q(3, 1), Remaining: q(3, 4)}
			m := vendingpb.NewModel(vendingpb.WithInitialStock(cloneStock(st)))
			var oks []*qty
			var bad error
			var fs []func()
			for _, p := range ds {
				fs = append(fs, func() {
					for _, d := range p {
						_, err := m.DispenseInstantly("c", proto.Clone(d).(*qty))
						_, ok := conv(1, d.Unit, 3)
						switch {
						case err == nil && ok:
							oks = append(oks, d)
						case err == nil:
							bad = fmt.Errorf("an inconvertible quantity %v was dispensed", d)
						case ok && !lost(err):
							bad = err
						}
					}
				})
			}
			par(fs...)
			if bad != nil {
				return "", "dispense-race: " + bad.Error()
			}
			used := 1.0
			for _, d := range oks {
				x, _ := conv(float64(d.Amount), d.Unit, 3)
				used += x
			}
			got, _ := m.GetStock("c")
			if !near(float64(got.Used.GetAmount()), used) || !near(float64(got.Remaining.GetAmount()), math.Max(0, 5-used)) {
				return "", fmt.Sprintf("dispense-race: %v after dispensing %v from %v", got, oks, st)
			}
			return fmt.Sprint(got), ""
		}
	}
	s.conc("vending/race/2", 3, 5, race([]*qty{q(3, 1)}, []*qty{q(5, 2)}))
	s.conc("vending/race/bad", 2, 4, race([]*qty{q(3, 1), q(6, 1)}, []*qty{q(5, 2)}))
	s.conc("vending/race/floor", 2, 4, race([]*qty{q(3, 3)}, []*qty{q(3, 2)}))
	s.conc("vending/race/3", 2, 3, race([]*qty{q(3, 1), q(4, 0.001)}, []*qty{q(5, 2)}, []*qty{q(3, 0.5)}))
}
