package main

import (
	"math"
	"math/big"
	"time"

	pref "google.golang.org/protobuf/reflect/protoreflect"
)

// rule says which differences a comparer tolerates.
type rule struct {
	float            bool
	fraction, margin float64
	tm               bool
	tmD              time.Duration
	dur              bool
	durD             time.Duration
	durP             bool
	p                float32
}

func rat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

// floatIn is the specification of FloatValueApprox.
func floatIn(x, y, fraction, margin float64) bool {
	if math.IsNaN(x) || math.IsNaN(y) {
		return math.IsNaN(x) && math.IsNaN(y)
	}
	if math.IsInf(x, 0) || math.IsInf(y, 0) {
		return x == y
	}
	d := new(big.Rat).Sub(rat(x), rat(y))
	d.Abs(d)
	if d.Cmp(rat(margin)) <= 0 {
		return true
	}
	lim := new(big.Rat).Mul(rat(fraction), rat(math.Min(math.Abs(x), math.Abs(y))))
	return d.Cmp(lim) <= 0
}

func nanos(m pref.Message) *big.Int {
	fs := m.Descriptor().Fields()
	s := big.NewInt(m.Get(fs.ByName("seconds")).Int())
	s.Mul(s, big.NewInt(1e9))
	return s.Add(s, big.NewInt(m.Get(fs.ByName("nanos")).Int()))
}

func diff(x, y pref.Message) *big.Int {
	d := new(big.Int).Sub(nanos(x), nanos(y))
	return d.Abs(d)
}

// refMsg is the specification of Equal with the comparers of r.
func refMsg(x, y pref.Message, r rule) bool {
	if x.Descriptor() != y.Descriptor() {
		return false
	}
	seen := map[pref.FieldNumber]pref.FieldDescriptor{}
	for _, m := range []pref.Message{x, y} {
		m.Range(func(fd pref.FieldDescriptor, _ pref.Value) bool {
			seen[fd.Number()] = fd
			return true
		})
	}
	for _, fd := range seen {
		if fd.Name() == "change_time" && x.Descriptor().Name() == "Change" {
			continue
		}
		hx, hy := x.Has(fd), y.Has(fd)
		vx, vy := x.Get(fd), y.Get(fd)
		switch {
		case fd.IsList():
			if vx.List().Len() != vy.List().Len() {
				return false
			}
			for i := 0; i < vx.List().Len(); i++ {
				if !refVal(fd, vx.List().Get(i), vy.List().Get(i), r) {
					return false
				}
			}
		case fd.IsMap():
			if vx.Map().Len() != vy.Map().Len() {
				return false
			}
			ok := true
			vx.Map().Range(func(k pref.MapKey, v pref.Value) bool {
				ok = vy.Map().Has(k) && refVal(fd.MapValue(), v, vy.Map().Get(k), r)
				return ok
			})
			if !ok {
				return false
			}
		case hx && hy:
			if !refVal(fd, vx, vy, r) {
				return false
			}
		case !fd.HasPresence() && r.float && (fd.Kind() == pref.FloatKind || fd.Kind() == pref.DoubleKind):
			// not set is zero
			if !refVal(fd, vx, vy, r) {
				return false
			}
		default:
			return false
		}
	}
	return refUnknown(x.GetUnknown(), y.GetUnknown())
}

func refVal(fd pref.FieldDescriptor, x, y pref.Value, r rule) bool {
	switch fd.Kind() {
	case pref.FloatKind, pref.DoubleKind:
		if r.float {
			return floatIn(x.Float(), y.Float(), r.fraction, r.margin)
		}
		return floatIn(x.Float(), y.Float(), 0, 0)
	case pref.MessageKind, pref.GroupKind:
		mx, my := x.Message(), y.Message()
		switch fd.Message().FullName() {
		case "google.protobuf.Timestamp":
			if r.tm {
				return diff(mx, my).Cmp(big.NewInt(int64(r.tmD))) <= 0
			}
		case "google.protobuf.Duration":
			ok := true
			if r.dur {
				ok = diff(mx, my).Cmp(big.NewInt(int64(r.durD))) <= 0
			}
			if r.durP {
				nx, ny := nanos(mx), nanos(my)
				nx.Abs(nx)
				ny.Abs(ny)
				if nx.Cmp(ny) > 0 {
					nx = ny
				}
				lim := new(big.Rat).Mul(new(big.Rat).SetInt(nx), rat(float64(r.p)))
				d := new(big.Rat).SetInt(diff(mx, my))
				d.Mul(d, big.NewRat(100, 1))
				ok = ok && d.Cmp(lim) <= 0
			}
			if r.dur || r.durP {
				return ok
			}
		}
		return refMsg(mx, my, r)
	case pref.BytesKind:
		return string(x.Bytes()) == string(y.Bytes())
	}
	return x.Interface() == y.Interface()
}

// refUnknown compares fields of each number in order.
func refUnknown(x, y pref.RawFields) bool {
	return splitRaw(x) == splitRaw(y)
}
