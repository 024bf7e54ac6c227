package rm

import (
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

type T = testproto.TestAllTypes
type N = testproto.TestAllTypes_NestedMessage

// Nesteds are values for a message field.
func Nesteds() []*N {
	return []*N{
		nil,
		{},
		{A: 1},
		{A: 2, Corecursive: &T{DefaultString: "q", RepeatedInt32: []int32{7}}},
		{Corecursive: &T{DefaultString: "r", DefaultNestedMessage: &N{A: 5}}},
	}
}

// Small returns messages over a small universe of fields: a string, a nested
// message, a list and a map.
func Small(alt bool) []*T {
	var out []*T
	str, lists, maps := []string{"", "s"}, [][]int32{nil, {1}}, []map[string]string{nil, {"k": "v"}}
	if alt {
		str, lists, maps = []string{"", "t"}, [][]int32{nil, {2, 3}}, []map[string]string{nil, {"k": "w", "l": "x"}}
	}
	for _, s := range str {
		for _, n := range Nesteds() {
			for _, l := range lists {
				for _, m := range maps {
					x := &T{DefaultString: s, RepeatedInt32: l, MapStringString: m}
					if n != nil {
						x.DefaultNestedMessage = proto.Clone(n).(*N)
					}
					out = append(out, x)
				}
			}
		}
	}
	return out
}

// Paths is the universe of mask paths; the tail is invalid.
var Paths = []string{
	"default_string", "default_nested_message", "default_nested_message.a", "default_nested_message.corecursive",
	"default_nested_message.corecursive.default_string", "default_nested_message.corecursive.default_nested_message.a",
	"repeated_int32", "map_string_string", "default_int32",
	// invalid
	"bogus", "default_nested_message.bogus", "default_string.x", "map_string_string.k", "repeated_int32.x", "map_string_nested_message.k.a", "repeated_nested_message.a", "",
}

const ValidCount = 9

// Subsets returns nil, the empty mask and every list of up to n of the paths in both orders when n is 2.
func Subsets(paths []string, n int) []Mask {
	out := []Mask{{}, MaskOf()}
	for i, a := range paths {
		out = append(out, MaskOf(a))
		if n < 2 {
			continue
		}
		for j, b := range paths {
			if i == j {
				out = append(out, MaskOf(a, a))
				continue
			}
			out = append(out, MaskOf(a, b))
			if n < 3 || j < i {
				continue
			}
			for k := j + 1; k < len(paths); k++ {
				out = append(out, MaskOf(a, b, paths[k]))
			}
		}
	}
	return out
}

// FieldValue returns the v-th non-default example value for fd: v = 0 is the
// zero value (meaningful for fields with presence).
func FieldValue(m protoreflect.Message, fd protoreflect.FieldDescriptor, v int) protoreflect.Value {
	switch {
	case fd.IsList():
		l := m.NewField(fd).List()
		for i := 0; i < v; i++ {
			if fd.Message() != nil {
				e := l.NewElement()
				fill(e.Message(), v+i)
				l.Append(e)
			} else {
				l.Append(scalar(fd, v+i))
			}
		}
		return protoreflect.ValueOfList(l)
	case fd.IsMap():
		mp := m.NewField(fd).Map()
		for i := 0; i < v; i++ {
			k := scalar(fd.MapKey(), v-i).MapKey()
			if fd.MapValue().Message() != nil {
				e := mp.NewValue()
				fill(e.Message(), v+i)
				mp.Set(k, e)
			} else {
				mp.Set(k, scalar(fd.MapValue(), v+i))
			}
		}
		return protoreflect.ValueOfMap(mp)
	case fd.Message() != nil:
		e := m.NewField(fd)
		if v > 0 {
			fill(e.Message(), v)
		}
		return e
	}
	return scalar(fd, v)
}

func fill(m protoreflect.Message, v int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len() && i < 2; i++ {
		fd := fs.Get(i)
		if fd.Message() == nil && !fd.IsList() {
			if v%3 != 1 || i == 0 {
				m.Set(fd, scalar(fd, v))
			}
		} else if !fd.IsList() && !fd.IsMap() && fd.Message().FullName() != m.Descriptor().FullName() && v%2 == 0 {
			s := m.Mutable(fd).Message()
			sf := s.Descriptor().Fields()
			for j := 0; j < sf.Len(); j++ {
				if f := sf.Get(j); f.Message() == nil && !f.IsList() {
					s.Set(f, scalar(f, v))
					break
				}
			}
		}
	}
}

func scalar(fd protoreflect.FieldDescriptor, v int) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(v%2 == 1)
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(v % vs.Len()).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(v))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(v))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(v))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(v))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(v) / 2)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(v) / 2)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(string("abcdefghij"[:v]))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte("abcdefghij"[:v]))
	}
	panic(fd.Kind())
}
