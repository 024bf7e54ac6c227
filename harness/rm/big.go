package rm

import "strings"

// Below is the path of a field of the d-th message within.
func Below(d int, field string) string {
	p := strings.Repeat("default_nested_message.corecursive.", d)
	if field == "" {
		return strings.TrimSuffix(p, ".")
	}
	return p + field
}

// Big is a message with all sorts of fields set to their v-th value, messages within
// messages to the given depth, and elems elements per list.
func Big(v, depth, elems int) *T {
	x := &T{}
	fs := x.ProtoReflect().Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if fd := fs.Get(i); fd.Message() == nil || fd.IsList() || fd.IsMap() {
			x.ProtoReflect().Set(fd, FieldValue(x.ProtoReflect(), fd, v))
		}
	}
	x.RepeatedInt32, x.RepeatedNestedMessage = nil, nil
	for i := 0; i < elems; i++ {
		x.RepeatedInt32 = append(x.RepeatedInt32, int32(v+i))
		x.RepeatedNestedMessage = append(x.RepeatedNestedMessage, &N{A: int32(v * i)})
	}
	top := x
	for d := 1; d <= depth; d++ {
		y := &T{DefaultString: strings.Repeat("x", d+v), DefaultInt32: int32(10*d + v), DefaultBool: (d+v)%2 == 0, RepeatedInt32: []int32{int32(d), int32(v)}, MapStringString: map[string]string{"k": strings.Repeat("m", d+v)}}
		x.DefaultNestedMessage = &N{A: int32(d + 10*v), Corecursive: y}
		x = y
	}
	return top
}

// BigMasks are masks of many paths, and of long ones.
func BigMasks(depth int) (r []Mask) {
	var names []string
	fs := (&T{}).ProtoReflect().Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		names = append(names, string(fs.Get(i).Name()))
	}
	rev := func(p []string) (q []string) {
		for i := range p {
			q = append(q, p[len(p)-1-i])
		}
		return
	}
	add := func(p ...string) {
		r = append(r, MaskOf(p...))
		if len(p) > 1 {
			r = append(r, MaskOf(rev(p)...))
		}
	}
	for _, k := range []int{3, 5, 8, 9, 16, 17, 33, len(names)} {
		if k > len(names) {
			continue
		}
		add(names[:k]...)
		add(names[len(names)-k:]...)
		add(append(rev(names[:k]), names[:k]...)...)
		var every []string
		for i := 0; i < len(names); i += 1 + len(names)/k {
			every = append(every, names[i])
		}
		add(every...)
		add(append(names[:k:k], "bogus")...)
	}
	leaves := []string{"default_string", "default_int32", "repeated_int32", "map_string_string", "default_nested_message.a"}
	var strs, all []string
	for d := 0; d <= depth; d++ {
		strs = append(strs, Below(d, "default_string"))
		for _, f := range leaves {
			all = append(all, Below(d, f))
		}
		add(strs...)
		add(all...)
		if d == 0 {
			continue
		}
		add(Below(d, "default_string"))
		add(Below(d, ""))
		add(Below(d, ""), Below(d, "default_int32"))
		add(Below(d, "default_string"), Below(d/2, "default_int32"), "repeated_int32")
		add(Below(d, "bogus"))
		var sib []string
		for _, f := range names {
			sib = append(sib, Below(d, f))
		}
		add(sib...)
		add(append(append([]string{}, names...), sib...)...)
	}
	return
}
