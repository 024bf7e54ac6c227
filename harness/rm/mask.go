// Package rm holds the reference semantics the harnesses compare the code with.
package rm

import (
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Tree is a normalised field mask; a nil/empty child selects the whole field.
type Tree map[string]Tree

// MaskTree normalises paths: a path covers every longer path below it.
func MaskTree(paths []string) Tree {
	ps := append([]string(nil), paths...)
	sort.Slice(ps, func(i, j int) bool { return len(ps[i]) < len(ps[j]) })
	root := Tree{}
outer:
	for _, p := range ps {
		t := root
		segs := strings.Split(p, ".")
		for i, s := range segs {
			c, ok := t[s]
			if i == len(segs)-1 {
				if !ok {
					t[s] = nil
				}
				continue outer
			}
			if ok && len(c) == 0 {
				continue outer // covered by a shorter path
			}
			if !ok {
				c = Tree{}
				t[s] = c
			}
			t = c
		}
	}
	return root
}

// Intersect returns the paths selected by both.
func Intersect(a, b Tree) Tree {
	out := Tree{}
	for k, ca := range a {
		cb, ok := b[k]
		if !ok {
			continue
		}
		switch {
		case len(ca) == 0:
			out[k] = cb
		case len(cb) == 0:
			out[k] = ca
		default:
			if c := Intersect(ca, cb); len(c) > 0 {
				out[k] = c
			}
		}
	}
	return out
}

// Covers reports whether every path of b is selected by a.
func Covers(a, b Tree) bool {
	for k, cb := range b {
		ca, ok := a[k]
		if !ok {
			return false
		}
		if len(ca) == 0 {
			continue
		}
		if len(cb) == 0 || !Covers(ca, cb) {
			return false
		}
	}
	return true
}

// Overlaps reports whether every path of b has something in common with a.
func Overlaps(a Tree, paths []string) bool {
	for _, p := range paths {
		if len(Intersect(a, MaskTree([]string{p}))) == 0 {
			return false
		}
	}
	return true
}

// ValidPath reports whether p names a field of md, passing only through
// singular message fields.
func ValidPath(md protoreflect.MessageDescriptor, p string) bool {
	for _, s := range strings.Split(p, ".") {
		if md == nil {
			return false
		}
		fd := md.Fields().ByName(protoreflect.Name(s))
		if fd == nil {
			return false
		}
		md = nil
		if fd.Message() != nil && !fd.IsMap() && !fd.IsList() {
			md = fd.Message()
		}
	}
	return true
}

func ValidPaths(m proto.Message, paths []string) bool {
	for _, p := range paths {
		if !ValidPath(m.ProtoReflect().Descriptor(), p) {
			return false
		}
	}
	return true
}

// Project returns a new message with just the fields of t (valid paths only).
func Project(m proto.Message, t Tree) proto.Message {
	out := m.ProtoReflect().New()
	project(out, m.ProtoReflect(), t)
	return out.Interface()
}

func project(dst, src protoreflect.Message, t Tree) {
	for k, c := range t {
		fd := src.Descriptor().Fields().ByName(protoreflect.Name(k))
		if fd == nil || !src.Has(fd) {
			continue
		}
		if len(c) == 0 {
			copyField(dst, src, fd)
			continue
		}
		project(dst.Mutable(fd).Message(), src.Get(fd).Message(), c)
	}
}

// copyField sets dst.fd to a deep copy of src.fd (clearing it if unset).
func copyField(dst, src protoreflect.Message, fd protoreflect.FieldDescriptor) {
	dst.Clear(fd)
	mergeField(dst, src, fd)
}

// mergeField merges src.fd into dst.fd: scalars overwrite, messages merge,
// lists append, maps insert.
func mergeField(dst, src protoreflect.Message, fd protoreflect.FieldDescriptor) {
	if !src.Has(fd) {
		return
	}
	switch {
	case fd.IsList():
		d, s := dst.Mutable(fd).List(), src.Get(fd).List()
		for i := 0; i < s.Len(); i++ {
			d.Append(cloneValue(fd, s.Get(i)))
		}
	case fd.IsMap():
		d := dst.Mutable(fd).Map()
		src.Get(fd).Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
			d.Set(k, cloneValue(fd.MapValue(), v))
			return true
		})
	case fd.Message() != nil:
		d, s := dst.Mutable(fd).Message(), src.Get(fd).Message()
		fs := s.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			mergeField(d, s, fs.Get(i))
		}
		if len(s.GetUnknown()) > 0 {
			d.SetUnknown(append(append(protoreflect.RawFields(nil), d.GetUnknown()...), s.GetUnknown()...))
		}
	default:
		dst.Set(fd, cloneValue(fd, src.Get(fd)))
	}
}

func cloneValue(fd protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
	if fd.Message() != nil {
		return protoreflect.ValueOfMessage(proto.Clone(v.Message().Interface()).ProtoReflect())
	}
	if fd.Kind() == protoreflect.BytesKind {
		return protoreflect.ValueOfBytes(append([]byte{}, v.Bytes()...))
	}
	return v
}

// Write computes the stored message after writing src over old with update mask
// M, writable fields W and reset mask R (nil slices mean "no mask").
func Write(old, src proto.Message, M, W []string, mNil, wNil bool, R []string) proto.Message {
	dst := proto.Clone(old)
	if !mNil && len(M) == 0 {
		return dst
	}
	switch {
	case mNil && wNil:
		dst = proto.Clone(src)
	case mNil:
		replace(dst.ProtoReflect(), src.ProtoReflect(), MaskTree(W))
	default:
		t := MaskTree(M)
		if !wNil {
			t = Intersect(t, MaskTree(W))
		}
		update(dst.ProtoReflect(), src.ProtoReflect(), t)
	}
	clearTree(dst.ProtoReflect(), MaskTree(R))
	return dst
}

func sub(m protoreflect.Message, fd protoreflect.FieldDescriptor) protoreflect.Message {
	return m.Get(fd).Message() // an empty read-only message if unset
}

func replace(dst, src protoreflect.Message, t Tree) {
	for k, c := range t {
		fd := dst.Descriptor().Fields().ByName(protoreflect.Name(k))
		if len(c) == 0 {
			copyField(dst, src, fd)
			continue
		}
		if !dst.Has(fd) && !src.Has(fd) {
			continue
		}
		replace(dst.Mutable(fd).Message(), sub(src, fd), c)
	}
}

func update(dst, src protoreflect.Message, t Tree) {
	for k, c := range t {
		fd := dst.Descriptor().Fields().ByName(protoreflect.Name(k))
		switch {
		case len(c) > 0:
			if !dst.Has(fd) && !src.Has(fd) {
				continue
			}
			update(dst.Mutable(fd).Message(), sub(src, fd), c)
		case !src.Has(fd):
			dst.Clear(fd)
		case fd.IsList() || fd.IsMap() || fd.Message() != nil:
			mergeField(dst, src, fd)
		default:
			copyField(dst, src, fd)
		}
	}
}

func clearTree(dst protoreflect.Message, t Tree) {
	for k, c := range t {
		fd := dst.Descriptor().Fields().ByName(protoreflect.Name(k))
		if fd == nil {
			continue
		}
		if len(c) == 0 {
			dst.Clear(fd)
		} else if dst.Has(fd) {
			clearTree(dst.Mutable(fd).Message(), c)
		}
	}
}

// Canon clears message fields that are prefixes of some path in t and empty, so
// that the presence of an empty intermediate message does not matter.
func Canon(m proto.Message, ts ...Tree) proto.Message {
	if m == nil {
		return nil
	}
	m = proto.Clone(m)
	for _, t := range ts {
		canon(m.ProtoReflect(), t)
	}
	return m
}

func canon(m protoreflect.Message, t Tree) {
	for k, c := range t {
		if len(c) == 0 {
			continue
		}
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(k))
		if fd == nil || !m.Has(fd) || fd.IsList() || fd.IsMap() || fd.Message() == nil {
			continue
		}
		s := m.Mutable(fd).Message()
		canon(s, c)
		if proto.Size(s.Interface()) == 0 {
			m.Clear(fd)
		}
	}
}
