package rm

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// Mask is an optional field mask.
type Mask struct {
	Set   bool
	Paths []string
}

func MaskOf(paths ...string) Mask { return Mask{Set: true, Paths: paths} }

func (m Mask) String() string {
	if !m.Set {
		return "nil"
	}
	return "[" + strings.Join(m.Paths, ",") + "]"
}

func (m Mask) PB() *fieldmaskpb.FieldMask {
	if !m.Set {
		return nil
	}
	return &fieldmaskpb.FieldMask{Paths: append([]string{}, m.Paths...)}
}

var ErrCheck = errors.New("verif: check failed")
var ErrCheckStatus = status.Error(codes.DataLoss, "verif: check failed")

// W is a write's options, over messages of type traits.Metadata.
type W struct {
	M, R    Mask
	EV      *traits.Metadata // expected value
	EC      int              // 0 none, 1 passing, 2 plain error, 3 status error, 4 passes iff name == "x"
	Absent  bool
	Create  bool
	Gen     bool
	Missing bool
	Before  int // 1: new.name = old.name+"+"; 2: new.appearance.title from old
	After   int // 1: new.location/id = computed from old
	Time    *time.Time
	More    Mask // more writable fields
	AllW    bool
	NoCB    bool   // do not ask for callbacks
	Window  func() // called inside the callbacks that run between reading and saving
}

func (w W) String() string {
	var b strings.Builder
	add := func(ok bool, f string, a ...any) {
		if ok {
			fmt.Fprintf(&b, " "+f, a...)
		}
	}
	add(w.M.Set, "mask=%v", w.M)
	add(w.R.Set, "reset=%v", w.R)
	add(w.EV != nil, "expect={%v}", w.EV)
	add(w.EC != 0, "check=%d", w.EC)
	add(w.Absent, "expectAbsent")
	add(w.Create, "createIfAbsent")
	add(w.Gen, "genID")
	add(w.Missing, "allowMissing")
	add(w.Before != 0, "before=%d", w.Before)
	add(w.After != 0, "after=%d", w.After)
	add(w.Time != nil, "writeTime")
	add(w.More.Set, "moreWritable=%v", w.More)
	add(w.AllW, "allWritable")
	return b.String()
}

// Calls counts callback invocations of one real call.
type Calls struct {
	IDs     []string
	Created int
	Checks  int
	Befores int
	Afters  int
}

func name(m proto.Message) string {
	x, _ := m.(*traits.Metadata)
	return x.GetName()
}

func (w W) check(old proto.Message) error {
	switch w.EC {
	case 2:
		return ErrCheck
	case 3:
		return ErrCheckStatus
	case 4:
		if name(old) != "x" {
			return ErrCheckStatus
		}
	}
	return nil
}

func (w W) before(old, new proto.Message) {
	n := new.(*traits.Metadata)
	switch w.Before {
	case 1:
		n.Name = name(old) + "+"
	case 2:
		n.Appearance = &traits.Metadata_Appearance{Title: "b" + name(old)}
	}
}

func (w W) after(old, new proto.Message) {
	n := new.(*traits.Metadata)
	switch w.After {
	case 1:
		n.Product = &traits.Metadata_Product{Title: name(old) + ">" + n.Name}
	}
}

// Opts builds the real options.
func (w W) Opts(c *Calls) []resource.WriteOption {
	var o []resource.WriteOption
	if w.M.Set {
		o = append(o, resource.WithUpdateMask(w.M.PB()))
	}
	if w.R.Set {
		o = append(o, resource.WithResetMask(w.R.PB()))
	}
	if w.EV != nil {
		o = append(o, resource.WithExpectedValue(proto.Clone(w.EV)))
	}
	if w.Window != nil {
		if w.EC == 0 {
			o = append(o, resource.WithExpectedCheck(func(proto.Message) error { w.Window(); return nil }))
		} else {
			o = append(o, resource.WithExpectedCheck(func(old proto.Message) error { w.Window(); c.Checks++; return w.check(old) }))
		}
	} else if w.EC != 0 {
		o = append(o, resource.WithExpectedCheck(func(old proto.Message) error { c.Checks++; return w.check(old) }))
	}
	if w.Absent {
		o = append(o, resource.WithExpectAbsent())
	}
	if w.Create {
		o = append(o, resource.WithCreateIfAbsent())
	}
	if w.Gen {
		o = append(o, resource.WithGenIDIfAbsent())
	}
	if !w.NoCB {
		o = append(o, resource.WithIDCallback(func(id string) { c.IDs = append(c.IDs, id) }),
			resource.WithCreatedCallback(func() { c.Created++ }))
	}
	if w.Missing {
		o = append(o, resource.WithAllowMissing(true))
	}
	if w.Before != 0 {
		o = append(o, resource.InterceptBefore(func(old, new proto.Message) { c.Befores++; w.before(old, new) }))
	}
	if w.After != 0 {
		o = append(o, resource.InterceptAfter(func(old, new proto.Message) { c.Afters++; w.after(old, new) }))
	}
	if w.Time != nil {
		o = append(o, resource.WithWriteTime(*w.Time))
	}
	if w.More.Set {
		o = append(o, resource.WithMoreWritableFields(w.More.PB()))
	}
	if w.AllW {
		o = append(o, resource.WithAllFieldsWritable())
	}
	return o
}

// Item is a model item.
type Item struct {
	Msg  proto.Message
	Time time.Time
}

// Store is the reference id to message map.
type Store struct {
	Items map[string]Item
	W     Mask
	Icpt  func(string) string
}

func NewStore() *Store { return &Store{Items: map[string]Item{}} }

func (s *Store) Clone() *Store {
	c := &Store{Items: map[string]Item{}, W: s.W, Icpt: s.Icpt}
	for k, v := range s.Items {
		c.Items[k] = v
	}
	return c
}

func (s *Store) Key(id string) string {
	if s.Icpt != nil {
		return s.Icpt(id)
	}
	return id
}

func (s *Store) IDs() []string {
	var ids []string
	for k := range s.Items {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	return ids
}

func Text(m proto.Message) string {
	if m == nil {
		return "<nil>"
	}
	b, err := prototext.MarshalOptions{}.Marshal(m)
	if err != nil {
		return err.Error()
	}
	t := strings.ReplaceAll(string(b), "  ", " ")
	if len(m.ProtoReflect().GetUnknown()) > 0 {
		t += fmt.Sprintf(" unknown:%x", []byte(m.ProtoReflect().GetUnknown()))
	}
	return "{" + t + "}"
}

func (s *Store) String() string {
	var b strings.Builder
	for _, id := range s.IDs() {
		fmt.Fprintf(&b, "%q=%s ", id, Text(s.Items[id].Msg))
	}
	return b.String()
}

// Want is what the specification says about one call.
type Want struct {
	// Fails lists the reasons the call must fail for (any of them may be reported);
	// empty: it must succeed.
	Fails []error
	// May lists reasons it is allowed, but not required, to fail for.
	May    []error
	New    proto.Message // the value stored by success
	Create bool          // success creates
	Trees  []Tree        // masks whose intermediate messages' presence does not matter
}

var (
	eInvalid = status.Error(codes.InvalidArgument, "")
	eIntern  = status.Error(codes.Internal, "")
	eExists  = status.Error(codes.AlreadyExists, "")
	eMissing = status.Error(codes.NotFound, "")
	ePre     = status.Error(codes.FailedPrecondition, "")
)

func hasErr(errs []error, err error) bool {
	for _, e := range errs {
		if errors.Is(err, e) {
			return true
		}
		if c := status.Code(e); c != codes.Unknown && c == status.Code(err) {
			return true
		}
	}
	return false
}

// writable combines the store's writable fields with the call's.
func (w W) writable(base Mask) Mask {
	if w.AllW || !base.Set {
		return Mask{}
	}
	if w.More.Set {
		return Mask{Set: true, Paths: append(append([]string{}, base.Paths...), w.More.Paths...)}
	}
	return base
}

// Update computes what writing msg over old must do (old nil: absent or unset).
func (w W) Update(old proto.Message, exists, isValue bool, base Mask, msg proto.Message) Want {
	var r Want
	wm := w.writable(base)
	if w.M.Set {
		if !ValidPaths(msg, w.M.Paths) {
			r.Fails = append(r.Fails, eInvalid)
		} else if wm.Set {
			wt := MaskTree(wm.Paths)
			if !Overlaps(wt, w.M.Paths) {
				r.Fails = append(r.Fails, eInvalid)
			} else if !Covers(wt, MaskTree(w.M.Paths)) {
				r.May = append(r.May, eInvalid)
			}
		}
	}
	if w.R.Set && !ValidPaths(msg, w.R.Paths) {
		r.Fails = append(r.Fails, eInvalid, eIntern)
	}
	if !isValue {
		if exists && w.Absent {
			r.Fails = append(r.Fails, eExists)
		}
		if !exists && !w.Create {
			r.Fails = append(r.Fails, eMissing)
		}
	}
	creating := !isValue && !exists
	base0 := old
	if creating {
		base0 = msg.ProtoReflect().New().Interface()
	}
	if w.EV != nil {
		switch {
		case creating && proto.Size(w.EV) == 0:
			r.May = append(r.May, ePre)
		case creating, base0 == nil, !proto.Equal(base0, w.EV):
			r.Fails = append(r.Fails, ePre)
		}
	}
	if err := w.check(base0); err != nil {
		r.Fails = append(r.Fails, err)
	}
	if len(r.Fails) > 0 {
		return r
	}
	src := proto.Clone(msg)
	if w.Before != 0 {
		w.before(base0, src)
	}
	dst := base0
	if dst == nil {
		dst = src.ProtoReflect().New().Interface()
	}
	r.New = Write(dst, src, w.M.Paths, wm.Paths, !w.M.Set, !wm.Set, w.R.Paths)
	if w.After != 0 {
		w.after(base0, r.New)
	}
	r.Create = creating
	if w.M.Set {
		r.Trees = append(r.Trees, MaskTree(w.M.Paths))
	}
	if wm.Set {
		r.Trees = append(r.Trees, MaskTree(wm.Paths))
	}
	if w.R.Set {
		r.Trees = append(r.Trees, MaskTree(w.R.Paths))
	}
	return r
}

// Check compares a call's error with what is wanted; it returns "" if the
// outcome is right.
func (r Want) Check(err error) string {
	if err == nil {
		if len(r.Fails) > 0 {
			return fmt.Sprintf("succeeds: the call must fail with one of %v", codesOf(r.Fails))
		}
		return ""
	}
	if len(r.Fails) == 0 && len(r.May) == 0 {
		return fmt.Sprintf("fails: the call must succeed, got %v", err)
	}
	if !hasErr(r.Fails, err) && !hasErr(r.May, err) {
		return fmt.Sprintf("error code: got %v, want one of %v", err, codesOf(append(append([]error{}, r.Fails...), r.May...)))
	}
	return ""
}

func codesOf(es []error) []string {
	var s []string
	for _, e := range es {
		if c := status.Code(e); c != codes.Unknown {
			s = append(s, c.String())
		} else {
			s = append(s, e.Error())
		}
	}
	return s
}

// Same reports whether got is want up to empty intermediate messages.
func (r Want) Same(got, want proto.Message) bool {
	if got == nil || want == nil {
		return got == nil && want == nil
	}
	if proto.Equal(got, want) {
		return true
	}
	return proto.Equal(Canon(got, r.Trees...), Canon(want, r.Trees...))
}

// Delete is the specification of Collection.Delete.
func (w W) Delete(old proto.Message, exists bool) Want {
	var r Want
	if !exists {
		if !w.Missing {
			r.Fails = append(r.Fails, eMissing)
		}
		return r
	}
	if w.EV != nil && !proto.Equal(old, w.EV) {
		r.Fails = append(r.Fails, ePre)
	}
	if err := w.check(old); err != nil {
		r.Fails = append(r.Fails, err)
	}
	return r
}
