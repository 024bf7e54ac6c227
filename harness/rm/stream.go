package rm

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

// Ev is one received change, of a value or of a collection.
type Ev struct {
	ID   string
	Kind types.ChangeType // zero for values
	Old  proto.Message
	New  proto.Message
	Time time.Time
	Seed bool
	Last bool
}

func kindName(k types.ChangeType) string {
	switch k {
	case types.ChangeType_ADD:
		return "ADD"
	case types.ChangeType_UPDATE:
		return "UPDATE"
	case types.ChangeType_REMOVE:
		return "REMOVE"
	case types.ChangeType_REPLACE:
		return "REPLACE"
	}
	return "VALUE"
}

func (e Ev) String() string {
	var b strings.Builder
	if e.Seed {
		b.WriteString("seed ")
	}
	if e.Last {
		b.WriteString("last ")
	}
	fmt.Fprintf(&b, "%s", kindName(e.Kind))
	if e.ID != "" {
		fmt.Fprintf(&b, " %q", e.ID)
	}
	if e.Old != nil {
		fmt.Fprintf(&b, " old=%s", Text(e.Old))
	}
	fmt.Fprintf(&b, " new=%s", Text(e.New))
	if !e.Time.IsZero() {
		fmt.Fprintf(&b, " @%d", e.Time.Unix())
	}
	return b.String()
}

// Evs formats a stream.
func Evs(es []Ev) string {
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}
	return "[" + strings.Join(s, "; ") + "]"
}

func FromCollection(c *resource.CollectionChange) Ev {
	return Ev{ID: c.Id, Kind: c.ChangeType, Old: c.OldValue, New: c.NewValue, Time: c.ChangeTime, Seed: c.SeedValue, Last: c.LastSeedValue}
}

func FromValue(c *resource.ValueChange) Ev {
	return Ev{New: c.Value, Time: c.ChangeTime, Seed: c.SeedValue, Last: c.LastSeedValue}
}

// Sink collects a subscription's events.
type Sink struct {
	Evs    []Ev
	Closed bool
}

// Collect starts receiving from a collection stream.
func Collect(ch <-chan *resource.CollectionChange) *Sink {
	s := &Sink{}
	go func() {
		for c := range ch {
			s.Evs = append(s.Evs, FromCollection(c))
		}
		s.Closed = true
	}()
	return s
}

// CollectV starts receiving from a value stream.
func CollectV(ch <-chan *resource.ValueChange) *Sink {
	s := &Sink{}
	go func() {
		for c := range ch {
			s.Evs = append(s.Evs, FromValue(c))
		}
		s.Closed = true
	}()
	return s
}

// View is a subscriber's folded view.
type View map[string]proto.Message

func (v View) Clone() View {
	c := View{}
	for k, m := range v {
		c[k] = m
	}
	return c
}

func (v View) String() string {
	var ids []string
	for k := range v {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	var s []string
	for _, id := range ids {
		s = append(s, fmt.Sprintf("%s=%s", id, Text(v[id])))
	}
	return "{" + strings.Join(s, " ") + "}"
}

func (v View) Equal(o View) bool {
	if len(v) != len(o) {
		return false
	}
	for k, m := range v {
		n, ok := o[k]
		if !ok || !proto.Equal(m, n) {
			return false
		}
	}
	return true
}

// Apply folds one collection event; it returns a complaint if the event does
// not fit the view (strict views only make sense when the seed was received).
func (v View) Apply(e Ev) string {
	old, had := v[e.ID]
	bad := ""
	switch e.Kind {
	case types.ChangeType_ADD:
		if had {
			bad = "ADD of an item the view has"
		} else if e.Old != nil {
			bad = "ADD with an old value"
		}
	case types.ChangeType_UPDATE, types.ChangeType_REPLACE:
		if !had {
			bad = kindName(e.Kind) + " of an item the view does not have"
		} else if !proto.Equal(old, e.Old) {
			bad = kindName(e.Kind) + " whose old value is not the view's"
		}
	case types.ChangeType_REMOVE:
		if !had {
			bad = "REMOVE of an item the view does not have"
		} else if !proto.Equal(old, e.Old) {
			bad = "REMOVE whose old value is not the view's"
		} else if e.New != nil {
			bad = "REMOVE with a new value"
		}
	default:
		bad = "change of unknown kind"
	}
	if e.Kind == types.ChangeType_REMOVE {
		delete(v, e.ID)
	} else {
		if e.New == nil && bad == "" {
			bad = kindName(e.Kind) + " without a new value"
		}
		v[e.ID] = e.New
	}
	return bad
}

// Exp is an expected event.
type Exp struct {
	Ev
	Opt bool // may be missing
}

// MatchEvs compares a received stream with the expected one exactly (ignoring
// change times that are zero in the expectation). It returns "" or a description.
func MatchEvs(got []Ev, want []Exp) string {
	i := 0
	for _, w := range want {
		if i < len(got) {
			if d := diffEv(got[i], w.Ev); d == "" {
				i++
				continue
			} else if !w.Opt {
				return fmt.Sprintf("%s: event %d is %v, want %v", d, i, got[i], w.Ev)
			}
			continue
		}
		if !w.Opt {
			return fmt.Sprintf("missing event: %v never received", w.Ev)
		}
	}
	if i < len(got) {
		return fmt.Sprintf("surplus event: %v", got[i])
	}
	return ""
}

func diffEv(g, w Ev) string {
	switch {
	case g.ID != w.ID:
		return "event id"
	case g.Kind != w.Kind:
		return "event kind"
	case g.Seed != w.Seed:
		return "seed flag"
	case g.Last != w.Last:
		return "last seed flag"
	case (g.Old == nil) != (w.Old == nil) || g.Old != nil && !proto.Equal(g.Old, w.Old):
		return "old value"
	case (g.New == nil) != (w.New == nil) || g.New != nil && !proto.Equal(g.New, w.New):
		return "new value"
	case !w.Time.IsZero() && !g.Time.Equal(w.Time):
		return "change time"
	}
	return ""
}
