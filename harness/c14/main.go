// C14: trait servers give read-your-writes through wrapper, router and wrapper.
package main

import (
	"fmt"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"google.golang.org/protobuf/proto"
)

func main() {
	hl.Main("C14", func() []hl.Scenario {
		var out []hl.Scenario
		for _, r := range registers() {
			if r.ops != nil {
				out = append(out, hl.Scenario{Name: "history/" + r.name, Enum: r.histories, Shards: 4}, hl.Scenario{Name: "many/" + r.name, Enum: r.many, Shards: 2})
				continue
			}
			out = append(out,
				hl.Scenario{Name: "read/" + r.name, Enum: r.reads, Shards: 2},
				hl.Scenario{Name: "update/" + r.name, Enum: r.singleUpdates, Shards: 4},
				hl.Scenario{Name: "history/" + r.name, Enum: r.histories, Shards: 4},
				hl.Scenario{Name: "many/" + r.name, Enum: r.many, Shards: 2},
			)
			out = append(out, r.race(false)...)
			out = append(out, r.race(true)...)
		}
		return out
	})
}

func names(ops []op) (out []string) {
	for _, o := range ops {
		out = append(out, o.label)
	}
	return
}

// step performs o and checks the response against the register and every stream.
// It returns the register's new content.
func (w *world) step(o op, before view, ss []*stream) (view, string) {
	resp, err := o.do(w)
	vrt.Quiesce()
	if w.reg.settle != nil {
		w.reg.settle()
		vrt.Quiesce()
	}
	after, gerr := w.get(devA, rm.Mask{})
	if gerr != nil {
		return nil, fmt.Sprintf("get: after %s: %v", o.label, gerr)
	}
	hl.State(w.reg.name + after.String())
	hl.Step(1)
	if err != nil {
		if !after.equal(before) {
			return nil, fmt.Sprintf("rejected: %s failed with %v but the register went from {%v} to {%v}", o.label, err, before, after)
		}
	} else if o.check != nil {
		if f := o.check(before, after); f != "" {
			return nil, fmt.Sprintf("history: %s: %s", o.label, f)
		}
	} else if resp != nil {
		if !resp.ProtoReflect().IsValid() {
			return nil, fmt.Sprintf("response: %s answered with nothing", o.label)
		}
		id := ""
		if w.reg.id != nil {
			id = w.reg.id(resp)
		}
		if w.reg.settle == nil && !proto.Equal(resp, after[id]) && (w.reg.answers == nil || w.reg.answers(resp)) {
			return nil, fmt.Sprintf("response: %s answered {%s}, Get says {%s}", o.label, text(resp), text(after[id]))
		}
	}
	for _, s := range ss {
		if f := s.advanced(after, func() string { return fmt.Sprintf("%s (error %v)", o.label, err) }); f != "" {
			return nil, f
		}
	}
	return after, ""
}

func (w *world) start(ops []op) (view, string) {
	now, err := w.get(devA, rm.Mask{})
	if err != nil {
		return nil, fmt.Sprintf("get: %v", err)
	}
	for _, o := range ops {
		var f string
		if now, f = w.step(o, now, nil); f != "" {
			return nil, f
		}
	}
	return now, ""
}

// reads checks Get and the first events of Pull under masks in many states.
func (r *register) reads(e *hl.E) {
	al := r.alphabet()
	states := [][]op{nil}
	for _, o := range al {
		states = append(states, []op{o})
	}
	if hl.Thorough() {
		for _, o := range al {
			for _, p := range al {
				states = append(states, []op{o, p})
			}
		}
	}
	for _, st := range states {
		if !e.Case(func() string { return fmt.Sprint(names(st)) }, func() (string, string) {
			return hl.Single(func() (string, string) {
				w := r.newWorld()
				defer w.close()
				now, f := w.start(st)
				if f != "" {
					return "", f
				}
				for _, n := range []string{devA, devB} {
					if n == devB && r.oneName {
						continue
					}
					for _, k := range r.readMasks(true) {
						got, err := w.get(n, k)
						if err != nil {
							return "", fmt.Sprintf("mask: get(%s, %v): %v", n, k, err)
						}
						if want := r.project(now, k); !got.equal(want) {
							return "", fmt.Sprintf("mask: get(%s, %v) gives {%v} of {%v}", n, k, got, now)
						}
					}
					for _, k := range r.readMasks(hl.Thorough()) {
						for _, uo := range []bool{false, true} {
							s := w.open(n, k, uo)
							if f := s.opened(now); f != "" {
								return "", f
							}
							s.cancel()
						}
					}
				}
				vrt.Quiesce()
				if again, err := w.get(devA, rm.Mask{}); err != nil || !again.equal(now) {
					return "", fmt.Sprintf("reading: changed {%v} to {%v} %v", now, again, err)
				}
				return now.String(), ""
			})
		}) {
			return
		}
	}
}

// streamSets are sets of open streams.
func (r *register) streamSets() (out [][]stream) {
	ks := r.readMasks(false)
	b := devB
	if r.oneName {
		b = devA
	}
	out = append(out, nil)
	for _, k := range ks {
		for _, uo := range []bool{false, true} {
			out = append(out, []stream{{name: b, mask: k, uo: uo}})
		}
	}
	for i, k := range ks {
		out = append(out, []stream{{name: devA, mask: k, uo: i%2 == 0}, {name: b, mask: ks[(i+1)%len(ks)], uo: i%4 >= 2}})
	}
	return
}

func (w *world) openAll(set []stream, now view) (ss []*stream, fail string) {
	for _, x := range set {
		s := w.open(x.name, x.mask, x.uo)
		if f := s.opened(now); f != "" {
			return nil, f
		}
		ss = append(ss, s)
	}
	return
}

// singleUpdates makes every update in a few states, under streams.
func (r *register) singleUpdates(e *hl.E) {
	b := devB
	if r.oneName {
		b = devA
	}
	ups := append(r.updates(), r.extra...)
	ks := r.readMasks(false)
	al := r.alphabet()
	starts := [][]op{nil}
	for i, o := range al {
		if i < hl.Pick(2, len(al)) {
			starts = append(starts, []op{o})
		}
	}
	for si, st := range starts {
		for ui, u := range ups {
			set := []stream{{name: devA}, {name: b, mask: ks[(ui+si)%len(ks)], uo: true}}
			if !e.Case(func() string { return fmt.Sprint(names(st), " ", u.label) }, func() (string, string) {
				return hl.Single(func() (string, string) {
					w := r.newWorld()
					defer w.close()
					now, f := w.start(st)
					if f != "" {
						return "", f
					}
					ss, f := w.openAll(set, now)
					if f != "" {
						return "", f
					}
					after, f := w.step(u, now, ss)
					if f != "" {
						return "", f
					}
					return fmt.Sprint(now, after), ""
				})
			}) {
				return
			}
		}
	}
}

// histories makes every short history of updates with every set of streams, opened at any point,
// and longer ones with two streams.
func (r *register) histories(e *hl.E) {
	depth := hl.Pick(2, 3)
	for _, set := range r.streamSets() {
		for at := 0; at < depth; at++ {
			if at > 0 && len(set) == 0 {
				continue
			}
			if !r.sequences(e, depth, set, at) {
				return
			}
		}
	}
	b := devB
	if r.oneName {
		b = devA
	}
	al := len(r.alphabet())
	depth++
	if al <= 5 {
		depth++
	}
	r.sequences(e, depth, []stream{{name: devA}, {name: b, uo: true}}, 0)
}

// many has long histories that repeat what happens, with many streams open.
func (r *register) many(e *hl.E) {
	al := r.alphabet()
	ks := r.readMasks(false)
	b := devB
	if r.oneName {
		b = devA
	}
	streams := func(n int) (out []stream) {
		for i := 0; i < n; i++ {
			s := stream{name: devA, mask: ks[i%len(ks)], uo: i%3 == 1}
			if i%2 == 1 {
				s.name = b
			}
			out = append(out, s)
		}
		return
	}
	for period := 1; period <= 2; period++ {
		for i := range al {
			for j := range al {
				if period == 1 && j > 0 {
					break
				}
				if period == 2 && i == j {
					continue
				}
				for _, n := range hl.Pick([]int{3, 9}, []int{1, 3, 5, 9, 33}) {
					if n > 3 && !hl.Thorough() && (i+j)%4 != 0 {
						continue
					}
					for _, at := range []int{0, 5} {
						var ops []op
						for k := 0; k < hl.Pick(16, 60); k++ {
							ops = append(ops, al[[]int{i, j}[k%period]])
						}
						if !e.Case(func() string {
							return fmt.Sprintf("%d of %v, %d streams from %d", len(ops), names(ops[:period]), n, at)
						}, func() (string, string) {
							return hl.Single(func() (string, string) { return r.history(ops, streams(n), at) })
						}) {
							return
						}
					}
				}
			}
		}
	}
}

// sequences makes every history of that many updates.
func (r *register) sequences(e *hl.E, depth int, set []stream, at int) bool {
	al := r.alphabet()
	var seq []int
	var rec func() bool
	rec = func() bool {
		if len(seq) == depth {
			ops := make([]op, depth)
			for i, x := range seq {
				ops[i] = al[x]
			}
			return e.Case(func() string {
				return fmt.Sprint(names(ops), " streams ", set, " from ", at)
			}, func() (string, string) {
				return hl.Single(func() (string, string) { return r.history(ops, set, at) })
			})
		}
		for i := range al {
			seq = append(seq, i)
			if !rec() {
				return false
			}
			seq = seq[:len(seq)-1]
		}
		return true
	}
	return rec()
}

func (r *register) history(ops []op, set []stream, at int) (string, string) {
	w := r.newWorld()
	defer w.close()
	now, f := w.start(ops[:at])
	if f != "" {
		return "", f
	}
	ss, f := w.openAll(set, now)
	if f != "" {
		return "", f
	}
	out := now.String()
	for i, o := range ops[at:] {
		if now, f = w.step(o, now, ss); f != "" {
			return "", f
		}
		out += now.String()
		if i == 0 && len(ss) == 2 {
			ss[0].cancel() // one of two streams closes, the other goes on
			vrt.Quiesce()
			ss = ss[1:]
		}
	}
	return out, ""
}
