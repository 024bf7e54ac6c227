// Package hl is the frame every harness main uses: it runs scenarios (explored
// schedules or enumerated cases), records what was covered and reports
// violations together with a replayable description.
package hl

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
)

// Scenario is one unit of exploration: set Body (schedules) or Enum (cases).
type Scenario struct {
	Name     string
	Cfg      vrt.Config
	Body     vrt.Body
	Enum     func(e *E)
	Shards   int           // Enum only: split case ordinals over this many workers
	Thorough bool          // only in the thorough tier
	Bound2   int           // thorough bound, if > 0
	Budget   time.Duration // quick budget for this scenario, 0 = none
}

// E drives an enumeration.
type E struct {
	sc     *Scenario
	shard  int
	shards int
	only   int64 // replay: run only this ordinal
	n      int64
	rep    *Report
	stop   bool
	seen   map[uint64]bool
}

type Violation struct {
	Scenario string  `json:"scenario"`
	Key      string  `json:"key"`
	Desc     string  `json:"desc"`
	Case     int64   `json:"case"`
	Choices  []int32 `json:"choices,omitempty"`
	Trace    string  `json:"trace,omitempty"`
}

type ScReport struct {
	Name       string  `json:"name"`
	Kind       string  `json:"kind"`
	Executions int64   `json:"executions"`
	Steps      int64   `json:"steps"`
	Outcomes   int64   `json:"distinct_outcomes"`
	MaxPoints  int     `json:"max_scheduling_points,omitempty"`
	BoundDone  int     `json:"bound_completed"`
	Bound      int     `json:"bound"`
	Capped     bool    `json:"capped"`
	Horizon    int64   `json:"hit_step_horizon,omitempty"`
	WallS      float64 `json:"wall_s"`
}

type Report struct {
	Scenarios   []ScReport  `json:"scenarios"`
	Violations  []Violation `json:"violations"`
	Known       []Violation `json:"known"`
	States      []uint64    `json:"states"`
	StateCount  int64       `json:"state_count"`
	Transitions int64       `json:"transitions"`
	Samples     []any       `json:"samples"`
	Notes       []string    `json:"notes"`
	More        bool        `json:"more"` // ended to give memory back, work may be left
}

var (
	fTier     = flag.String("tier", "quick", "")
	fQueue    = flag.String("queue", "", "work queue file")
	fOut      = flag.String("out", "", "report file")
	fStatus   = flag.String("status", "", "status file")
	fReplay   = flag.String("replay", "", "replay file")
	fKnown    = flag.String("known", "", "known findings file")
	fDeadline = flag.Float64("deadline", 0, "seconds")
	fOnly     = flag.String("only", "", "scenario glob")
	fList     = flag.Bool("list", false, "")
	fSeed     = flag.Int64("seed", 1, "")
	fVerbose  = flag.Bool("v", false, "")
	fMode     = flag.Int("mode", 0, "override the scheduling point classes")
	fKeep     = flag.Bool("keep", false, "development: list one violation per key and go on")
	fBound    = flag.Int("bound", -1, "cap on the deviation bound")
)

type known struct{ Property, Scenario, Key string }

var (
	knowns   []known
	deadline time.Time
	status   *[1024]uint64
	curRep   *Report
	states   = map[uint64]struct{}{}
	prop     string
)

const maxStates = 4 << 20

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return *fTier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](q, t T) T {
	if Thorough() {
		return t
	}
	return q
}

func Seed() int64 { return *fSeed }

// State records a visited abstract state.
func State(s string) {
	if len(states) >= maxStates {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	states[h.Sum64()] = struct{}{}
}

var transitions int64

// Step counts n executed transitions (operations on the real code).
func Step(n int) { transitions += int64(n) }

// Sample keeps a few written-out cases.
func Sample(v any) {
	if curRep != nil && len(curRep.Samples) < 4 {
		curRep.Samples = append(curRep.Samples, v)
	}
}

func isKnown(sc, key string) bool {
	for _, k := range knowns {
		if k.Property != prop {
			continue
		}
		if ok, _ := path.Match(k.Scenario, sc); !ok && k.Scenario != sc {
			continue
		}
		if k.Key == key {
			return true
		}
	}
	return false
}

func split(fail string) (key, desc string) {
	if i := strings.Index(fail, ": "); i > 0 {
		return fail[:i], fail
	}
	return fail, fail
}

// Case runs one enumerated case. run returns "" or "key: description".
// It reports whether the enumeration should go on.
func (e *E) Case(label func() string, run func() (outcome, fail string)) bool {
	if e.stop {
		return false
	}
	n := e.n
	e.n++
	if e.only >= 0 {
		if n != e.only {
			return n < e.only
		}
	} else if e.shards > 1 && int(n%int64(e.shards)) != e.shard {
		return true
	}
	if status != nil {
		status[0]++
		status[2] = uint64(n)
		status[3] = 1
	}
	out, fail := e.guard(run)
	if vrt.Race && !strings.HasPrefix(fail, "race: ") {
		fail = ""
	}
	vrt.MaybeGC()
	sr := &e.rep.Scenarios[len(e.rep.Scenarios)-1]
	sr.Executions++
	if out != "" {
		h := fnv.New64a()
		h.Write([]byte(out))
		e.seen[h.Sum64()] = true
	}
	if sr.Executions%4096 == 1 && len(e.rep.Samples) < 4 {
		Sample(map[string]any{"scenario": e.sc.Name, "case": n, "input": label(), "outcome": trunc(out, 400)})
	}
	if fail != "" {
		key, desc := split(fail)
		v := Violation{Scenario: e.sc.Name, Key: key, Desc: label() + " => " + trunc(desc, 3000), Case: n}
		if isKnown(e.sc.Name, key) {
			addKnown(e.rep, v)
		} else if *fKeep {
			keep(e.rep, v)
		} else {
			e.rep.Violations = append(e.rep.Violations, v)
			e.stop = true
			return false
		}
	}
	if sr.Executions%64 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		sr.Capped = true
		e.stop = true
		return false
	}
	return true
}

// Stopped reports whether the enumeration has been told to end.
func (e *E) Stopped() bool { return e.stop }

func addKnown(r *Report, v Violation) {
	for _, k := range r.Known {
		if k.Scenario == v.Scenario && k.Key == v.Key {
			return
		}
	}
	r.Known = append(r.Known, v)
}

func keep(r *Report, v Violation) {
	for _, k := range r.Violations {
		if k.Scenario == v.Scenario && k.Key == v.Key {
			return
		}
	}
	r.Violations = append(r.Violations, v)
}

func (e *E) guard(run func() (string, string)) (out, fail string) {
	defer func() {
		if p := recover(); p != nil {
			fail = fmt.Sprintf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return run()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "sc-golang") && !strings.Contains(l, "internal/verif") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Single runs body once under the default schedule, as a controlled execution:
// blocking for ever is reported, time is virtual, quiescence is exact. Panics in
// body are reported as failures.
func Single(body vrt.Body) (outcome, fail string) {
	cfg := &vrt.Config{Mode: vrt.Repo}
	x := vrt.Run(cfg, Guard(body), nil)
	Step(x.Steps)
	return x.Outcome, x.Fail
}

// Guard turns a panic of the body's own goroutine into a failure.
func Guard(body vrt.Body) vrt.Body {
	return func() (out, fail string) {
		defer func() {
			if p := recover(); p != nil {
				fail = fmt.Sprintf("panic: %v\n%s", p, trimStack(debug.Stack()))
			}
		}()
		return body()
	}
}

// Main runs the harness.
func Main(property string, mk func() []Scenario) {
	flag.Parse()
	raceInit()
	prop = property
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	all := mk()
	var scs []Scenario
	for _, s := range all {
		if s.Thorough && !Thorough() {
			continue
		}
		if *fOnly != "" {
			found := false
			for _, p := range strings.Split(*fOnly, ",") {
				pre, all := strings.CutSuffix(p, "**")
				if ok, _ := path.Match(p, s.Name); ok || all && strings.HasPrefix(s.Name, pre) {
					found = true
				}
			}
			if !found {
				continue
			}
		}
		scs = append(scs, s)
	}
	type unit struct{ sc, shard, shards int }
	var units []unit
	for i := range scs {
		k := scs[i].Shards
		if k < 1 {
			k = 1
		}
		for j := 0; j < k; j++ {
			units = append(units, unit{i, j, k})
		}
	}
	if *fList {
		for _, s := range scs {
			fmt.Println(s.Name)
		}
		return
	}
	if *fKnown != "" {
		b, err := os.ReadFile(*fKnown)
		if err == nil {
			var doc struct {
				Findings []struct {
					Property, Scenario, Key string
				}
			}
			if err := json.Unmarshal(b, &doc); err != nil {
				fmt.Fprintln(os.Stderr, "known findings:", err)
				os.Exit(2)
			}
			for _, f := range doc.Findings {
				knowns = append(knowns, known{f.Property, f.Scenario, f.Key})
			}
		}
	}
	if *fDeadline > 0 {
		deadline = time.Now().Add(time.Duration(*fDeadline * float64(time.Second)))
	}
	if *fStatus != "" {
		f, err := os.OpenFile(*fStatus, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			f.Truncate(8192)
			m, err := syscall.Mmap(int(f.Fd()), 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				status = (*[1024]uint64)(unsafe.Pointer(&m[0]))
			}
		}
	}
	rep := &Report{}
	curRep = rep
	if *fReplay != "" {
		os.Exit(replay(scs, all))
	}
	for {
		u := claim()
		if u >= len(units) {
			break
		}
		sc := &scs[units[u].sc]
		if status != nil {
			status[1] = uint64(indexOf(all, sc.Name))
			status[0]++
		}
		if !deadline.IsZero() && time.Now().After(deadline) {
			rep.Scenarios = append(rep.Scenarios, ScReport{Name: sc.Name, Capped: true, BoundDone: -1, Bound: sc.Cfg.Bound})
			continue
		}
		runUnit(sc, units[u].shard, units[u].shards, rep)
		if *fVerbose {
			s := rep.Scenarios[len(rep.Scenarios)-1]
			fmt.Fprintf(os.Stderr, "%-40s exec=%d outcomes=%d bound=%d capped=%v %.2fs\n", s.Name, s.Executions, s.Outcomes, s.BoundDone, s.Capped, s.WallS)
		}
		if len(rep.Violations) > 0 && !*fKeep {
			break
		}
		if *fQueue != "" && *fOut != "" && rss() > 1200<<20 {
			rep.More = true
			break
		}
	}
	rep.Transitions = transitions
	rep.StateCount = int64(len(states))
	for h := range states {
		if len(rep.States) >= 1<<20 {
			break
		}
		rep.States = append(rep.States, h)
	}
	sort.Slice(rep.States, func(i, j int) bool { return rep.States[i] < rep.States[j] })
	b, _ := json.Marshal(rep)
	if *fOut != "" {
		if err := os.WriteFile(*fOut, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		rep.States = nil
		b, _ = json.MarshalIndent(rep, "", " ")
		os.Stdout.Write(append(b, '\n'))
	}
}

// rss is the memory this process holds. What the race detector keeps of an execution is not
// all given back.
func rss() uint64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, resident uint64
	fmt.Sscan(string(b), &size, &resident)
	return resident * uint64(os.Getpagesize())
}

func indexOf(scs []Scenario, name string) int {
	for i := range scs {
		if scs[i].Name == name {
			return i
		}
	}
	return -1
}

var localNext int

func claim() int {
	if *fQueue == "" {
		n := localNext
		localNext++
		return n
	}
	f, err := os.OpenFile(*fQueue, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer f.Close()
	syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
	var buf [32]byte
	n, _ := f.ReadAt(buf[:], 0)
	v := 0
	fmt.Sscan(string(buf[:n]), &v)
	f.WriteAt([]byte(fmt.Sprintf("%-20d", v+1)), 0)
	return v
}

func runUnit(sc *Scenario, shard, shards int, rep *Report) {
	t0 := time.Now()
	if sc.Enum != nil {
		rep.Scenarios = append(rep.Scenarios, ScReport{Name: sc.Name, Kind: "enumeration"})
		e := &E{sc: sc, shard: shard, shards: shards, only: -1, rep: rep, seen: map[uint64]bool{}}
		tr := transitions
		old := deadline
		if sc.Budget > 0 && !Thorough() {
			if d := time.Now().Add(sc.Budget); deadline.IsZero() || d.Before(deadline) {
				deadline = d
			}
		}
		sc.Enum(e)
		deadline = old
		sr := &rep.Scenarios[len(rep.Scenarios)-1]
		sr.Outcomes = int64(len(e.seen))
		for h := range e.seen {
			if len(states) < maxStates {
				states[h^fnvs(sc.Name)] = struct{}{}
			}
		}
		sr.Steps = transitions - tr
		sr.WallS = time.Since(t0).Seconds()
		return
	}
	cfg := sc.Cfg
	if Thorough() && sc.Bound2 > 0 {
		cfg.Bound = sc.Bound2
	}
	if *fMode != 0 {
		cfg.Mode = *fMode
	}
	if *fBound >= 0 && cfg.Bound > *fBound {
		cfg.Bound = *fBound
	}
	cfg.Deadline = deadline
	if sc.Budget > 0 && !Thorough() {
		if d := time.Now().Add(sc.Budget); cfg.Deadline.IsZero() || d.Before(cfg.Deadline) {
			cfg.Deadline = d
		}
	}
	cfg.OnRun = func(prefix []int32) {
		if status != nil {
			status[0]++
			status[3] = 2
			n := len(prefix)
			if n > 1000 {
				n = 1000
			}
			status[4] = uint64(n)
			for i := 0; i < n; i++ {
				status[5+i] = uint64(prefix[i])
			}
		}
	}
	var st vrt.Stats
	var last *vrt.Exec
	cfg.KnownFail = func(x *vrt.Exec) bool {
		key, desc := split(x.Fail)
		if isKnown(sc.Name, key) {
			addKnown(rep, Violation{Scenario: sc.Name, Key: key, Desc: desc, Case: -1, Choices: append([]int32{}, x.Choices...)})
			return true
		}
		if *fKeep {
			keep(rep, Violation{Scenario: sc.Name, Key: key, Desc: desc, Case: -1, Choices: append([]int32{}, x.Choices...), Trace: x.Outcome})
			return true
		}
		return false
	}
	f := vrt.Explore(&cfg, &st, Guard(sc.Body), func(x *vrt.Exec) { last = x })
	transitions += st.Steps
	for h := range st.Outcomes {
		if len(states) < maxStates {
			states[h^fnvs(sc.Name)] = struct{}{}
		}
	}
	rep.Scenarios = append(rep.Scenarios, ScReport{Name: sc.Name, Kind: "schedules", Executions: st.Executions, Steps: st.Steps,
		Outcomes: int64(len(st.Outcomes)), MaxPoints: st.MaxSteps, BoundDone: st.BoundDone, Bound: cfg.Bound, Capped: st.Capped, Horizon: st.Overflows,
		WallS: time.Since(t0).Seconds()})
	if last != nil && len(rep.Samples) < 4 {
		Sample(map[string]any{"scenario": sc.Name, "choices": last.Choices, "outcome": trunc(last.Outcome, 400)})
	}
	if f != nil {
		key, desc := split(f.Fail)
		rep.Violations = append(rep.Violations, Violation{Scenario: sc.Name, Key: key, Desc: desc, Case: -1, Choices: f.Choices, Trace: f.Outcome})
	}
}

func fnvs(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// replay runs one recorded case or schedule and exits 1 if it fails again.
func replay(scs, all []Scenario) int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	i := indexOf(all, v.Scenario)
	if i < 0 {
		fmt.Fprintln(os.Stderr, "no such scenario", v.Scenario)
		return 2
	}
	sc := &all[i]
	if sc.Enum != nil {
		rep := &Report{}
		rep.Scenarios = append(rep.Scenarios, ScReport{Name: sc.Name})
		e := &E{sc: sc, only: v.Case, rep: rep, seen: map[uint64]bool{}}
		sc.Enum(e)
		if len(rep.Violations) > 0 || len(rep.Known) > 0 {
			for _, x := range append(rep.Violations, rep.Known...) {
				fmt.Println("REPRODUCED", x.Key, x.Desc)
			}
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	cfg := sc.Cfg
	if *fMode != 0 {
		cfg.Mode = *fMode
	}
	x := vrt.Run(&cfg, Guard(sc.Body), v.Choices)
	fmt.Println("outcome:", x.Outcome)
	if x.Fail != "" {
		fmt.Println("REPRODUCED", x.Fail)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
