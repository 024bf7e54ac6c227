package vrt

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"time"
)

// Yield classes for Config.Mode.
const (
	Repo    = 1
	Context = 2
	Grpc    = 4
	Harness = 8
	Std     = 16
	All     = 32
)

const (
	KYield = iota
	KBlock
	KSelect
	KEnv
)

type Config struct {
	Mode      int    // classes of code whose sync operations are scheduling points
	Bound     int    // deviation bound, -1 for none
	EnvFree   bool   // harness choices do not count as deviations
	BlockFree bool   // choosing among runnables when the current one blocks is free
	SelFree   bool   // select-case choices are free
	Limit     int    // scheduling points per execution (horizon)
	TimeLim   int    // virtual clock advances per execution
	Seed      uint64 // seed for map order and friends
	MaxExec   int    // cap on executions, 0 none
	Deadline  time.Time
	Stop      func() bool
	OnRun     func(prefix []int32) // told before every execution
	KnownFail func(x *Exec) bool   // failure to note and explore past
}

// Exec is one finished execution.
type Exec struct {
	Choices  []int32
	Ns       []int32
	Kinds    []int32
	Steps    int
	Deadlock bool // the body never finished and nothing could run
	TimeOut  bool
	Overflow bool
	Leaked   int // goroutines alive after the body finished and everything quiesced
	Fail     string
	Outcome  string
}

type Stats struct {
	Executions int64
	Steps      int64
	Choices    int64
	MaxSteps   int
	Outcomes   map[uint64]int64
	Capped     bool
	BoundDone  int // highest bound completely explored, -1 if none
	Overflows  int64
}

// Body is one scenario: it runs as the main controlled goroutine and returns a
// canonical outcome string plus a non-empty failure description if the
// property is violated in this execution.
type Body func() (outcome string, fail string)

var gcEvery int64

// OnRace is told of an execution during which the race detector reported n races,
// OnDone of every other one in a build with the race detector.
var (
	OnRace func(x *Exec, n int)
	OnDone func(x *Exec)
)

// Run executes body once under the given choices. What the race detector reports counts
// when it reports it again in one of a few repetitions: it may rarely be wrong when it runs
// out of room for its records.
func Run(cfg *Config, body Body, prefix []int32) *Exec {
	n0 := raceErrors()
	x := run(cfg, body, prefix)
	if !Race {
		return x
	}
	n := raceErrors() - n0
	if n > 0 && OnRace != nil {
		OnRace(x, n)
		for i := 0; x.Fail != "" && i < 4; i++ {
			n0 := raceErrors()
			y := run(cfg, body, x.Choices)
			if n := raceErrors() - n0; n > 0 {
				OnRace(y, n)
				if y.Fail != "" {
					return x
				}
			}
		}
		x.Fail = ""
	} else if OnDone != nil {
		OnDone(x)
	}
	return x
}

func run(cfg *Config, body Body, prefix []int32) *Exec {
	x := &Exec{}
	var res runtime.VerifResult
	limit, tl := cfg.Limit, cfg.TimeLim
	if limit == 0 {
		limit = 20000
	}
	if tl == 0 {
		tl = 1000
	}
	mode := cfg.Mode
	if mode == 0 {
		mode = Repo
	}
	runtime.VerifRun(func() {
		x.Outcome, x.Fail = body()
	}, prefix, mode, limit, tl, cfg.Seed, &res)
	x.Choices = make([]int32, res.Ntr)
	x.Ns = make([]int32, res.Ntr)
	x.Kinds = make([]int32, res.Ntr)
	for i := 0; i < res.Ntr; i++ {
		k, n, c, _ := runtime.VerifTrace(i)
		x.Kinds[i], x.Ns[i], x.Choices[i] = k, n, c
	}
	x.Steps = res.Steps
	x.TimeOut = res.TimeOut
	x.Overflow = res.Overflow
	x.Deadlock = !res.MainDone && !res.TimeOut
	x.Leaked = res.Total
	if x.Fail == "" {
		switch {
		case x.Deadlock:
			x.Fail = "deadlock: no goroutine can run and the scenario has not finished"
		case x.TimeOut:
			x.Fail = "virtual-time horizon reached and the scenario has not finished"
		}
	}
	if res.Diverged || res.Ntr < len(prefix) {
		fmt.Fprintf(os.Stderr, "VERIF-DIVERGED prefix=%v got=%v\n", prefix, x.Choices)
		x.Fail = "DIVERGED"
		os.Exit(3)
	}
	MaybeGC()
	return x
}

var heap = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

// maxHeap is smaller with the race detector, which needs several times as much on top.
var maxHeap uint64 = 192 << 20

func init() {
	if Race {
		maxHeap = 64 << 20
	}
}

// MaybeGC collects garbage between executions: the collector is off while one
// runs, because goroutines parked by the collector would look blocked.
func MaybeGC() {
	gcEvery++
	if gcEvery%32 != 0 {
		return
	}
	metrics.Read(heap)
	if heap[0].Value.Uint64() > maxHeap {
		runtime.GC()
	}
}

func cost(cfg *Config, kind int32) int {
	switch kind {
	case KEnv:
		if cfg.EnvFree {
			return 0
		}
	case KBlock:
		if cfg.BlockFree {
			return 0
		}
	case KSelect:
		if cfg.SelFree {
			return 0
		}
	}
	return 1
}

// Explore runs every execution of body within cfg.Bound deviations (bounds are
// iterated 0..Bound), calling visit for each. Exploration stops at the first
// failure, which is returned.
func Explore(cfg *Config, st *Stats, body Body, visit func(*Exec)) *Exec {
	if st.Outcomes == nil {
		st.Outcomes = map[uint64]int64{}
		st.BoundDone = -1
	}
	runtime.GOMAXPROCS(1)
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	lo := 0
	if cfg.Bound < 0 {
		lo = -1
	}
	n0 := st.Executions
	for b := lo; b <= cfg.Bound; b++ {
		f, capped := exploreBound(cfg, st, body, visit, b, n0)
		if f != nil {
			return f
		}
		if capped {
			st.Capped = true
			return nil
		}
		st.BoundDone = b
	}
	return nil
}

type frame struct {
	prefix []int32
	used   int
}

// exploreBound explores executions using exactly b deviations (all if b<0).
func exploreBound(cfg *Config, st *Stats, body Body, visit func(*Exec), b int, n0 int64) (*Exec, bool) {
	stack := []frame{{nil, 0}}
	for len(stack) > 0 {
		fr := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if cfg.MaxExec > 0 && st.Executions-n0 >= int64(cfg.MaxExec) {
			return nil, true
		}
		if !cfg.Deadline.IsZero() && st.Executions%64 == 0 && time.Now().After(cfg.Deadline) {
			return nil, true
		}
		if cfg.Stop != nil && cfg.Stop() {
			return nil, true
		}
		if cfg.OnRun != nil {
			cfg.OnRun(fr.prefix)
		}
		x := Run(cfg, body, fr.prefix)
		st.Steps += int64(x.Steps)
		st.Choices += int64(len(x.Choices))
		if x.Steps > st.MaxSteps {
			st.MaxSteps = x.Steps
		}
		if x.Overflow {
			st.Overflows++
		}
		// executions below the bound were counted (and checked) at a lower bound
		if b < 0 || fr.used == b {
			st.Executions++
			h := fnv.New64a()
			h.Write([]byte(x.Outcome))
			st.Outcomes[h.Sum64()]++
			if visit != nil {
				visit(x)
			}
			if x.Fail != "" && !(cfg.KnownFail != nil && cfg.KnownFail(x)) {
				return x, false
			}
		}
		for i := len(x.Choices) - 1; i >= len(fr.prefix); i-- {
			c := cost(cfg, x.Kinds[i])
			if b >= 0 && fr.used+c > b {
				continue
			}
			for alt := x.Ns[i] - 1; alt >= 1; alt-- {
				p := make([]int32, i+1)
				copy(p, x.Choices[:i])
				p[i] = alt
				stack = append(stack, frame{p, fr.used + c})
			}
		}
	}
	return nil, false
}
