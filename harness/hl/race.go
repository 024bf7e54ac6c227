package hl

import (
	"flag"
	"fmt"
	"os"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
)

// In a build with the race detector only data races count: every execution during which one
// was reported fails with the key "race". The harness' own bookkeeping is not judged unless
// -raceall says that it must be free of races too.

var fRaceAll = flag.Bool("raceall", false, "races between two accesses of the harness count too")

var raceLog = struct {
	path string
	off  int64
}{}

func raceInit() {
	if !vrt.Race {
		return
	}
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(o, "log_path="); ok {
			raceLog.path = fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	vrt.OnDone = func(x *vrt.Exec) { x.Fail = "" }
	vrt.OnRace = func(x *vrt.Exec, n int) {
		x.Fail = ""
		text := "(no report)"
		if raceLog.path != "" {
			if f, err := os.Open(raceLog.path); err == nil {
				if st, err := f.Stat(); err == nil && st.Size() > raceLog.off {
					b := make([]byte, min(st.Size()-raceLog.off, 1<<20))
					f.ReadAt(b, raceLog.off)
					raceLog.off = st.Size()
					text = string(b)
				}
				f.Close()
			}
		}
		for _, r := range strings.Split(text, "WARNING: DATA RACE") {
			if !strings.Contains(r, "by goroutine") && !strings.Contains(r, "by main goroutine") {
				continue
			}
			a := accesses(r)
			if !*fRaceAll && len(a) == 2 && a[0].harness && a[1].harness {
				continue
			}
			x.Fail = fmt.Sprintf("race: %s | %s", a, squeeze(r))
			return
		}
		if !strings.Contains(text, "DATA RACE") {
			x.Fail = "race: reported by the race detector " + text
		}
	}
}

type access struct {
	what    string
	harness bool
}

func (a access) String() string { return a.what }

// accesses finds the code that made the two accesses of a report: the innermost frame that is
// not the standard library or a dependency.
func accesses(r string) (out []access) {
	var cur *access
	done := false
	for _, l := range strings.Split(r, "\n") {
		switch {
		case strings.Contains(l, " by goroutine ") || strings.Contains(l, " by main goroutine"):
			out = append(out, access{what: strings.TrimSpace(strings.SplitN(l, " at 0x", 2)[0]), harness: true})
			cur, done = &out[len(out)-1], false
		case strings.HasPrefix(l, "Goroutine "):
			return
		case cur == nil || done || !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "   "):
		default:
			f := strings.TrimSpace(l)
			verif := strings.HasPrefix(f, "main.") || strings.Contains(f, "internal/verif/")
			if verif || strings.HasPrefix(f, "github.com/smart-core-os/sc-golang/") {
				cur.what += " in " + f
				cur.harness = verif
				done = true
			}
		}
	}
	return
}

func squeeze(r string) string {
	return trunc(strings.Join(strings.Fields(strings.ReplaceAll(r, "==================", "")), " "), 6000)
}
