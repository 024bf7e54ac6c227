// C13: the in-process wrapper is indistinguishable from a real gRPC connection.
package main

import (
	"fmt"
	"strings"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
)

// gen is the abstract state of a call, used to enumerate meaningful scripts: sends
// meet a ready receiver, nobody goes on after seeing the end.
type gen struct {
	sh                 *shape
	duplex             bool
	rp, mp, sp         bool // pending: client receive, client header, server receive
	half, ret, x, term bool
	asked, eof         bool // non-streaming reply asked for; server saw the half-close
	cN, sN, h, e, t, m int
	over               int // steps since the call ended
	script             []byte
}

func (g gen) step(b byte) gen {
	g.script = append(g.script[:len(g.script):len(g.script)], b)
	if g.ret || g.x {
		g.over++
	}
	switch b {
	case 'R':
		g.rp, g.asked = true, true
		if g.ret || g.x {
			g.term, g.rp = true, false
		}
	case 'S':
		g.cN++
		g.sp = false
		if !g.sh.client {
			return g.step('H')
		}
	case 'H':
		g.half = true
		if g.sp {
			g.sp, g.eof = false, true
		}
	case 'M':
		g.m++
		g.mp = !(g.ret || g.x || g.e > 0 || g.sN > 0)
	case 'X', 'D':
		g.x, g.sp, g.mp = true, false, false
		if g.rp {
			g.rp, g.term = false, true
		}
	case 'r':
		g.sp = true
		if g.half {
			g.sp, g.eof = false, true
		}
		if g.sh.invoke {
			g.sp, g.eof = false, true
		}
	case 'h':
		g.h++
	case 'e':
		g.e++
		g.mp = false
	case 't':
		g.t++
	case 's':
		g.sN++
		g.mp = false
		if g.sh.server {
			g.rp = false
		}
	default:
		g.ret, g.sp, g.mp = true, false, false
		if g.rp {
			g.rp, g.term = false, true
		}
	}
	return g
}

type limits struct {
	depth, sends, metas, over int
	returns, ends             string
	noHeader                  bool
}

// next lists the steps that make sense in g.
func (g *gen) next(l *limits) string {
	var b strings.Builder
	ended := g.ret || g.x
	if ended && g.over >= l.over {
		return ""
	}
	if !g.sh.invoke {
		if !g.rp && !g.term && (g.sh.server || !g.asked) {
			b.WriteByte('R')
		}
		if !g.half {
			if g.cN < l.sends && (g.sp || ended) && (g.sh.client || g.cN == 0) {
				b.WriteByte('S')
			}
			if g.sh.client {
				b.WriteByte('H')
			}
		}
		if !g.mp && g.m < 2 && !l.noHeader {
			b.WriteByte('M')
		}
	}
	if !g.x && !(g.ret && g.term) {
		b.WriteString(l.ends)
	}
	unary := !g.sh.server && !g.sh.client
	started := !unary || g.eof || g.cN > 0
	if !g.ret && started && (!g.sp || g.duplex) {
		if !g.eof && !g.sp && !unary && !g.x {
			b.WriteByte('r')
		}
		if g.h < l.metas {
			b.WriteByte('h')
		}
		if g.e < l.metas {
			b.WriteByte('e')
		}
		if g.t < l.metas {
			b.WriteByte('t')
		}
		if !unary && g.sN < l.sends && (g.rp || g.x) && (g.sh.server || g.sN == 0) {
			b.WriteByte('s')
		}
		{
			if unary && !g.sh.invoke && !g.rp { // a response needs a receiver
				b.WriteString(strings.NewReplacer("q", "", "C", "").Replace(l.returns))
			} else {
				b.WriteString(l.returns)
			}
		}
	}
	if unary && !g.ret && !g.sp && !started && !g.x {
		b.WriteByte('r')
	}
	return b.String()
}

// tail ends the call and looks at what is left to see.
func (g gen) tail() gen {
	if !g.ret && !g.x {
		g = g.step('X')
	}
	if !g.ret {
		g = g.step('q')
	}
	if g.sh.invoke {
		return g
	}
	if !g.term && !g.rp && (g.sh.server || !g.asked) {
		g = g.step('R')
	}
	return g.step('M')
}

func (g gen) all(l *limits, f func(script string) bool) bool {
	n := ""
	if len(g.script) < l.depth {
		n = g.next(l)
	}
	if n == "" {
		return f(string(g.tail().script))
	}
	for i := 0; i < len(n); i++ {
		if !g.step(n[i]).all(l, f) {
			return false
		}
	}
	return true
}

// compare plays a script over both connections.
func compare(sh *shape, script string) (string, string) {
	var a, b [][2]string
	out, fail := hl.Single(func() (string, string) {
		a = play(true, sh, script)
		return "", ""
	})
	if fail != "" {
		return out, "harness: " + fail
	}
	out, fail = hl.Single(func() (string, string) {
		b = play(false, sh, script)
		return "", ""
	})
	if fail != "" {
		k := "stuck: "
		if strings.HasPrefix(fail, "panic") {
			k = ""
		}
		return out, k + fail
	}
	if !sh.invoke && script[0] == 'X' {
		// opening the stream may fail, or receiving from it
		fa, fb := first(a), first(b)
		if fa != fb {
			return "", fmt.Sprintf("%s cancelled before: %q: over gRPC the client sees [%s], wrapped [%s]", sh.name, script, fa, fb)
		}
		return fa, ""
	}
	ended := false
	at := 0
	where := func(i int) string {
		if i == 0 {
			return "at the start"
		}
		if i > len(script) {
			return "at the end"
		}
		return fmt.Sprintf("at step %d of %q", i, script)
	}
	if strings.HasPrefix(script, "X") {
		ended, at = true, 1
	}
	for i := range b {
		if i > 0 && at < len(script) && (script[at] == 'X' || script[at] == 'D') {
			ended = true
		}
		if i > 0 {
			at++
		}
		ca, cb := a[i][0], b[i][0]
		if ended {
			ca, cb = afterCancel(ca), afterCancel(cb)
		}
		hl.Step(1)
		if ca != cb {
			return "", fmt.Sprintf("%s %s: %s: over gRPC the client sees [%s], wrapped [%s]", sh.name, kind(ca, cb), where(at), ca, cb)
		}
		sa, sb := a[i][1], b[i][1]
		if strings.Contains(sb, "LEAK") {
			return "", fmt.Sprintf("%s leak: %q leaves goroutines behind", sh.name, script)
		}
		if !ended && sa != sb {
			return "", fmt.Sprintf("%s server %s: %s: over gRPC the server sees [%s], wrapped [%s]", sh.name, kind(sa, sb), where(at), sa, sb)
		}
		if ended && (strings.Contains(sb, "recv EOF") && !strings.Contains(script, "H") || strings.Contains(sb, "recv c") || strings.Contains(sb, "send ok")) {
			return "", fmt.Sprintf("%s server after cancel: %s: the server sees [%s] (over gRPC [%s])", sh.name, where(at), sb, sa)
		}
	}
	return strings.Join(func() (r []string) {
		for _, x := range b {
			r = append(r, x[0])
		}
		return
	}(), "|"), ""
}

// first returns the first thing received.
func first(steps [][2]string) string {
	for _, x := range steps {
		for _, o := range strings.Split(x[0], "; ") {
			if strings.HasPrefix(o, "recv") {
				return o
			}
		}
	}
	return "nothing"
}

// afterCancel forgets how exactly a send fails once the call is over.
func afterCancel(s string) string {
	return strings.NewReplacer("send EOF", "send err", "closeSend ok", "closeSend", "closeSend err", "closeSend").Replace(s)
}

// kind names what differs, for the violation's key.
func kind(a, b string) string {
	m := map[string]bool{}
	for _, x := range strings.Split(a, "; ") {
		m[x] = true
	}
	for _, x := range strings.Split(b, "; ") {
		if !m[x] && x != "" {
			return strings.Fields(x)[0]
		}
	}
	if a != "" {
		return strings.Fields(a)[0]
	}
	return "x"
}

func scripts(name string, sh *shape, duplex bool, l limits, th bool) hl.Scenario {
	return hl.Scenario{Name: name + "/" + sh.name, Shards: 16, Thorough: th, Enum: func(e *hl.E) {
		for _, pre := range []string{"", "X"} {
			g := gen{sh: sh, duplex: duplex}
			if pre != "" {
				if !strings.Contains(l.ends, "X") {
					continue
				}
				g.x = true
				g.script = []byte("X")
			}
			if !g.all(&l, func(s string) bool {
				return e.Case(func() string { return fmt.Sprintf("%s %s", sh.name, s) }, func() (string, string) { return compare(sh, s) })
			}) {
				return
			}
		}
	}}
}

// long has streams of many messages: a pattern of steps, repeated as far as it makes
// sense, after every start, and every end.
func long(sh *shape, duplex bool) hl.Scenario {
	name := "long/" + sh.name
	if duplex {
		name += " duplex"
	}
	return hl.Scenario{Name: name, Shards: 8, Enum: func(e *hl.E) {
		l := limits{depth: 1 << 20, sends: 1 << 20, over: 2, returns: "qE", ends: "X", noHeader: true}
		const alphabet = "RSrs"
		run := func(g gen, steps string) (gen, bool) {
			for i := 0; i < len(steps); i++ {
				if strings.IndexByte(g.next(&l), steps[i]) < 0 {
					return g, false
				}
				g = g.step(steps[i])
			}
			return g, true
		}
		for _, start := range []string{"", "R", "r", "Rr", "S", "RS", "SH", "SHR", "SHrR", "rS", "rSR"} {
			g0, ok := run(gen{sh: sh, duplex: duplex}, start)
			if !ok {
				continue
			}
			for n := 1; n <= hl.Pick(4, 6); n++ {
				pat := make([]byte, n)
				var rec func(i int) bool
				rec = func(i int) bool {
					if i < n {
						for j := range alphabet {
							pat[i] = alphabet[j]
							if !rec(i + 1) {
								return false
							}
						}
						return true
					}
					for p := 1; p < n; p++ {
						if n%p == 0 && strings.Repeat(string(pat[:p]), n/p) == string(pat) {
							return true // a shorter pattern, repeated
						}
					}
					if _, ok := run(g0, string(pat)+string(pat)); !ok {
						return true // does not repeat
					}
					for _, times := range hl.Pick([]int{5, 17, 40}, []int{5, 9, 17, 40, 130}) {
						g, _ := run(g0, strings.Repeat(string(pat), times))
						for _, end := range []string{"", "q", "E", "X", "H", "Hrq", "HRq", "HRrq", "HrE", "qR", "sR", "sRq"} {
							g, ok := run(g, end)
							if !ok {
								continue
							}
							s := string(g.tail().script)
							if !e.Case(func() string { return fmt.Sprintf("%s, %s %d times, %s (%s)", start, pat, times, end, sh.name) }, func() (string, string) { return compare(sh, s) }) {
								return false
							}
						}
					}
					return true
				}
				if !rec(0) {
					return
				}
			}
		}
	}}
}

func main() {
	hl.Main("C13", func() []hl.Scenario {
		var r []hl.Scenario
		for i := range shapes {
			sh := &shapes[i]
			deep := hl.Pick(6, 7)
			if !sh.client {
				deep++
			}
			r = append(r,
				scripts("calls", sh, false, limits{depth: deep, sends: 2, metas: 1, over: 2, returns: "qE", ends: "X"}, false),
				scripts("messages", sh, false, limits{depth: hl.Pick(9, 11), sends: 3, over: 1, returns: "qE", ends: "X", noHeader: true}, false),
				scripts("deadline", sh, false, limits{depth: hl.Pick(5, 6), sends: 1, metas: 1, over: 2, returns: "qEC", ends: "D"}, false),
				scripts("errors", sh, false, limits{depth: hl.Pick(5, 6), sends: 1, metas: 1, over: 0, returns: "qEWNFCcdg" + allCodes(), noHeader: true}, false))
			if sh.server || sh.client {
				r = append(r, long(sh, false))
			}
			if sh.server && sh.client {
				r = append(r, long(sh, true))
				r = append(r, scripts("duplex", sh, true, limits{depth: hl.Pick(7, 9), sends: 2, over: 1, returns: "qE", ends: "X", noHeader: true}, false))
			}
		}
		return append(append(r, misc()...), schedules()...)
	})
}
