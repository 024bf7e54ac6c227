#!/usr/bin/env python3
"""Patch the go1.25.14 runtime/sync sources for the controlled scheduler.

usage: mkoverlay.py OUTDIR  -> writes OUTDIR/rt/*.go and returns the overlay map
Every replacement must match exactly once, otherwise the build fails loudly.
"""
import os, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
GOROOT = os.environ.get('VERIF_GOROOT', '/opt/veriftools/go1.25.14')

R = {}  # file -> [(old, new)]
def rep(f, old, new, count=1):
    R.setdefault(f, []).append((old, new, count))

P = 'runtime/proc.go'
rep(P, "\trunqput(mp.p.ptr(), gp, next)\n\twakep()\n\treleasem(mp)\n", "\tif !venqueue(gp) {\n\t\trunqput(mp.p.ptr(), gp, next)\n\t\twakep()\n\t}\n\treleasem(mp)\n")
rep(P, "top:\n\tpp := mp.p.ptr()\n\tpp.preempt = false\n\n\t// Safety check: if we are spinning", "\tif vs.active && vs.cur == 0 {\n\t\tvpick()\n\t}\n\ntop:\n\tpp := mp.p.ptr()\n\tpp.preempt = false\n\n\t// Safety check: if we are spinning")
rep(P, "\t// N.B. Not using casGToWaiting here because the waitreason is\n\t// set by park_m's caller.\n\tcasgstatus(gp, _Grunning, _Gwaiting)\n",
       "\t// N.B. Not using casGToWaiting here because the waitreason is\n\t// set by park_m's caller.\n\tcasgstatus(gp, _Grunning, _Gwaiting)\n\tvwascur := vs.active && gp == vs.cur.ptr()\n\tif vwascur {\n\t\tvs.cur = 0\n\t}\n")
rep(P, "\t\t\tcasgstatus(gp, _Gwaiting, _Grunnable)\n\t\t\tif bubble != nil {\n\t\t\t\tbubble.decActive()\n\t\t\t}\n",
       "\t\t\tcasgstatus(gp, _Gwaiting, _Grunnable)\n\t\t\tif vwascur {\n\t\t\t\tvs.cur.set(gp)\n\t\t\t}\n\t\t\tif bubble != nil {\n\t\t\t\tbubble.decActive()\n\t\t\t}\n")
rep(P, "func gosched_m(gp *g) {\n", "func gosched_m(gp *g) {\n\tif vs.active && gp == vs.cur.ptr() {\n\t\tvgosched_m(gp)\n\t}\n")
rep(P, "func gdestroy(gp *g) {\n\tmp := getg().m\n\tpp := mp.p.ptr()\n\n\tcasgstatus(gp, _Grunning, _Gdead)\n",
       "func gdestroy(gp *g) {\n\tmp := getg().m\n\tpp := mp.p.ptr()\n\n\tif vs.active && gp == vs.cur.ptr() {\n\t\tvs.cur = 0\n\t\tif gp == vs.main.ptr() {\n\t\t\tvs.mainDone = true\n\t\t}\n\t}\n\tcasgstatus(gp, _Grunning, _Gdead)\n")
rep(P, "\t\tpp := getg().m.p.ptr()\n\t\trunqput(pp, newg, true)\n\n\t\tif mainStarted {\n\t\t\twakep()\n\t\t}\n",
       "\t\tif vctl(newg) {\n\t\t\tvborn(newg)\n\t\t\tvenqueue(newg)\n\t\t\treturn\n\t\t}\n\t\tpp := getg().m.p.ptr()\n\t\trunqput(pp, newg, true)\n\n\t\tif mainStarted {\n\t\t\twakep()\n\t\t}\n")
rep('runtime/runtime2.go', "\tbubble  *synctestBubble\n", "\tbubble  *synctestBubble\n\tvid     uint64\n\tvpick   int32\n")
S = 'runtime/synctest.go'
rep(S, "\ttotal   int // total goroutines\n", "\tctl     bool // verif: controlled execution\n\ttotal   int // total goroutines\n")
rep(S, "\tif bubble.running > 0 || bubble.active > 0 {\n\t\treturn nil\n", "\tif bubble.ctl || bubble.running > 0 || bubble.active > 0 {\n\t\treturn nil\n")
rep(S, "func synctest_isInBubble() bool {\n\treturn getg().bubble != nil\n", "func synctest_isInBubble() bool {\n\treturn getg().bubble != nil && !getg().bubble.ctl\n")
C = 'runtime/chan.go'
rep(C, "func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tvyield('s', sys.GetCallerPC())\n")
rep(C, "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tvyield('r', sys.GetCallerPC())\n")
rep(C, "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tvyield('r', sys.GetCallerPC())\n")
rep(C, "func closechan(c *hchan) {\n\tif c == nil {\n", "func closechan(c *hchan) {\n\tvyield('c', sys.GetCallerPC())\n\tif c == nil {\n")
rep(C, "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n", "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n\tvyield('s', sys.GetCallerPC())\n")
rep(C, "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n\tvyield('r', sys.GetCallerPC())\n")
# channels made inside a controlled execution carry no bubble, except timer channels
rep(C, "\tif b := getg().bubble; b != nil {\n\t\tc.bubble = b\n", "\tif b := getg().bubble; b != nil && !b.ctl {\n\t\tc.bubble = b\n")
L = 'runtime/select.go'
rep(L, "\tgp := getg()\n\tif debugSelect {\n\t\tprint(\"select: cas0=\", cas0, \"\\n\")\n", "\tvyield('S', sys.GetCallerPC())\n\tgp := getg()\n\tif debugSelect {\n\t\tprint(\"select: cas0=\", cas0, \"\\n\")\n")
rep(L, "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := uint32(norder)\n\t\tif !(vs.active && gp == vs.cur.ptr()) {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n")
rep(L, "\tpollorder = pollorder[:norder]\n\tlockorder = lockorder[:norder]\n", "\tpollorder = pollorder[:norder]\n\tlockorder = lockorder[:norder]\n\tif vs.active && gp == vs.cur.ptr() {\n\t\tvselorder(scases, pollorder, nsends)\n\t}\n")
T = 'runtime/time.go'
rep(T, "\tif bubble := getg().bubble; bubble != nil {\n\t\tt.isFake = true\n\t}\n\tt.modify(when, period, f, arg, 0)\n",
    "\tif bubble := getg().bubble; bubble != nil {\n\t\tt.isFake = true\n\t\tif c != nil && bubble.ctl {\n\t\t\tc.bubble = bubble\n\t\t}\n\t}\n\tt.modify(when, period, f, arg, 0)\n")
# timers due at the same instant: a fixed order (the goroutines they wake are then
# ordered by choices), not a random one
rep(T, "\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = 0\n\t\t\tif !vs.active {\n\t\t\t\tt.rand = cheaprand()\n\t\t\t}\n")
Q = 'runtime/rand.go'
rep(Q, "func rand() uint64 {\n", "func rand() uint64 {\n\tif vrndOn() {\n\t\treturn vrnd()\n\t}\n")
# cheaprand is left alone: the runtime draws from it at unpredictable moments (caches, profiling)
rep(Q, "\tseed := &globalRand.seed\n", "\tseed := &globalRand.seed\n\tstartupRand = nil\n")
rep(Q, "\t\tif readRandom(seed[:]) != len(seed) || allZero(seed[:]) {\n", "\t\tfor i := range seed {\n\t\t\tseed[i] = byte(i + 1)\n\t\t}\n\t\tif allZero(seed[:]) {\n")
rep(Q, "\tglobalRand.state.Reseed()\n", "")
N = 'runtime/panic.go'
rep(N, "\t\tif startpanic_m() && msgs != nil {\n", "\t\tvcrash()\n\t\tif startpanic_m() && msgs != nil {\n")
rep(N, "func fatalthrow(t throwType) {\n\tpc := sys.GetCallerPC()\n\tsp := sys.GetCallerSP()\n", "func fatalthrow(t throwType) {\n\tpc := sys.GetCallerPC()\n\tsp := sys.GetCallerSP()\n\tsystemstack(vcrash)\n")

# children are cancelled in the order they were added, not in the order of a map keyed by addresses
X = 'context/context.go'
rep(X, "\tchildren map[canceler]struct{} // set to nil by the first cancel call\n", "\tchildren map[canceler]int64 // set to nil by the first cancel call\n\tverifSeq int64\n")
rep(X, "\t\t\t\tp.children = make(map[canceler]struct{})\n", "\t\t\t\tp.children = make(map[canceler]int64)\n")
rep(X, "\t\t\tp.children[child] = struct{}{}\n", "\t\t\tp.verifSeq++\n\t\t\tp.children[child] = p.verifSeq\n")
rep(X, "\tfor child := range c.children {\n", "\tfor len(c.children) > 0 {\n\t\tvar child canceler\n\t\tfor k, n := range c.children {\n\t\t\tif child == nil || n < c.children[child] {\n\t\t\t\tchild = k\n\t\t\t}\n\t\t}\n\t\tdelete(c.children, child)\n")

M = 'sync/mutex.go'
rep(M, "func (m *Mutex) Lock() {\n", "//\n//go:noinline\nfunc (m *Mutex) Lock() {\n\tverif_yield('l', sys.GetCallerPC())\n")
rep(M, "func (m *Mutex) TryLock() bool {\n", "//\n//go:noinline\nfunc (m *Mutex) TryLock() bool {\n\tverif_yield('l', sys.GetCallerPC())\n")
rep(M, 'import (\n', 'import (\n\t"internal/runtime/sys"\n\t_ "unsafe"\n')
rep(M, 'type Mutex struct {\n', 'type Mutex struct {\n')
W = 'sync/rwmutex.go'
rep(W, 'import (\n', 'import (\n\t"internal/runtime/sys"\n')
for fn in ['RLock()', 'Lock()', 'TryLock() bool', 'TryRLock() bool']:
    rep(W, "func (rw *RWMutex) %s {\n" % fn, "//\n//go:noinline\nfunc (rw *RWMutex) %s {\n\tverif_yield('l', sys.GetCallerPC())\n" % fn)
O = 'sync/once.go'
rep(O, 'import (\n', 'import (\n\t"internal/runtime/sys"\n')
rep(O, "func (o *Once) Do(f func()) {\n", "//\n//go:noinline\nfunc (o *Once) Do(f func()) {\n\tverif_yield('o', sys.GetCallerPC())\n")
G = 'sync/waitgroup.go'
rep(G, 'import (\n', 'import (\n\t"internal/runtime/sys"\n')
rep(G, "func (wg *WaitGroup) Wait() {\n", "//\n//go:noinline\nfunc (wg *WaitGroup) Wait() {\n\tverif_yield('w', sys.GetCallerPC())\n")

SYNC_EXTRA = '''package sync

import _ "unsafe"

//go:linkname verif_yield
func verif_yield(kind int, pc uintptr)
'''

def build(outdir):
    os.makedirs(outdir, exist_ok=True)
    ov = {}
    def put(name, text):
        p = os.path.join(outdir, name)
        old = None
        if os.path.exists(p):
            old = open(p).read()
        if old != text:
            tmp = p + '.tmp%d' % os.getpid()
            open(tmp, 'w').write(text)
            os.replace(tmp, p)
        return p
    for f, reps in R.items():
        src = open(os.path.join(GOROOT, 'src', f)).read()
        for old, new, cnt in reps:
            if src.count(old) != cnt:
                sys.exit('mkoverlay: %s: %d matches for %r' % (f, src.count(old), old))
            src = src.replace(old, new)
        ov[os.path.join(GOROOT, 'src', f)] = put(f.replace('/', '_'), src)
    ov[os.path.join(GOROOT, 'src/runtime/verif.go')] = put('runtime_verif.go', open(os.path.join(VERIF, 'rt/verif.go.txt')).read())
    ov[os.path.join(GOROOT, 'src/sync/verif.go')] = put('sync_verif.go', SYNC_EXTRA)
    return ov

if __name__ == '__main__':
    print(json.dumps({'Replace': build(sys.argv[1])}, indent=1))
