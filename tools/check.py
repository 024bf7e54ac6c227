#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only GLOB]: build and run one property's harnesses."""
import argparse, glob, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time, mmap
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from props import PROPS

VERIF = vlib.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')


def instr(pkgs):
    if not pkgs:
        return {}
    tool = os.path.join(vlib.BUILD, 'bin', 'instr')
    os.makedirs(os.path.dirname(tool), exist_ok=True)
    src = os.path.join(VERIF, 'tools/instr')
    env = vlib.goenv(); env['GO111MODULE'] = 'off'
    r = subprocess.run(['go', 'build', '-o', tool, os.path.join(src, 'main.go')], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise vlib.BuildError(r.stdout)
    r = subprocess.run([tool, vlib.REPO, os.path.join(vlib.PLACE, 'instr')] + pkgs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise vlib.BuildError('instr: ' + r.stderr)
    return json.loads(r.stdout)


REGEN = {}
STUCK = 100  # seconds


class Job:
    """one harness binary run by several workers sharing a work queue"""

    def __init__(self, prop, conf, tier, seed, tmp, deadline, only, nproc, verbose):
        self.prop, self.conf, self.tier = prop, conf, tier
        self.tmp, self.tier = tempfile.mkdtemp(dir=tmp), tier
        inst = dict(instr(conf.get('instr')))
        self.bin = None
        if conf.get('regen'):
            inst.update(REGEN['overlay'])
        try:
            if not (conf.get('regen') and REGEN['error']):
                self.bin = vlib.build(conf['harness'], race=conf.get('race', False), instrument=inst, tag=conf.get('tag', ''))
        except vlib.BuildError as e:
            if not conf.get('regen'):
                raise
            # the checked-in code builds, what the generators produce does not
            open(os.path.join(REGEN['dir'], 'error'), 'w').write('the generated code does not build: %s' % e)
        self.args = ['-tier', tier, '-seed', str(seed), '-known', KNOWN] + (conf['targs'] if tier == 'thorough' and 'targs' in conf else conf.get('args', []))
        if only:
            self.args += ['-only', only]
        self.deadline = deadline
        self.nproc = nproc
        self.verbose = verbose
        self.env = dict(os.environ)
        self.env['GODEBUG'] = 'asyncpreemptoff=1'
        self.env['GOMAXPROCS'] = '1'
        self.env['GOTRACEBACK'] = 'all'
        self.env['GORACE'] = 'halt_on_error=0 exitcode=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=' + os.path.join(self.tmp, 'race')
        self.workers = []

    def start(self, n):
        for i in range(len(self.workers), len(self.workers) + n):
            out = os.path.join(self.tmp, 'out%d.json' % i)
            st = os.path.join(self.tmp, 'st%d' % i)
            err = os.path.join(self.tmp, 'err%d' % i)
            cmd = [self.bin] + self.args + ['-queue', os.path.join(self.tmp, 'queue'), '-out', out, '-status', st,
                                            '-deadline', '%.1f' % max(1, self.deadline - time.time())]
            if self.verbose:
                cmd.append('-v')
            p = subprocess.Popen(cmd, stdout=open(err + '.out', 'w'), stderr=open(err, 'w'), env=self.env, cwd=self.tmp, start_new_session=True, preexec_fn=self.limit)
            self.workers.append(dict(p=p, out=out, st=st, err=err, beat=None, t=time.time()))

    def status(self, w):
        try:
            b = open(w['st'], 'rb').read()
            return struct.unpack('<1024Q', b[:8192])
        except Exception:
            return None

    def names(self):
        r = subprocess.run([self.bin] + self.args + ['-tier', 'thorough', '-list'], stdout=subprocess.PIPE, env=self.env, text=True)
        return r.stdout.split('\n')

    def limit(self):
        """runaway code must not take the machine's memory; the race detector needs the address space"""
        if not self.conf.get('race'):
            resource.setrlimit(resource.RLIMIT_AS, ((5 if self.tier == 'quick' else 12) << 30,) * 2)

    def replay(self, v, n=5, timeout=180, enough=5):
        """re-run a violation n times; returns the number of failing runs and the last output"""
        f = os.path.join(self.tmp, 'replay.json')
        json.dump(v, open(f, 'w'))
        bad, text = 0, ''
        for _ in range(n):
            try:
                r = subprocess.run([self.bin] + self.args + ['-replay', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env, cwd=self.tmp, text=True, timeout=timeout, errors='replace', preexec_fn=self.limit)
                rc, t = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, t = 99, 'hang: the replay did not finish in %d s' % timeout
            if rc not in (0, 3):
                bad += 1
                text = t
                if bad >= enough:
                    break
        return bad, text


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('--harness', default='')
    ap.add_argument('--keep', action='store_true', help='development: list all')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--budget', type=float, default=0)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = PROPS[a.prop]
    budget = a.budget or (prop.get('quick_s', 420) if a.tier == 'quick' else prop.get('thorough_s', 780))
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % a.prop)
    rc = 1
    try:
        rc = run(a, prop, seed, t0, budget, tmp)
    except vlib.BuildError as e:
        print(e)
        print('ERROR: the harness does not build against this tree')
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(a, prop, seed, t0, budget, tmp):
    jobs = []
    confs = [c for c in prop['builds'] if not a.harness or c['harness'] + c.get('tag', '') == a.harness]
    confs = [c for c in confs if a.tier == 'thorough' or not c.get('thorough_only')]
    if any(c.get('regen') for c in confs):
        d, ov = vlib.regen()
        REGEN.update(dir=d, overlay=ov, error=os.path.exists(os.path.join(d, 'error')))
        os.environ['VERIF_REGEN'] = d
    for conf in confs:
        jobs.append(Job(a.prop, conf, a.tier, seed, tmp, 0, a.only, a.j, a.v))
    jobs = [j for j in jobs if j.bin]
    confs = [j.conf for j in jobs]
    tb = time.time()
    merged = dict(scenarios=[], violations=[], known=[], states=set(), transitions=0, samples=[], notes=[], executions=0)
    fail = None
    weights = [c.get('weight', 1) for c in confs]
    start = time.time()
    for ji, job in enumerate(jobs):
        # later jobs get the time earlier ones left over
        left = budget - (time.time() - start)
        job.deadline = time.time() + max(5, left * weights[ji] / sum(weights[ji:]))
        if a.keep:
            job.args.append('-keep')
        job.start(a.j)
        fail = wait(job)
        collect(job, merged)
        if a.v:
            for w in job.workers:
                sys.stderr.write(open(w['err'], errors='replace').read())
        if fail or merged['violations']:
            break
    rc = 0
    lines = []
    nviol = 0
    for k in merged['known']:
        print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, k['scenario'], k['desc'].replace('\n', ' ')[:600]))
    rdir = os.path.join(vlib.EVIDENCE, 'replays')
    cand = list(merged['violations'])
    if fail:
        cand.append(fail)
    if a.keep:
        seen = set()
        for v in cand:
            if v['key'] in seen: continue
            seen.add(v['key'])
            print('--', v['scenario'], '|', v['desc'][:6000], '|', (v.get('trace') or '')[:600], v.get('choices'))
        cand = cand[:1]
    for v in cand:
        n, timeout = (2, 70) if v['key'] == 'hang' else (5, 180)
        enough = 1 if v.get('crash') or v['key'] == 'race' else n
        bad, text = job.replay(v, n, timeout, enough)
        if bad >= enough:
            os.makedirs(rdir, exist_ok=True)
            f = os.path.join(rdir, '%s-%d.json' % (a.prop, nviol))
            json.dump(dict(v, property=a.prop, harness=job.conf, replay_output=text[-8000:],
                           how='tools/check.py %s builds the harness; <binary> -replay <this file>' % a.prop), open(f, 'w'), indent=1)
            nviol += 1
            print('%s: %s' % (v['scenario'], v['desc'][:3000]))
            if v.get('trace'):
                print('observed: %s' % v['trace'][:2000])
            print('VIOLATION property=%s replay=%s' % (a.prop, f))
            rc = 1
            break
        else:
            print('UNSTABLE: %s %s reproduced %d/%d' % (v['scenario'], v['desc'][:6000], bad, n))
            merged['notes'].append('unstable candidate in %s (%s), reproduced %d/%d, not reported' % (v['scenario'], v['key'], bad, n))
    wall = time.time() - t0
    write_evidence(a, prop, seed, merged, wall, nviol, tb - t0)
    ex = sum(s['executions'] for s in merged['scenarios'])
    print('%s %s: %d scenarios, %d executions, %d states, %d transitions, capped=%d, %.1fs (build %.1fs)%s' % (
        a.prop, a.tier, len(merged['scenarios']), ex, len(merged['states']), merged['transitions'],
        sum(1 for s in merged['scenarios'] if s['capped']), wall, tb - t0, '' if rc == 0 else ' FAILED'))
    return rc


def wait(job):
    """wait for the workers; returns a crash/hang violation or None"""
    fail = None
    while True:
        live = [w for w in job.workers if w['p'].poll() is None]
        for w in list(job.workers):
            if w.get('done') or w['p'].poll() is None:
                continue
            w['done'] = True
            if w['p'].returncode != 0 and not fail:
                text = open(w['err'], errors='replace').read() + open(w['err'] + '.out', errors='replace').read()
                st = job.status(w)
                fail = crash(job, w, st, text)
            elif w['p'].returncode == 0 and not fail:
                try:
                    more = json.load(open(w['out'])).get('more')
                except Exception:
                    more = False
                if more:
                    job.start(1)
                    live.append(job.workers[-1])
        if fail or not live:
            break
        viol = '-keep' not in job.args and any(w.get('done') and has_violation(w['out']) for w in job.workers)
        if viol:
            break
        now = time.time()
        for w in live:
            st = job.status(w)
            beat = st[0] if st else None
            if beat != w['beat']:
                w['beat'], w['t'] = beat, now
            elif now - w['t'] > STUCK:
                fail = hang(job, w, st)
                break
        if fail:
            break
        time.sleep(0.05)
    for w in job.workers:
        if w['p'].poll() is None:
            try:
                os.killpg(w['p'].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            w['p'].wait()
    return fail


def has_violation(p):
    try:
        return bool(json.load(open(p)).get('violations'))
    except Exception:
        return False


def where(job, st):
    names = job.names()
    sc = names[st[1]] if st and st[1] < len(names) else '?'
    v = dict(scenario=sc, case=-1, choices=[])
    if st and st[3] == 1:
        v['case'] = st[2]
    elif st and st[3] == 2:
        v['choices'] = list(st[5:5 + min(st[4], 1000)])
    return v


def crash(job, w, st, text):
    v = where(job, st)
    m = re.search(r'VERIF-CRASH choices=\[([0-9,]*)\]', text)
    if m and v['case'] < 0:
        v['choices'] = [int(x) for x in m.group(1).split(',') if x]
    msg = [l for l in text.split('\n') if l.startswith(('panic:', 'fatal error:', 'VERIF-DIVERGED', 'runtime:'))]
    frames = [l.strip() for l in text.split('\n') if 'sc-golang' in l and 'internal/verif' not in l][:10]
    v['key'] = 'crash'
    v['crash'] = True
    v['desc'] = 'crash: worker exit %s; %s\n%s' % (w['p'].returncode, '; '.join(msg[:3]) or text[-600:], '\n'.join(frames))
    return v


def hang(job, w, st):
    v = where(job, st)
    v['key'] = 'hang'
    v['crash'] = False
    v['desc'] = 'hang: no progress for %d s (an endless loop in the code under test)' % STUCK
    return v


def collect(job, m):
    for w in job.workers:
        try:
            r = json.load(open(w['out']))
        except Exception:
            continue
        tag = job.conf.get('tag', '')
        for s in r['scenarios'] or []:
            s['name'] += tag
            m['scenarios'].append(s)
        m['violations'] += r['violations'] or []
        for k in r['known'] or []:
            if not any(x['scenario'] == k['scenario'] and x['key'] == k['key'] for x in m['known']):
                m['known'].append(k)
        m['states'].update(r['states'] or [])
        m['transitions'] += r['transitions']
        m['samples'] += r['samples'] or []
        m['notes'] += r['notes'] or []


def write_evidence(a, prop, seed, m, wall, nviol, build_s):
    by = {}
    for s in m['scenarios']:
        b = by.setdefault(s['name'], dict(s))
        if b is not s and b.get('_n'):
            for k in ('executions', 'steps', 'distinct_outcomes'):
                b[k] += s[k]
            b['capped'] = b['capped'] or s['capped']
            b['wall_s'] = max(b['wall_s'], s['wall_s'])
        b['_n'] = 1
    scs = sorted(by.values(), key=lambda s: s['name'])
    for s in scs:
        s.pop('_n', None)
        if s.get('kind') == 'enumeration':
            s.pop('bound_completed', None); s.pop('bound', None)
    ex = sum(s['executions'] for s in scs)
    capped = [s['name'] for s in scs if s['capped']]
    cov = dict(
        states=len(m['states']),
        transitions=int(m['transitions']),
        traces_validated_against_impl=int(ex),
        samples=m['samples'][:6],
        executions_or_cases=int(ex),
        distinct_outcomes=int(sum(s['distinct_outcomes'] for s in scs)),
        exhaustive=not capped,
        capped_scenarios=capped,
        bounds=prop.get('bounds', ''),
        rule=prop.get('rule', 'every execution runs the real code; states are distinct abstract states / outcomes observed, transitions are operations or scheduling steps executed'),
        scenarios=scs[:400],
        known_findings=[k['scenario'] + ': ' + k['key'] for k in m['known']],
        notes=m['notes'],
        build_s=round(build_s, 1),
    )
    ev = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level=prop.get('level', 'model_checking'),
              coverage=cov, assumptions=prop.get('assumptions', []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(vlib.EVIDENCE, exist_ok=True)
    p = os.path.join(vlib.EVIDENCE, a.prop + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    main()
