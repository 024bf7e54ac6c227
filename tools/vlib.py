"""Build helpers shared by every check."""
import json, os, subprocess, sys, time, shutil, hashlib, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
# what depends on the repository's place is kept apart, so that checks of copies can run at the same time
PLACE = BUILD if REPO == '/repo' else os.path.join(BUILD, 'at-' + hashlib.sha1(REPO.encode()).hexdigest()[:8])
EVIDENCE = os.path.join(VERIF if PLACE == BUILD else PLACE, 'evidence')
GOROOT = os.environ.get('VERIF_GOROOT', '/opt/veriftools/go1.25.14')
MOD = 'github.com/smart-core-os/sc-golang'
sys.path.insert(0, HERE)
import mkoverlay


def goenv(race=False):
    e = dict(os.environ)
    e.update(GOROOT=GOROOT, GOTOOLCHAIN='local', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOCACHE=os.path.join(BUILD, 'gocache'), GOPROXY='off', GOSUMDB='off', GOWORK='off', HOME='/root',
             CGO_ENABLED='1' if race else '0', GOFLAGS='', GOEXPERIMENT='', GODEBUG='')
    e['PATH'] = os.path.join(GOROOT, 'bin') + ':' + e.get('PATH', '')
    return e


def overlay(name, harness_dirs, instrument=()):
    """Write an overlay injecting the patched runtime, vrt and the harness packages."""
    d = os.path.join(PLACE, 'ov')
    os.makedirs(d, exist_ok=True)
    ov = mkoverlay.build(os.path.join(BUILD, 'rt'))

    def add(src, dst):
        for f in sorted(os.listdir(src)):
            if f.endswith(('.go', '.s')):
                ov[os.path.join(REPO, 'internal/verif', dst, f)] = os.path.join(src, f)
    add(os.path.join(VERIF, 'vrt'), 'vrt')
    add(os.path.join(VERIF, 'harness/hl'), 'hl')
    add(os.path.join(VERIF, 'harness/rm'), 'rm')
    for shared in ('tm', 'ts'):
        add(os.path.join(VERIF, 'harness', shared), shared)
    for h in harness_dirs:
        add(os.path.join(VERIF, 'harness', h), h)
    ov.update(instrument)
    p = os.path.join(d, name + '.json')
    with open(p + '.tmp%d' % os.getpid(), 'w') as f:
        json.dump({'Replace': ov}, f)
    os.replace(p + '.tmp%d' % os.getpid(), p)
    return p


def modfile():
    """A private copy of go.mod/go.sum so that the build never edits the repo's."""
    d = os.path.join(PLACE, 'mod')
    os.makedirs(d, exist_ok=True)
    for f in ('go.mod', 'go.sum'):
        src = open(os.path.join(REPO, f)).read()
        dst = os.path.join(d, f)
        if not os.path.exists(dst) or f == 'go.mod' or True:
            tmp = dst + '.tmp%d' % os.getpid()
            open(tmp, 'w').write(src)
            os.replace(tmp, dst)
    return os.path.join(d, 'go.mod')


class BuildError(Exception):
    pass


def build(name, race=False, instrument=(), tag='', plain=False):
    """Build harness/<name> and return the binary's path."""
    os.makedirs(PLACE, exist_ok=True)
    out = os.path.join(PLACE, 'bin', name + tag + ('.race' if race else ''))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    ov = overlay(name + tag, [name], instrument)
    cmd = ['go', 'build', '-mod=mod', '-modfile', modfile(), '-overlay', ov, '-trimpath=false',
           '-ldflags=-w', '-o', out] + (['-race'] if race else []) + [MOD + '/internal/verif/' + name]
    r = subprocess.run(cmd, cwd=REPO, env=goenv(race), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lock.close()
    if r.returncode != 0:
        raise BuildError('build of %s failed:\n%s' % (name, r.stdout[-6000:]))
    return out


def regen():
    """Run the repository's generators over the linked API descriptors. Returns the
    directory with the files, or with a file 'error', and an overlay that replaces
    the checked-in files by the generated ones."""
    d = os.path.join(PLACE, 'regen')
    out = os.path.join(d, 'out')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    ov = os.path.join(d, 'ov.json')
    with open(ov, 'w') as f:
        json.dump({'Replace': {os.path.join(REPO, 'internal/verif/regen/main.go'): os.path.join(HERE, 'regen/main.go')}}, f)

    def run(cmd):
        r = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout

    def build1(name, pkg):
        b = os.path.join(PLACE, 'bin', name)
        return b, run(['go', 'build', '-mod=mod', '-modfile', modfile(), '-overlay', ov, '-o', b, MOD + pkg])
    tool, (rc, text) = build1('regen', '/internal/verif/regen')
    if rc:
        raise BuildError(text)
    err = ''
    for plugin in ('router', 'wrapper'):
        b, (rc, text) = build1('protoc-gen-' + plugin, '/cmd/protoc-gen-' + plugin)
        if not rc:
            rc, text = run([tool, b, out])
        if rc:
            err += 'protoc-gen-%s fails: %s\n' % (plugin, text[-1500:])
    if err:
        open(os.path.join(out, 'error'), 'w').write(err)
    rep = {}
    for base, _, fs in os.walk(out):
        for f in fs:
            if f.endswith('.go'):
                p = os.path.join(base, f)
                rep[os.path.join(REPO, os.path.relpath(p, out))] = p
    return out, rep
