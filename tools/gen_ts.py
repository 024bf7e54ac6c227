#!/usr/bin/env python3
"""Write harness/ts/reg.go: one entry per generated router of the repository."""
import glob, os, re, sys
R = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/ts/reg.go')
ents, pkgs = [], set()
for f in sorted(glob.glob(R + '/pkg/trait/*/*_router.pb.go')):
    s = open(f).read()
    pkg = re.search(r'^package (\w+)', s, re.M).group(1)
    router = re.search(r'^func New(\w+)\(opts', s, re.M).group(1)
    server = re.search(r'^var _ (\S+) =', s, re.M).group(1)
    assert router.endswith('Router') and server.endswith('Server')
    short, svc = router[:-6], server[:-6]
    q = svc if '.' in svc else pkg + '.' + svc
    mod, name = q.split('.')
    pkgs.add(pkg)
    ents.append((pkg, short, mod, name))
ents.sort()
w = ['// Code generated by tools/gen_ts.py. DO NOT EDIT.', '', 'package ts', '', 'import (',
     '\t"github.com/smart-core-os/sc-api/go/traits"']
for p in sorted(pkgs):
    w.append('\t"github.com/smart-core-os/sc-golang/pkg/trait/%s"' % p)
w += ['\t"github.com/smart-core-os/sc-golang/pkg/router"', '\t"google.golang.org/grpc"', ')', '', 'func init() {', '\tservices = []*Service{']
for pkg, short, mod, name in ents:
    c = '%s.%sClient' % (mod, name)
    w.append('\t\t{Pkg: "%s", Short: "%s", Name: "%s", Desc: &%s.%s_ServiceDesc,' % (pkg, short, name, mod, name))
    w.append('\t\t\tNewRouter: func(o ...router.Option) Router { return %s.New%sRouter(o...) },' % (pkg, short))
    w.append('\t\t\tNewClient: func(cc grpc.ClientConnInterface) any { return %s.New%sClient(cc) },' % (mod, name))
    w.append('\t\t\tWrap: func(s any) Wrapped { return %s.Wrap%s(s.(%s.%sServer)) },' % (pkg, short, mod, name))
    w.append('\t\t\tUnwrap: func(w Wrapped) any { return w.(*%s.%sWrapper).UnwrapServer() },' % (pkg, short))
    w.append('\t\t\tAdd: func(r Router, n string, c any) any { return box(r.(*%s.%sRouter).Add%sClient(n, c.(%s))) },' % (pkg, short, name, c))
    w.append('\t\t\tRemove: func(r Router, n string) any { return box(r.(*%s.%sRouter).Remove%sClient(n)) },' % (pkg, short, name))
    w.append('\t\t\tGet: func(r Router, n string) (any, error) { c, err := r.(*%s.%sRouter).Get%sClient(n); return box(c), err },' % (pkg, short, name))
    w.append('\t\t\tFactory: func(f router.Factory) router.Option { return %s.With%sClientFactory(func(n string) (%s, error) { c, err := f(n); if c == nil { return nil, err }; return c.(%s), err }) },' % (pkg, name, c, c))
    w.append('\t\t},')
w += ['\t}', '}', '']
os.makedirs(os.path.dirname(OUT), exist_ok=True)
open(OUT, 'w').write('\n'.join(w))
print(len(ents), 'services')
