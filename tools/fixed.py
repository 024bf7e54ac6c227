#!/usr/bin/env python3
"""Keep the "fixed" list of known_findings.json in step with /repo's fix: commits.
Usage: fixed.py '<subject start>=C01,C02' ... (adds the properties a fix repairs)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'known_findings.json')
d = json.load(open(p))
mp = d.setdefault('fix_properties', {})
for a in sys.argv[1:]:
    k, v = a.rsplit('=', 1)
    mp[k] = v
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s'], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split('\t', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    pr = [v for k, v in mp.items() if s.startswith(k)]
    if not pr:
        print('no property for', h, s)
        continue
    for q in pr[0].split(','):
        out.append('fixed: property=%s %s %s' % (q, h, s))
d['fixed'] = out
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
