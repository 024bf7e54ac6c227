#!/usr/bin/env python3
"""DESIGN.md from DESIGN.md.in: fills in the tables of fixes and planted bugs."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md.in').read()
k = json.load(open(V + '/known_findings.json'))
by = {}
for f in k['fixed']:
    _, p, h, t = f.split(' ', 3)
    by.setdefault((h, t), []).append(p.split('=')[1])
rows = ['| commit | properties | defect or repair |', '|---|---|---|']
rows += ['| %s | %s | %s |' % (h, ' '.join(p), t) for (h, t), p in by.items()]
s = s.replace('COUNTS', '%d fix commits.' % len(by)).replace('@FIXES@', '\n'.join(rows))
rows = ['| id | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'] + ' (quick)')))
s = s.replace('@SEEDS@', '\n'.join(rows))
costs = open(V + '/tools/costs.txt').read() if os.path.exists(V + '/tools/costs.txt') else ''
s = s.replace('@COSTS@', costs)
open(V + '/DESIGN.md', 'w').write(s)
