#!/usr/bin/env python3
"""Write MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i,
                       thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=p['technique'], level=p.get('level', 'model_checking'), level_note=p['note']))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='none: /repo has no hooks',
                    enable='checks build with go build -overlay (patched copies of the Go runtime and sync packages, harness packages under internal/verif); nothing in /repo is guarded', source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=i, reason='no check built yet') for i in ids if i not in PROPS],
         notes='Engine, harnesses and findings are described in DESIGN.md; known_findings.json lists repaired and recorded defects.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
