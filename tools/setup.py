#!/usr/bin/env python3
"""Prebuild every harness so that checks only relink what changed in /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import check
done = set()
for pid, p in sorted(check.PROPS.items()):
    for c in p['builds']:
        k = (c['harness'], c.get('race', False), c.get('tag', ''))
        if k in done:
            continue
        done.add(k)
        print('building', *k, flush=True)
        try:
            vlib.build(c['harness'], race=c.get('race', False), instrument=check.instr(c.get('instr')), tag=c.get('tag', ''))
        except vlib.BuildError as e:
            print(e)
            sys.exit(1)
