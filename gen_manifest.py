#!/usr/bin/env python3
"""Writes MANIFEST.json from vt/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import props
P = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in P:
    c = props.CHECKS.get(p['id'])
    if not c:
        na.append(dict(property=p['id'], reason=props.NOT_APPLICABLE.get(p['id'], 'no check built yet')))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
                       technique=c['technique'], level=c['level'], level_note=c['note'] or 'bounded exhaustive exploration of the real code; see DESIGN.md'))
m = dict(version=1, setup_cmd='python3 check.py --build', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks build the unmodified library sources, instrumented by the compiler. Properties, bounds and findings: DESIGN.md.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
