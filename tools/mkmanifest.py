#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'harness'))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
                       thorough_cmd='python3 check.py %s --thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=c.get('technique', 'TLA+ specification checked with TLC; observations of the code validated against it by TLC'),
                       level='model_checking', level_note=c['note']))
na = [dict(property=p['id'], reason='no check built yet') for p in props if p['id'] not in CHECKS]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
