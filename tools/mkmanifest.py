#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the budgets and the notes below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.budget import BUDGET, NOTE
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in BUDGET:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique='deterministic simulation with fault injection: ' + NOTE.get(i, NOTE['']),
                           level='exploration',
                           level_note='Seeded search over explicit, replayable simulated runs; samples, does not enumerate.'))
    else:
        na.append(dict(property=i, reason='not built yet'))
m = dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
