#!/usr/bin/env python3
"""Writes /verif/known_findings.json: repaired defects (from the fix: commits in /repo) and recorded ones."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(HERE, 'tools', 'fixprops.json')))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
fixed = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        for p in PROP[s[5:]]:
            fixed.append('fixed: property=%s %s %s' % (p, h, s[5:]))
old = {}
p = os.path.join(HERE, 'known_findings.json')
if os.path.exists(p):
    old = json.load(open(p))
json.dump(dict(findings=old.get('findings', []), fixed=fixed), open(p, 'w'), indent=1)
print(len(fixed), 'fixed')
