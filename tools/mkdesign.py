#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from known_findings.json, seeded/*/meta.json and tools/catches.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(H + '/DESIGN.md').read()
seen = {}
for l in json.load(open(H + '/known_findings.json'))['fixed']:
    p, c, t = re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups()
    seen.setdefault((c, t), []).append(p)
fix = ['| commit | repaired | properties |', '|---|---|---|'] + ['| %s | %s | %s |' % (c, t, ' '.join(p)) for (c, t), p in seen.items()]
cat = json.load(open(H + '/tools/catches.json')) if os.path.exists(H + '/tools/catches.json') else {}
bugs = ['| bug | property | needs | caught |', '|---|---|---|---|']
for b in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, b)))
    bugs.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), cat.get(b, '?')))
for k, t in (('fixes', fix), ('bugs', bugs)):
    a, z = '<!-- %s -->' % k, '<!-- /%s -->' % k
    d = d[:d.index(a) + len(a)] + '\n' + '\n'.join(t) + '\n' + d[d.index(z):]
open(H + '/DESIGN.md', 'w').write(d)
