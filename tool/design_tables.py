#!/usr/bin/env python3
"""Rewrite the generated tables of DESIGN.md from known_findings.json and seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + '/known_findings.json'))
rows = ['| property | commit | what failed |', '|---|---|---|']
for f in k['fixed']:
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', f if isinstance(f, str) else f['entry'])
    rows.append('| %s | %s | %s |' % (m.group(1), m.group(2), m.group(3).replace('|', '/')))
also = json.load(open(V + '/tool/also.json')) if os.path.exists(V + '/tool/also.json') else {}
seeds = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    by = ', '.join([m['property']] + [x for x in also.get(d, []) if x != m['property']])
    seeds.append('| %s | %s | %s | %s |' % (d, by, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
p = V + '/DESIGN.md'
s = open(p).read()
for tag, rs in (('findings', rows), ('seeds', seeds)):
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, '\n'.join(rs), tag), s, flags=re.S)
open(p, 'w').write(s)
