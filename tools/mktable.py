#!/usr/bin/env python3
"""rewrite the table of planted bugs of DESIGN.md from seeded/*/meta.json (known rows are kept as written)"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'DESIGN.md')
lines = open(path).read().split('\n')
start = lines.index('| bug | check | what it breaks | needs |')
end = start + 2
old = {}
while lines[end].startswith('|'):
    old[lines[end].split('|')[1].strip()] = lines[end]
    end += 1
rows = []
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append(old.get(d) or '| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
lines[start + 2:end] = rows
open(path, 'w').write('\n'.join(lines))
