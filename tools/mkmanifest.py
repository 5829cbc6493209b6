#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the units in props/ and tools/notes.json"""
import json
import os

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(D + '/properties.jsonl')]
notes = json.load(open(D + '/tools/notes.json'))
PY = '/opt/venv/bin/python'
checks, na = [], []
for p in props:
    c = p['id']
    if os.path.exists('%s/props/%s.py' % (D, c.lower())):
        checks.append(dict(
            property=c, quick_cmd='%s run.py %s --tier quick' % (PY, c),
            thorough_cmd='%s run.py %s --tier thorough' % (PY, c),
            technique='symbolic execution of the Python source, decided by SMT/SAT (z3, kissat)',
            level='model_checking', level_note=notes['checks'].get(c, notes['default'])))
    else:
        na.append(dict(property=c, reason=notes['not_applicable'].get(c, 'no check yet')))
m = dict(version=1, setup_cmd='%s run.py --selftest' % PY, checks=checks, not_applicable=na, notes=notes['notes'])
json.dump(m, open(D + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
