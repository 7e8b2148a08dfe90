#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {}
for line in open(os.path.join(V, 'tools', 'techniques.txt')):
    if '\t' in line:
        k, t, n = line.rstrip('\n').split('\t')
        TECH[k] = (t, n)
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
        t, n = TECH.get(i, ('runtime monitoring: oracle over observed executions', 'held on the executions observed'))
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i,
                           thorough_cmd='./check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=t, level='exploration', level_note=n))
    else:
        na.append(dict(property=i, reason='no monitor built yet'))
m = dict(version=1, setup_cmd='mkdir -p evidence replays && /opt/venv/bin/python -c "import numpy, numba, galsim, scipy"',
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'without')
