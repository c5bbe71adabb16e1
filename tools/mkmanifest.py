#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOTES, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        units = ', '.join(u for u, _ in c['units'])
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                           technique='contract-based deductive verification: Verus contracts on the functions extracted from /repo (units %s)' % units,
                           level=c.get('level', 'proof'), level_note=c.get('note', NOTES)))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Every check extracts the functions it needs from /repo, verifies them with Verus and looks for a failing input on the compiled code; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
