#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Quint specification of the whole program; behaviours of the simulator are replayed step by step into the real '
        'instruction handlers (verdict, events and complete projected state compared); the properties are invariants '
        'checked on the specification by the simulator. Random and directed exploration, not exhaustive.')
SPECIAL = {}
checks = []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)['id']
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s' % p,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'technique': SPECIAL.get(p, ('Quint specification, invariants by simulation, ITF traces replayed into the real program',))[0],
        'level': 'model_checking',
        'level_note': NOTE,
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
