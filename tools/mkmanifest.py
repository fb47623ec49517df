#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from config import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: contracts live in contracts/*.vrs and are added to functions lifted mechanically from /repo/src on every run. See DESIGN.md.'}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                            'technique': 'contract-based deductive verification with Verus on functions extracted from /repo/src, contracts also executed on the real crate',
                            'level': c['level'], 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'No check yet.')})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
