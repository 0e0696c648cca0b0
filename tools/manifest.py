#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from props import PROPS, NA, NOTE
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Contracts in specs/*.vs are attached on every run to the functions extracted from /repo by extract/lcvx.cc and discharged by Verus; see DESIGN.md.'}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': 'contract-based deductive verification (Verus/Z3) of the functions mechanically extracted from the source; bounded differential run of the real code for replays',
            'level': p.get('level', 'proof'), 'level_note': p.get('note', NOTE)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not decided by this framework yet')})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
