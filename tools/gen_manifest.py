#!/usr/bin/env python3
"""MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN, NA
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLAN:
        pl = PLAN[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': pl.get('technique', 'bounded exhaustive stateless model checking of the real code against a reference model, builds with and without sanitizers'),
                       'level': 'model_checking',
                       'level_note': 'Every execution within the bounds is run on the real code; nothing is claimed outside them. Bounds: ' + pl['bounds']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harnesses drive the public API. DESIGN.md describes the engine and each check; known_findings.txt lists the repaired defects.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
