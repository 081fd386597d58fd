#!/usr/bin/env python3
"""Write MANIFEST.json from the table of techniques below and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from claims import CLAIMS, NOT_APPLICABLE

props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
man = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        man['checks'].append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p,
                              'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': 'other', 'level_note': note})
    else:
        man['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check has been built for it yet')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
