#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sa/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import registry as R
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './setup',
     'checks': [], 'not_applicable': []}
for p in props:
    if p in R.CHECKS:
        groups, level, tech, note = R.CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check ' + p, 'evidence_file': 'evidence/%s.json' % p,
                            'technique': tech, 'level': level, 'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': R.NOT_APPLICABLE.get(p, 'no check yet')})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
