#!/usr/bin/env python3
# writes MANIFEST.json from lib/props.py and the list of properties
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(H, 'lib'))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './check --setup',
     'hooks': {'guard': 'none', 'enable': 'no hooks: every seam is installed at link time (ld --wrap), through GMP\'s allocation hooks, or by compiler instrumentation of the unchanged sources', 'source_commits': []},
     'checks': [], 'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE[i]} for i in ids if i not in PROPS]}
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    m['checks'].append({'property': i, 'quick_cmd': 'VERIF_TIER=quick ./check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i, 'evidence_file': 'evidence/%s.json' % i,
        'technique': c.get('technique', 'deterministic simulation with fault injection: seeded search over histories, schedules and faults'), 'level': 'exploration', 'level_note': c['note']})
m['notes'] = 'Replay: ./check --replay out/<id>.replay.json. See DESIGN.md.'
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
