#!/usr/bin/env python3
"""writes MANIFEST.json; CLAIMED says what is claimed"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
CLAIMED = {}
exec(open(ROOT + '/tools/claims.py').read())
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        tech, level, note = CLAIMED[i]
        m['checks'].append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': level, 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT.get(i, 'no check yet (work in progress)')})
m['notes'] = 'No hooks: the harness interposes system calls and pthread primitives at link time, /repo is built unmodified.'
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
