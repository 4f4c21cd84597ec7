#!/usr/bin/env python3
"""Writes MANIFEST.json from src/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/src')
from checks import CHECKS, META
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        t = META.get(p, {})
        m['checks'].append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': t['technique'], 'level': t.get('level', 'exploration'), 'level_note': t['note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'no check has been built for it yet'})
m['notes'] = 'No hooks are needed in /repo: the library is header-only, and the harnesses reach everything through its headers.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
