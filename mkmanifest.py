#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (run by hand after adding a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pegcheck import checks, meta
props = [json.loads(l) for l in open('properties.jsonl')]
out = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.ALL:
        tech, level, note = meta.META[i]
        out['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                              'technique': tech, 'level': level, 'level_note': note})
    else:
        out['not_applicable'].append({'property': i, 'reason': meta.NA.get(i, 'no check built yet')})
json.dump(out, open('MANIFEST.json', 'w'), indent=1)
print(len(out['checks']), 'checks', len(out['not_applicable']), 'not applicable')
