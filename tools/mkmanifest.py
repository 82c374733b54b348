#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in jobs.PROPS:
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
                       'technique': 'TLA+ specification (%s) checked by TLC; behaviours TLC generates are replayed into the library under AddressSanitizer and compared after every step' % jobs.PROPS[i].get('spec', 'Store'),
                       'level': 'model_checking',
                       'level_note': jobs.PROPS[i].get('note', 'Exhaustive over a small alphabet to a bounded depth, random over a large one; the code is covered as far as the programs generated.')})
    else:
        na.append({'property': i, 'reason': jobs.NOT_APPLICABLE.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the replayer uses the public API only. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
