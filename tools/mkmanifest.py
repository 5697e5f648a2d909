#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'C27': 'The HDiffPatch sources (a git submodule) are not in the tree and nothing can be fetched, so the code under '
             'this property (detools/hdiffpatch.cpp) can neither be compiled nor executed: there are no executions to explore.'}
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [], 'not_applicable': []}
for p in props:
    c = checks.CHECKS.get(p['id'])
    if c is None:
        m['not_applicable'].append({'property': p['id'], 'reason': NA.get(p['id'], 'No check built yet.')})
        continue
    m['checks'].append({
        'property': p['id'],
        'quick_cmd': f'python3 run.py {p["id"]} --tier quick',
        'thorough_cmd': f'python3 run.py {p["id"]} --tier thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
