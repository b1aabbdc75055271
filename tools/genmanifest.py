#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the packages in harness/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
p = V + '/tools/not_applicable.json'
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for x in props:
    pid = x['id']
    d = V + '/harness/' + pid.lower()
    if not os.path.exists(d) or pid in NA:
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
        continue
    o = {}
    if os.path.exists(d + '/check.json'):
        o = json.load(open(d + '/check.json'))
    checks.append(dict(property=pid, quick_cmd='python3 run.py ' + pid,
                       thorough_cmd='VERIF_TIER=thorough python3 run.py ' + pid,
                       technique=o.get('technique', 'property-based testing: generated inputs and histories (rapid, shrinking) against an explicit oracle'),
                       level=o.get('level', 'exploration'),
                       level_note=o.get('level_note', 'Random structured search with a fixed seed: no counterexample among the generated cases counted in the evidence; not a proof.')))
m = dict(version=1, setup_cmd='python3 run.py --build', checks=checks,
         hooks=dict(guard='verif', enable='none needed: the checks use the exported API only; no hook commits were made', source_commits=[]),
         not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
