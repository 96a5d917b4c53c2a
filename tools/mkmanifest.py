#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(H + '/checks.json')); P = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = json.load(open(H + '/tools/not_applicable.json')) if os.path.exists(H + '/tools/not_applicable.json') else {}
TECH = {'proof': 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run',
        'exploration': 'bounded stand-in for the contract: the functions of /repo run on enumerated and random inputs against an executable form of the contract (nothing proved)'}
checks = []
for p in P:
    i = p['id']
    if i not in C: continue
    c = C[i]
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'env VERIF_TIER=thorough python3 check.py {i}', evidence_file=f'evidence/{i}.json',
        technique=c.get('technique', TECH[c['level']]), level=c['level'], level_note=c.get('note', '')))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check yet')) for p in P if p['id'] not in C]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes='See DESIGN.md. known-findings.txt lists findings and repairs.'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
