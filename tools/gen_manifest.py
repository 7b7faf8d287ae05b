#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and tools/claims.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
claims = json.load(open(V + '/tools/claims.json'))
TECH = ('contract-based deductive verification: contracts and harnesses over the real C++ functions, verification conditions '
        'generated from the clang IR of /repo/src by engine/, loops cut at inductive invariants, discharged by Z3')
checks, na = [], []
for p in props:
    i = p['id']
    c = claims['claimed'].get(i)
    if c:
        checks.append(dict(property=i, quick_cmd='python3-vt engine/check.py --property %s --tier quick' % i,
                           thorough_cmd='python3-vt engine/check.py --property %s --tier thorough' % i,
                           technique=TECH, level=c.get('level', 'proof'), level_note=c['note']))
    else:
        na.append(dict(property=i, reason=claims['not_applicable'][i]))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Known defects of the pinned tree, repaired in /repo: KNOWN_FINDINGS.txt. No hooks in /repo are needed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
