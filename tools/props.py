#!/usr/bin/env python3
"""Source of properties.jsonl (python literals are easier to edit)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))
exec(open(V + '/tools/props_body.py').read())
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
