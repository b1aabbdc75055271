#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) per property; run after editing."""
import json, os
OUT = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe), hook_needed=hook))
    OUT.append(d)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.inc.py')).read())
ids = [d['id'] for d in OUT]
assert len(ids) == len(set(ids))
with open('/verif/properties.jsonl', 'w') as f:
    for d in OUT:
        f.write(json.dumps(d) + '\n')
print(len(OUT), 'properties')
