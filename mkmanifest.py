#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from what exists in contracts/."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
NOTE = {}
exec(open(os.path.join(H, 'levels.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    if not os.path.exists(os.path.join(H, 'contracts', i.lower() + '.py')):
        na.append(dict(property=i, reason='not claimed yet: contracts for it '
                                          'are still being written'))
        continue
    checks.append(dict(
        property=i, quick_cmd='python3-vt /verif/check.py %s --tier quick' % i,
        thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % i,
        technique='contract-based deductive verification of the real code '
                  '(pyvc: contracts and inductive loop summaries over ASTs '
                  'extracted from /repo on every run, obligations discharged '
                  'by z3 and cvc5)',
        level=LEVEL.get(i, 'proof'), level_note=NOTE.get(i, DEFAULT)))
d = dict(version=1, setup_cmd='python3-vt /verif/check.py --selfcheck',
         checks=checks, not_applicable=na)
json.dump(d, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
