#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
na = {n['property']: n for n in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    assert os.path.exists(os.path.join(root, 'checks', p['id'] + '.py')), p['id']
    assert len(p['title']) <= 80, p['id']
    checks.append(dict(property=p['id'], quick_cmd='./run.sh ' + p['id'],
                       thorough_cmd='VERIF_TIER=thorough ./run.sh ' + p['id'],
                       technique=p['technique'], level='model_checking', level_note=p['level_note']))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=NOT_APPLICABLE,
         notes='TLA+ specifications in specs/, checked by TLC; conformance drivers in checks/ and lib/. '
               'No hooks are needed: SUAVE is sequential and its public API exposes the abstract state.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties,', len(checks), 'checks')
