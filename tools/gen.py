#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from sa/catalog.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.catalog import PROPS, NA
from sa.rules import TABLE

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
ids = {p['id'] for p in PROPS}
assert set(TABLE) <= ids, set(TABLE) - ids
assert set(NA) <= ids and not set(NA) & set(TABLE) and set(NA) | set(TABLE) == ids, ids - set(NA) - set(TABLE)
m = dict(version=1, setup_cmd='python3-vt -m compileall -q sa check.py',
         checks=[dict(property=p['id'], quick_cmd=f'./check.sh {p["id"]} quick', thorough_cmd=f'./check.sh {p["id"]} thorough',
                      technique=p['technique'], level='other', level_note=p['note']) for p in PROPS if p['id'] in TABLE],
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='Static analysis only: the repository source is interpreted abstractly from its syntax trees on every run; nothing of it is executed.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
