#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props_data.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props_data import PROPS, NA, TECH
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS + [n['prop'] for n in NA]:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[])
for p in PROPS:
    m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
                            thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                            technique=p.get('technique', TECH), level=p.get('level', 'proof'), level_note=p['note']))
for n in NA:
    m['not_applicable'].append(dict(property=n['prop']['id'], reason=n['reason']))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
