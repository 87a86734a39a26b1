#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from tools/props.py; a property is claimed when it has specs/<id>/spec.py."""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
sys.dont_write_bytecode = True
from props import PROPS, NA, HOOKS, NOTES

ids = set()
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert p['id'] not in ids and len(p['title']) <= 80, p['id']
        ids.add(p['id'])
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(H, 'specs', i, 'spec.py')):
        ns = {}
        exec(open(os.path.join(H, 'specs', i, 'spec.py')).read(), ns)
        s = ns['SPEC']
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': p.get('technique', 'contracts on the real code, obligations from clang IR discharged by SMT (irvc)'),
                       'level': s.get('level', 'proof'), 'level_note': p['level_note']})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na, 'notes': NOTES}
if HOOKS:
    m['hooks'] = HOOKS
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'claimed', len(na), 'not')
