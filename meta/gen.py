#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in meta/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE, HOOKS, NOTES
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        o = {k: p[k] for k in ('id', 'title', 'statement')}
        o['quantifier'] = {'over': p['over'], 'text': p['forall']}
        o['why_tests_cant'] = p['why']
        o['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
        if p.get('state'):
            o['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        o['anchors']['observe_at'] = p.get('observe', [])
        o['anchors']['hook_needed'] = None
        f.write(json.dumps(o) + '\n')
na = {p for p, _ in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': p['tech'], 'level': 'other', 'level_note': p['level']})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [{'property': a, 'reason': b} for a, b in NOT_APPLICABLE]}
if HOOKS: m['hooks'] = HOOKS
if NOTES: m['notes'] = NOTES
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks')
