#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
ids = set()
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert p['id'] not in ids, p['id']
        ids.add(p['id'])
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        d['quantifier'] = {'over': p['over'], 'text': p['for']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p.get('state'):
            d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps(d) + '\n')
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': './check.sh %s quick' % p['id'],
        'thorough_cmd': './check.sh %s thorough' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    } for p in PROPS],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
    'notes': 'Every check type-checks /repo, builds its SSA form and analyses it; nothing of nanomux is executed. See DESIGN.md.',
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(PROPS), 'claimed', len(NA), 'not applicable')
