#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (development aid)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                              'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                              'observe_at': list(observe), 'hook_needed': None}})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': 'python3 check.py %s quick' % id, 'thorough_cmd': 'python3 check.py %s thorough' % id,
                       'technique': technique, 'level': 'other', 'level_note': note})


exec(open(os.path.join(V, 'dev', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': CHECKS, 'not_applicable': NA}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties,', len(CHECKS), 'checks,', len(NA), 'not applicable')
