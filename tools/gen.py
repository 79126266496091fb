#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
m = {'version': 1, 'setup_cmd': 'bash run.sh build', 'checks': [], 'not_applicable': []}
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    if 'na' in p:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        continue
    m['checks'].append({
        'property': p['id'],
        'quick_cmd': 'bash run.sh %s quick' % p['id'],
        'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['tech'], 'level': p['level'], 'level_note': p['note'],
    })
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
