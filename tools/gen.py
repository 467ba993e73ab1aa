#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from props import P
P.sort(key=lambda x: x['id'])
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        d = {'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']},
             'why_tests_cant': x['why'], 'anchors': {'files': x['files'], 'mechanism': [{'name': q, 'where': ', '.join(x['files'])} for q in x['mech']]}}
        if x['observe']:
            d['anchors']['observe_at'] = x['observe']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for x in P:
    if x['na']:
        man['not_applicable'].append({'property': x['id'], 'reason': x['na']})
        continue
    c = {'property': x['id'], 'quick_cmd': f'python3 check.py {x["id"]}', 'technique': x['technique'], 'level': 'other', 'level_note': x['note']}
    if x['thorough']:
        c['thorough_cmd'] = f'python3 check.py {x["id"]} thorough'
    man['checks'].append(c)
json.dump(man, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'checks', len(man['not_applicable']), 'n/a')
