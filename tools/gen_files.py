'''Write properties.jsonl and MANIFEST.json from vt/registry.py.'''
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vt import registry

CLAIMED = set()
for p in registry.P:
    if all(os.path.exists(os.path.join(here, 'vt', 'checks', m + '.py')) for m in p['modules']):
        CLAIMED.add(p['id'])

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in registry.P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        anchors = {'files': p['files'],
                   'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']]}
        if p['state']:
            anchors['state'] = p['state']
        if p['observe']:
            anchors['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')

man = {'version': 1,
       'setup_cmd': './setup.sh',
       'checks': [{'property': p['id'],
                   'quick_cmd': f"./check.sh {p['id']} --tier quick",
                   'thorough_cmd': f"./check.sh {p['id']} --tier thorough",
                   'evidence_file': f"evidence/{p['id']}.json",
                   'technique': p['technique'],
                   'level': 'exploration',
                   'level_note': p['note']} for p in registry.P if p['id'] in CLAIMED],
       'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'}
                          for p in registry.P if p['id'] not in CLAIMED],
       'notes': 'All checks are Hypothesis property tests driven by vt/run.py; no hooks in /repo.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
print(len(CLAIMED), 'claimed')
