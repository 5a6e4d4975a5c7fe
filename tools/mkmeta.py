"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json-like tables.  Run: python3 tools/mkmeta.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

TOP = os.path.dirname(HERE)
with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
    for p in PROPS + [n['prop'] for n in NOT_APPLICABLE]:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': sorted({w.split(':')[0] for _, w in p['where']}),
                        'mechanism': [{'name': n, 'where': w} for n, w in p['where']]}}) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'hooks': {'guard': 'none: no hook was needed in /repo', 'enable': 'nothing to enable; the checks drive the public functions and command lines of the unmodified code', 'source_commits': []},
    'checks': [{
        'property': p['id'],
        'quick_cmd': f"bash run.sh {p['id']} --tier quick",
        'thorough_cmd': f"bash run.sh {p['id']} --tier thorough",
        'technique': p['technique'],
        'level': p.get('level', 'exploration'),
        'level_note': p['note'],
    } for p in PROPS],
    'not_applicable': [{'property': n['prop']['id'], 'reason': n['reason']} for n in NOT_APPLICABLE],
}
with open(os.path.join(TOP, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
