#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/hookeai/'


def line(p):
    return dict(
        id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['text']),
        why_tests_cant=p['why'],
        anchors=dict(files=[SRC + f for f in p['files']],
                     mechanism=[dict(name=n, where=SRC + w) for n, w in p['mech']],
                     state=[dict(name=a, meaning=b, where=SRC + c) for a, b, c in p.get('state', [])],
                     observe_at=p.get('observe', []), hook_needed=None))


with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(line(p)) + '\n')
man = dict(version=1, setup_cmd='python3 -m compileall -q hstat',
           checks=[dict(property=p['id'], quick_cmd=f"python3 -m hstat {p['id']} --tier quick",
                        thorough_cmd=f"python3 -m hstat {p['id']} --tier thorough",
                        technique=p['technique'], level='other', level_note=p['note']) for p in PROPS],
           not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NOT_APPLICABLE],
           notes='Static analysis only: the checks read /repo/src/hookeai as text on every run and never import or run it. '
                 'No hooks in /repo are needed.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
