#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

RUN = '/opt/venv/bin/python -B run.py %s --tier %s'
TECH = ('solver-based: symbolic execution of the real Python functions over '
        'exact rationals, path regions and assertions decided by z3')
NOTE = ('Every value within the stated bounds is decided by the solver, '
        'path by path; trusts z3, the symbolic rational arithmetic in '
        'symq/ (cross-checked by concrete runs of every path sample) and '
        'the stubs named in DESIGN.md. ')

out, checks = [], []
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
    anchors = {'files': p['files'],
               'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
               'observe_at': p.get('observe', []), 'hook_needed': None}
    out.append({'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p.get('over', ['inputs']),
                               'text': p['quant']},
                'why_tests_cant': p['why'], 'anchors': anchors})
    if p['id'] in NOT_APPLICABLE:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': RUN % (p['id'], 'quick'),
        'thorough_cmd': RUN % (p['id'], 'thorough'),
        'technique': TECH,
        'level': 'model_checking',
        'level_note': NOTE + p.get('note', '')})

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1,
               'setup_cmd': '/opt/venv/bin/python -B tools/setup.py',
               'checks': checks,
               'not_applicable': [{'property': k, 'reason': v}
                                  for k, v in NOT_APPLICABLE.items()],
               'notes': NOTES}, f, indent=1)
    f.write('\n')
print(len(out), 'properties,', len(checks), 'checks')
