"""Writes properties.jsonl and MANIFEST.json from tools/props_meta.py (run by hand after editing; output is committed)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props_meta import PROPS, NOT_APPLICABLE  # noqa

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'observe_at': p.get('observe', []), 'hook_needed': None}}
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    checks.append({'property': p['id'], 'quick_cmd': 'bash run.sh ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + p['id'],
                   'technique': 'property-based testing (Hypothesis): ' + p['tech'],
                   'level': 'exploration',
                   'level_note': p.get('note', 'Generated-input search, no proof of absence.') + ' Trusts numpy/scipy, '
                   'Hypothesis and the reference models in harness/.'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
     'notes': 'No hooks: everything is observed through the public Python API. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
