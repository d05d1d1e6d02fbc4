"""Writes properties.jsonl and MANIFEST.json from one table (tools/table.py).

Run by hand after editing the table; no check runs it.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import table  # pylint: disable=g-import-not-at-top

VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python -B check.py'

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
  for p in table.PROPS:
    assert len(p['title']) <= 80, p['title']
    f.write(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['quant']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None},
    }) + '\n')

checks, na = [], []
for p in table.PROPS:
  if 'na' in p:
    na.append({'property': p['id'], 'reason': p['na']})
  elif p.get('check', True):
    checks.append({
        'property': p['id'],
        'quick_cmd': f'{PY} {p["id"]} --tier quick',
        'thorough_cmd': f'{PY} {p["id"]} --tier thorough',
        'technique': 'deterministic simulation with fault injection: '
                     + p['technique'],
        'level': 'exploration', 'level_note': p['note'],
    })
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python -B check.py --selftest',
           'checks': checks, 'not_applicable': na,
           'notes': table.NOTES},
          open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
