#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/meta.py."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import meta
lines, checks, na = [], [], []
for p in meta.PROPS:
  assert len(p['title']) <= 80, p['id']
  lines.append(json.dumps(dict(
      id=p['id'], title=p['title'], statement=p['statement'],
      quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
      why_tests_cant=p['why'],
      anchors=dict(files=p['files'],
                   mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                   observe_at=p.get('observe', []), hook_needed=None))))
  if p.get('na'):
    na.append(dict(property=p['id'], reason=p['na']))
    continue
  if not os.path.exists(os.path.join(ROOT, 'props', p['id'] + '.py')):
    na.append(dict(property=p['id'], reason='no check has been built yet'))
    continue
  checks.append(dict(
      property=p['id'], quick_cmd=f"./check.py {p['id']} --tier quick",
      thorough_cmd=f"./check.py {p['id']} --tier thorough",
      technique='symbolic execution of the jaxpr of the real code, decided by SMT (z3/cvc5) with replay',
      level='other',
      level_note=('SMT verdict over all real-valued inputs within the sizes and unrollings listed '
                  'per problem in the evidence; trusts the jaxpr semantics of the interpreter '
                  '(differentially validated on every run) and real arithmetic in place of floats. '
                  + p.get('note', ''))))
open(os.path.join(ROOT, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks: the checks trace the unmodified public functions.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(lines), 'properties', len(checks), 'checks', len(na), 'n/a')
