"""Regenerates MANIFEST.json and properties.jsonl from props/*.py (run by hand)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
import registry

TECH = ('contract-based deductive verification: contracts on the real Python functions; '
        'obligations generated from the current source by the VC generator in pyvc/ and discharged by z3/cvc5; '
        'refuted obligations replayed on the real code')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
  for p in props.PROPERTIES:
    f.write(json.dumps(p['prop']) + '\n')
checks, na = [], []
for p in props.PROPERTIES:
  i = p['prop']['id']
  if p.get('na'):
    na.append({'property': i, 'reason': p['na']})
    continue
  assert i in registry.AREAS, i
  checks.append({
      'property': i,
      'quick_cmd': f'python3-vt check.py {i} --tier quick',
      'thorough_cmd': f'python3-vt check.py {i} --tier thorough',
      'technique': p.get('technique', TECH),
      'level': p.get('level', 'proof'),
      'level_note': p['level_note'],
  })
m = {'version': 1,
     'setup_cmd': 'python3-vt selftest.py',
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
for n, d in (('PROPERTIES', None), ('MANIFEST', m)):
  pass
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props.PROPERTIES:
  jsonschema.validate(p['prop'], ps)
  s = p['prop']['statement']
  assert len(p['prop']['title']) <= 80, p['prop']['title']
print(len(checks), 'checks', len(na), 'n/a')
