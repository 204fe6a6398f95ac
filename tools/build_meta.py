"""Writes properties.jsonl and MANIFEST.json from the property table in meta.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from meta import PROPS, NA, TECH  # noqa

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in NA:
        na.append({'property': p['id'], 'reason': NA[p['id']]})
    elif os.path.exists(os.path.join(V, 'specs', 'spec_%s.py' % p['id'])):
        checks.append({'property': p['id'], 'quick_cmd': 'python3 /verif/check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % p['id'],
                       'technique': TECH, 'level': p.get('level', 'proof'), 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'contracts for this property are not written yet'})
m = {'version': 1, 'setup_cmd': 'python3 /verif/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the contracts live in /verif/specs and run against the unmodified source. See DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    print('schemas ok', len(checks), 'checks', len(na), 'n/a')
except ImportError:
    print('no jsonschema')
