"""Writes MANIFEST.json from properties.jsonl and the harness modules present."""
import ast
import json
import os

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(x) for x in open('properties.jsonl')]
TECH = ('explicit-state model checking on the real code: exhaustive bounded enumeration of operation sequences / '
        'inputs, every reached state compared with an independent reference model')
checks, na = [], []
for p in props:
    f = 'mc/checks/%s.py' % p['id'].lower()
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='no check built yet'))
        continue
    vals = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS', 'TECHNIQUE'):
            vals[node.targets[0].id] = ast.literal_eval(node.value)
    b = vals['BOUNDS']
    checks.append(dict(
        property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
        technique=vals.get('TECHNIQUE', TECH), level='model_checking',
        level_note='Holds for every case within the bounds. Quick: %s. Thorough: %s. Assumes: %s.'
                   % (b['quick'], b['thorough'], '; '.join(vals.get('ASSUMPTIONS', [])))))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, sympy, tinyarray"',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the harnesses drive the public API in-process. '
               'known_findings.txt lists repaired and recorded defects.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
