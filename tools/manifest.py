#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check for every property that has a module in mc/checks."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    path = os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        missing.append({'property': p['id'], 'reason': 'The check of this property has not been built yet.'})
        continue
    consts = {}
    tree = ast.parse(open(path).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    bounds = ' '.join(consts['BOUNDS']['quick'].split())
    note = f'Within the bounds every execution was run on the real code and compared with the reference. Bounds: {bounds}'
    if consts.get('ASSUMPTIONS'):
        note += ' Assumes: ' + '; '.join(consts['ASSUMPTIONS']) + '.'
    checks.append({
        'property': p['id'],
        'quick_cmd': f'./check {p["id"]} quick',
        'thorough_cmd': f'./check {p["id"]} thorough',
        'technique': consts.get('TECHNIQUE', 'stateless model checking of the implementation: exhaustive exploration of a '
                                'bounded choice tree (models, objects, modes) in lockstep with a reference model'),
        'level': 'model_checking',
        'level_note': note,
    })
json.dump({
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks in /repo: the checks use the public interface, patch only requests\' HTTP adapter from outside and '
             'schedule threads with sys.monitoring. Known findings and repaired defects: known_findings.txt.',
}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(missing), 'not claimed')
