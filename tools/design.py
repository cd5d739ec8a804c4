#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, the check modules, this table and the planted bugs."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('stateless model checking: all small models x all their small objects on the real code, in lockstep with a '
        'reference model')

# id: (what is specified and the oracle, what it reaches, quick seconds)
D = {}


def d(id, oracle, reach, cost):
    D[id] = (' '.join(oracle.split()), ' '.join(reach.split()), cost)


exec(open(os.path.join(ROOT, 'tools', 'design_table.py')).read())

props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read(), '\n## Properties\n']
for p in props:
    consts = {}
    for node in ast.parse(open(os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py')).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    oracle, reach, cost = D[p['id']]
    out.append(f"\n### {p['id']} {p['title']}\n\n")
    out.append(f"* Method: {' '.join(consts.get('TECHNIQUE', TECH).split())}.\n")
    out.append(f'* Oracle: {oracle}\n')
    out.append(f"* Bounds, quick: {' '.join(consts['BOUNDS']['quick'].split())}\n")
    out.append(f"* Bounds, thorough: {' '.join(consts['BOUNDS']['thorough'].split())}\n")
    out.append(f"* Assumes: {'; '.join(consts.get('ASSUMPTIONS', [])) or 'nothing further'}.\n")
    out.append(f'* Reaches beyond tests: {reach}\n')
    out.append(f'* Cost: about {cost} on 8 cores (quick).\n')
out.append('\n')
out.append(open(os.path.join(ROOT, 'tools', 'design_tail.md')).read())
out.append('\n## Planted bugs\n\n' + open(os.path.join(ROOT, 'tools', 'design_seeded.md')).read() + '\n')
out.append('| planted bug | needs | caught by |\n|---|---|---|\n')
caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
for path in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(path))
    name = os.path.basename(os.path.dirname(path))
    out.append(f"| {name} | {' '.join(m['needs'].split())} | {caught.get(name, 'not run')} |\n")
out.append('\n## Not applicable\n\nNo property is outside the technique: every one is decided by bounded exhaustive '
           'exploration. What each bound leaves out is stated with the property.\n')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))
