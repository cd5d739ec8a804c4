"""Runs the check of one property: python -m mc.run ID [quick|thorough] | ID --replay FILE"""
import importlib
import json
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from . import explore as ex  # noqa: E402
from .lib import fast  # noqa: E402,F401


def known_findings(pid):
    """Keys of the listed findings of a property: {key: description}."""
    found = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                found[m.group(2)] = m.group(3)
    return found


def load(pid, tier):
    module = importlib.import_module('mc.checks.' + pid.lower())
    return module, [h for h in module.harnesses(tier) if tier in h.tiers]


def replay(pid, path):
    record = json.load(open(path))
    module, harnesses = load(pid, record.get('tier', 'quick'))
    if record['harness'] == 'load':
        print(f'property={pid}: the check can be set up now')
        return 0
    h = next(h for h in harnesses if h.name == record['harness'])
    if isinstance(h, ex.Search):
        v = ex.execute(lambda ch: h.run([h.ops[k] for k in record['path']]), {}, ex.Chooser(), h.timeout)
    else:
        ch = ex.Chooser(record['path'], (), h.budget)
        v = ex.execute(h.fn, h.params, ch, h.timeout)
        for label, option in ch.trace():
            print(f'  {label}: {option}')
    if v is None:
        print(f'property={pid} holds on this execution')
        return 0
    print(v.message)
    print(f'VIOLATION property={pid} replay={path}')
    return 1


def report(pid, v):
    v['property'] = pid
    path = os.path.join(VERIF, 'replays', f'{pid}-{ex.digest([v["harness"], v["path"]]):016x}.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(v, f, indent=1)
        f.write('\n')
    return path


def main(argv):
    pid = argv[0].upper()
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(pid, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    deadline = start + (600 if tier == 'quick' else 3 * 3600)
    deadline = min(deadline, start + float(os.environ.get('MC_DEADLINE', '1e9')))
    known = known_findings(pid)

    try:
        module, items = load(pid, tier)
    except Exception:
        # The checks work with the library when they are set up, too.
        message = traceback.format_exc()
        print(message)
        path = report(pid, {'harness': 'load', 'path': [], 'choices': [], 'message': message, 'key': 'load', 'tier': tier})
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if os.environ.get('MC_ONLY'):  # for development: only the harnesses whose names contain this
        items = [h for h in items if os.environ['MC_ONLY'] in h.name]
    results = {}
    choice = [h for h in items if isinstance(h, ex.Harness)]
    if choice:
        results.update(ex.explore(choice, deadline, tuple(known)))
    searches = [s for s in items if isinstance(s, ex.Search)]
    if searches:
        results.update(ex.bfs(searches, deadline, tuple(known)))

    total = ex.Stats()
    per = {}
    for name, stats in results.items():
        per[name] = {'executions': stats.executions, 'out_of_scope': stats.pruned, 'states': len(stats.states),
                     'transitions': stats.transitions, 'depth': stats.depth,
                     'outcomes': dict(sorted(stats.outcomes.items(), key=str)), 'completed': not stats.capped}
        total.merge(stats)
        total.samples = total.samples[:8]
    samples = total.samples or [{'harness': n} for n in per]

    fresh = [v for v in total.violations if v['key'] not in known]
    listed = {}
    for v in total.violations:
        if v['key'] in known:
            listed.setdefault(v['key'], v)

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(total.states), 'transitions': total.transitions,
            'traces_validated_against_impl': total.executions, 'samples': samples,
            'evaluations': total.executions,
            'exhaustive': not total.capped,
            'explanation': getattr(module, 'BOUNDS', {}).get(tier, '') if isinstance(getattr(module, 'BOUNDS', None), dict) else '',
            'harnesses': per,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - start, 3),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    print(f'{pid} {tier}: executions={total.executions} states={len(total.states)} transitions={total.transitions} '
          f'out-of-scope={total.pruned} completed={not total.capped} wall={evidence["wall_s"]}s')
    for name, p in per.items():
        print(f'  {name}: ' + ' '.join(f'{k}={v}' for k, v in p.items()))
    for key in known:
        if key in listed:
            print(f'KNOWN-FINDING: property={pid} {known[key]}')
    if not fresh:
        return 0
    fresh.sort(key=lambda v: (len(v['path']), v['harness'], v['path']))
    for v in fresh[:3]:
        v['tier'] = tier
        path = report(pid, v)
        print('--- ' + v['harness'])
        for label, option in v['choices']:
            print(f'    {label}: {option}')
        print('    ' + ex.short(v['message'], 3000).replace('\n', '\n    '))
        print(f'VIOLATION property={pid} replay={path}')
    return 1


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    finally:
        sys.stdout.flush()
    sys.exit(code)
