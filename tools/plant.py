#!/usr/bin/env python3
"""Confirm planted bugs (seeded/ID) in scratch copies of /repo, and show which checks report them.

usage: plant.py [--checks C01,C02|own|all|none] ID...     (the patch of an ID is made from a spec by make() if it is given)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'd1c994e'


def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)


def scratch(name):
    path = tempfile.mkdtemp(prefix=f'plant-{name}-')
    sh(f'cp -a /repo {path}/repo')
    return path, path + '/repo'


def in_copy(script, repo, *args):
    """Run a script of /opt/vp on a copy."""
    text = open(f'/opt/vp/{script}').read().replace('/repo', repo)
    return subprocess.run(['bash', '-s', *args], input=text, text=True, capture_output=True, timeout=900)


def make(id, spec):
    """Write seeded/ID from a spec: property, edits [(file, old, new)], needs, what_it_breaks, demo (Python)."""
    path, repo = scratch(id)
    try:
        for file, old, new in spec['edits']:
            p = os.path.join(repo, file)
            text = open(p).read()
            assert text.count(old) == 1, (id, file, text.count(old), old)
            open(p, 'w').write(text.replace(old, new))
        diff = sh('git diff', repo).stdout
        assert diff
    finally:
        shutil.rmtree(path)
    to = os.path.join(ROOT, 'seeded', id)
    os.makedirs(to, exist_ok=True)
    open(to + '/patch.diff', 'w').write(diff)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(to + '/meta.json', 'w'), indent=1)
    open(to + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC PYTHONWARNINGS=ignore\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(to + '/demo.sh', 0o755)
    open(to + '/demo.py', 'w').write(spec['demo'].lstrip())


def mine(repo, diff):
    """Removed lines of the patch that are not of the original repository, and whether some are."""
    bad, good = [], 0
    file = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            file = line[6:]
            blame = [x.startswith('^' + BASE) for x in sh(f'git blame -s HEAD -- {file}', repo).stdout.splitlines()]
        m = re.match(r'@@ -(\d+)', line)
        if m:
            n = int(m.group(1))
        elif file and line[:1] in ' -' and not line.startswith('---'):
            if line[0] == '-':
                if blame[n - 1]:
                    good += 1
                else:
                    bad.append(line)
            n += 1
    return bad, good


def confirm(id):
    d = os.path.join(ROOT, 'seeded', id)
    path, repo = scratch(id)
    errors = []
    try:
        # The demonstration lies elsewhere.
        lies = path + '/elsewhere'
        shutil.copytree(d, lies, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r = sh(f'bash {lies}/demo.sh', repo, 300)
        if r.returncode:
            errors.append(f'demo fails without the patch: {r.stdout[-500:]}{r.stderr[-1500:]}')
        bad, good = mine(repo, open(d + '/patch.diff').read())
        if bad or not good:
            errors.append(f'changes lines of fix commits {bad} ({good} original)')
        r = sh(f'git apply {d}/patch.diff', repo)
        if r.returncode:
            return errors + ['does not apply: ' + r.stderr], None
        r = in_copy('build.sh', repo)
        if r.returncode:
            errors.append('does not build: ' + r.stderr[-1000:])
        in_copy('test.sh', repo, path + '/out.json')
        out = json.load(open(path + '/out.json'))
        want = json.load(open('/opt/vp/BASELINE.json'))
        passed = set(out.get('passed', []))
        missing = [x for x in want['stable'] if x not in passed]
        if missing:
            errors.append(f'tests fail: {missing[:5]}')
        r = sh(f'bash {lies}/demo.sh', repo, 300)
        if not r.returncode:
            errors.append('demo passes with the patch')
        return errors, (r.stdout + r.stderr).strip().splitlines()[-1:]
    finally:
        shutil.rmtree(path)


def detect(id, checks):
    path, repo = scratch(id)
    found = {}
    try:
        sh(f'git apply {ROOT}/seeded/{id}/patch.diff', repo)
        for c in checks:
            r = sh(f'./check {c} quick', ROOT, 1800, dict(os.environ, MC_REPO=repo))
            lines = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            found[c] = (r.returncode, len(lines), lines[0][:160] if lines else r.stderr[-300:])
    finally:
        shutil.rmtree(path)
    return found


if __name__ == '__main__':
    args = sys.argv[1:]
    which = 'own'
    if args and args[0] == '--checks':
        which = args[1]
        args = args[2:]
    for id in args or sorted(os.listdir(ROOT + '/seeded')):
        meta = json.load(open(f'{ROOT}/seeded/{id}/meta.json'))
        errors, last = confirm(id)
        print(id, 'OK' if not errors else 'BAD', errors, last, flush=True)
        if which != 'none' and not errors:
            checks = [meta['property']] if which == 'own' else which.split(',') if which != 'all' else [f'C{n:02d}' for n in range(1, 26)]
            for c, (code, n, line) in detect(id, checks).items():
                print('   ', c, {0: 'missed', 1: 'caught'}.get(code, f'exit {code}'), n, line, flush=True)
