#!/usr/bin/env python3
"""Write the planted changes of bugs.py to seeded/<id>/ and confirm them.

    mkbugs.py write [ID...]     patch.diff, demo.sh, demo.py and meta.json
    mkbugs.py confirm [ID...]   demos and the stable tests in scratch copies
    mkbugs.py detect [ID...]    the property's own check on a scratch copy

Not used by any check.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)
import bugs  # noqa: E402

DEMO_SH = '''#!/bin/bash
# exit 0 if the property's demonstration passes on the tree in the cwd
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def scratch():
    d = tempfile.mkdtemp(prefix='verif-bug-', dir='/tmp')
    tree = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', tree])
    # Bytecode remembers the path it was compiled from.
    for path, dirs, _ in os.walk(tree):
        if '__pycache__' in dirs:
            shutil.rmtree(os.path.join(path, '__pycache__'))
            dirs.remove('__pycache__')
    return d, tree


def apply(tree, bug):
    for fname, old, new in bug['edits']:
        path = os.path.join(tree, fname)
        with open(path) as f:
            text = f.read()
        count = text.count(old)
        if count != bug.get('count', 1):
            raise SystemExit('%s: %d matches for %r' % (bug['id'], count, old))
        with open(path, 'w') as f:
            f.write(text.replace(old, new))


def write(bug):
    d, tree = scratch()
    try:
        apply(tree, bug)
        diff = subprocess.check_output(['git', '-C', tree, 'diff'])
    finally:
        shutil.rmtree(d)
    out = os.path.join(SEEDED, bug['id'])
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, 'patch.diff'), 'wb') as f:
        f.write(diff)
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write(DEMO_SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    with open(os.path.join(out, 'demo.py'), 'w') as f:
        f.write(bug['demo'].lstrip('\n'))
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']}, f, indent=1)
        f.write('\n')
    return 'written'


def run_demo(tree, bug):
    return subprocess.run(
        ['bash', os.path.join(SEEDED, bug['id'], 'demo.sh')], cwd=tree,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)


def patched(tree, bug):
    subprocess.check_call(['git', '-C', tree, 'apply', '--whitespace=nowarn',
                           os.path.join(SEEDED, bug['id'], 'patch.diff')])


def confirm(bug):
    d, tree = scratch()
    try:
        clean = run_demo(tree, bug)
        patched(tree, bug)
        dirty = run_demo(tree, bug)
        if clean.returncode or not dirty.returncode:
            return 'BAD DEMO clean=%d dirty=%d\n%s' % (
                clean.returncode, dirty.returncode,
                clean.stdout.decode()[-1500:])
        env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
                   OMP_NUM_THREADS='1', LC_ALL='C.UTF-8')
        tests = subprocess.run(
            [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
             '--timeout=300', '--tb=line', '--benchmark-disable', '-m',
             'not verylong', '--basetemp=' + d + '/tmp', '--deselect',
             'mpnum/factory.py::mpnum.factory.random_mpa'],
            cwd=tree, env=env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)
        tail = tests.stdout.decode().strip().splitlines()[-3:]
        return ('ok ' if tests.returncode == 0 else 'TESTS FAIL ') + \
            ('' if tests.returncode == 0 else '\n'.join(tail)) + ' | demo: ' + \
            dirty.stdout.decode().strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d)


def detect(bug):
    d, tree = scratch()
    try:
        patched(tree, bug)
        env = dict(os.environ, VERIF_REPO=tree, VERIF_SEED='1',
                   VERIF_TIER='quick')
        r = subprocess.run([PY, os.path.join(VERIF, 'check.py'),
                            bug['property']], cwd=VERIF, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        lines = [l for l in r.stdout.decode().splitlines() if l.strip()]
        return 'rc=%d %s' % (r.returncode, ' || '.join(lines[-3:])[:500])
    finally:
        shutil.rmtree(d)


def main():
    what = sys.argv[1]
    ids = sys.argv[2:]
    todo = [b for b in bugs.BUGS if not ids or b['id'] in ids]
    jobs = {'write': 8, 'confirm': 7, 'detect': 1}[what]
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        for bug, res in zip(todo, pool.map(globals()[what], todo)):
            print(bug['id'], bug['property'], res, flush=True)


if __name__ == '__main__':
    main()
