#!/usr/bin/env python3
"""Plants bugs: plant.py SPEC.py... makes /verif/seeded/<id>/ from a specification and keeps it only when it builds, passes the 109 stable tests and is told apart by its demonstration.
   plant.py --verify ID... repeats that for bugs already kept; plant.py --catch ID... runs the quick check of the property against each.
A specification defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO (a Python program, exit 0 when the property holds)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
SEEDED = '/verif/seeded'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')


def run(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def build(d):
    subprocess.run(['bash', '-c', 'rm -rf build/vp-lib build/vp-temp traceon/backend/traceon_backend*.so'], cwd=d)
    r = run([PY, 'setup.py', 'build_ext', '--force', '--build-lib', 'build/vp-lib', '--build-temp', 'build/vp-temp'], d)
    if r.returncode:
        return False, r.stderr[-800:]
    shutil.copy(f'{d}/build/vp-lib/traceon/backend/traceon_backend.abi3.so', f'{d}/traceon/backend/traceon_backend.so')
    return True, ''


def tests(d):
    env = dict(ENV, TRACEON_THREADS='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MALLOC_MMAP_THRESHOLD_='65536', PYTHONPATH=f'{d}:/opt/vp/pytest_plugins')
    r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed', '-o', 'python_files=test_*.py *_test.py *_tests.py', '--timeout=300', 'tests'], d, env)
    return r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:], ' failed' not in r.stdout and '109 passed' in r.stdout, r.stdout


def demo(folder, d):
    t = tempfile.mkdtemp(prefix='demo')
    for f in os.listdir(folder):
        if not f.endswith(('.diff', '.patch', 'meta.json')):
            shutil.copy(f'{folder}/{f}', t)
    r = run(['bash', f'{t}/demo.sh'], d, timeout=300)
    shutil.rmtree(t)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]


def copy_repo():
    d = tempfile.mkdtemp(prefix='plant')
    subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    return d


def verify(folder, clean):
    bad = []
    d = copy_repo()
    try:
        r = run(['git', 'apply', f'{folder}/patch.diff'], d)
        if r.returncode:
            return ['does not apply: ' + r.stderr]
        ok, msg = build(d)
        if not ok:
            return ['does not build ' + msg]
        code, out = demo(folder, clean)
        if code != 0:
            bad.append(f'demo fails on the unchanged tree: {code} {out}')
        code, out = demo(folder, d)
        print('   demo on the change:', code, out.splitlines()[-1:] if out else '')
        if code == 0:
            bad.append('demo passes with the change')
        if not bad:
            line, ok, full = tests(d)
            if not ok:
                bad.append('tests: ' + line + ' ' + ' '.join(re.findall(r'FAILED \S+', full)[:4]))
    finally:
        shutil.rmtree(d)
    return bad


def catch(ids):
    for i in ids:
        folder = f'{SEEDED}/{i}'
        prop = json.load(open(f'{folder}/meta.json'))['property']
        d = copy_repo()
        try:
            r = run(['git', 'apply', f'{folder}/patch.diff'], d)
            if r.returncode:
                print(i, 'DOES NOT APPLY')
                continue
            r = run([sys.executable, '/verif/mon/check.py', prop, '--tier', 'quick', '--seed', '1'], '/verif', dict(ENV, TRACEON_REPO=d))
            first = re.search(r'^  ([a-z0-9-]+: .{0,140})', r.stdout, re.M)
            print(f'{i:28s} {prop} rc={r.returncode} {"CAUGHT" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else "MISSED"} {first[1] if first else ""}', flush=True)
        finally:
            shutil.rmtree(d)


def make(spec):
    ns = dict(EDITS=[])
    exec(open(spec).read(), ns)
    d = copy_repo()
    try:
        for file, old, new in ns['EDITS']:
            s = open(f'{d}/{file}').read()
            if s.count(old) != 1:
                print(ns['ID'], f'{file}: {s.count(old)} places for {old!r}')
                return None
            open(f'{d}/{file}', 'w').write(s.replace(old, new))
        diff = run(['git', 'diff', '-U3', '--', 'traceon'], d).stdout
        # The lines changed have to be those of the original repository
        own, file = [], None
        for line in run(['git', 'diff', '-U0', '--', 'traceon'], d).stdout.splitlines():
            if line.startswith('--- a/'):
                file = line[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
            if m and m[2] != '0':
                n = int(m[2] or 1)
                blame = run(['git', 'blame', '-s', '-L', f'{m[1]},+{n}', 'HEAD', '--', file], d).stdout
                own += [b for b in blame.splitlines() if not b.startswith('^')]
        if own or '\n-' not in diff:
            print(ns['ID'], 'changes lines that are not original:', own)
            return None
    finally:
        shutil.rmtree(d)
    folder = f'{SEEDED}/{ns["ID"]}'
    os.makedirs(folder, exist_ok=True)
    open(f'{folder}/patch.diff', 'w').write(diff)
    open(f'{folder}/demo.py', 'w').write(ns['DEMO'].lstrip())
    open(f'{folder}/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds; run in the repository after it was built\n'
                                         'cd "${PWD}" && exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TRACEON_LOG_LEVEL=silent /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(f'{folder}/meta.json', 'w'), indent=1)
    return ns['ID']


if __name__ == '__main__':
    args = sys.argv[1:]
    if args[0] == '--catch':
        catch(args[1:] or sorted(os.listdir(SEEDED)))
        sys.exit()
    keep = args[0] != '--verify'
    ids = [make(s) for s in args] if keep else (args[1:] or sorted(os.listdir(SEEDED)))
    clean = copy_repo()
    try:
        print(build(clean))
        for i in ids:
            if i is None:
                continue
            bad = verify(f'{SEEDED}/{i}', clean)
            print(i, 'OK' if not bad else bad, flush=True)
            if bad and keep:
                shutil.rmtree(f'{SEEDED}/{i}')
    finally:
        shutil.rmtree(clean)
