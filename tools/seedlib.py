#!/usr/bin/env python3
"""Planted bugs: build /verif/seeded/<id> from a spec and confirm it.

seedlib.py specs.py [id...]   specs.py: S = [(id, property, needs, breaks, [(file, old, new)], demo_python)]
Confirms in a scratch copy: demo passes clean, fails patched; then (in /repo, undone afterwards) the stable tests pass;
then runs every registered check against a patched copy and prints which report it."""
import os, sys, shutil, subprocess, tempfile, json, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PY = '/opt/venv/bin/python'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def build(sp):
    sid, prop, needs, breaks, edits, demo = sp
    d = V + '/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed.')
    try:
        sh('git -C /repo worktree prune; git clone -q /repo %s/r' % t)
        r = t + '/r'
        for f, old, new in edits:
            p = r + '/' + f if f.startswith('src/') else r + '/src/ucis/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return 'EDIT matches %d times: %s' % (s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % r).stdout
        base = sh('git -C %s rev-list --max-parents=0 HEAD' % r).stdout.split()[0]
        orig = 0
        for f in sh('git -C %s diff --name-only' % r).stdout.split():
            bl = sh('git -C %s blame -s HEAD -- %s' % (r, f)).stdout.splitlines()
            for h in sh('git -C %s diff -U0 -- %s' % (r, f)).stdout.splitlines():
                if h.startswith('@@'):
                    a = h.split()[1][1:].split(',')
                    n0, k = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    orig += sum(1 for x in bl[n0 - 1:n0 - 1 + k] if x.startswith('^') or base.startswith(x.split()[0].lstrip('^')))
        if not orig:
            return 'NO ORIGINAL LINE CHANGED'
        open(d + '/patch.diff', 'w').write(diff)
        if demo:
            open(d + '/demo.py', 'w').write(demo)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository. Exit 0 if the property holds for the scenario in demo.py.\n'
                                        'D=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
                                        'export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 DEMO_TMP="$T"\n'
                                        '/opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        return verify(sid, prop)
    finally:
        shutil.rmtree(t)


def verify(sid, prop):
    d = V + '/seeded/' + sid
    t = tempfile.mkdtemp(prefix='seed.')
    out = []
    try:
        r = t + '/r'
        sh('cp -a /repo %s' % r)
        sh('cp -a %s %s/seed' % (d, t))
        c = sh('bash %s/seed/demo.sh' % t, cwd=r, timeout=300)
        if c.returncode != 0:
            return 'DEMO FAILS CLEAN: ' + (c.stdout + c.stderr)[-600:]
        a = sh('git apply %s/patch.diff' % d, cwd=r)
        if a.returncode:
            return 'PATCH FAILS ' + a.stderr
        c = sh('bash %s/seed/demo.sh' % t, cwd=r, timeout=300)
        if c.returncode == 0:
            return 'DEMO PASSES PATCHED'
        why = (c.stdout + c.stderr).strip().splitlines()[-1:]
        # stable tests
        base = json.load(open('/opt/vp/BASELINE.json'))
        tc = sh('PYTHONPATH=%s/src PYTHONDONTWRITEBYTECODE=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 %s -m pytest -q -p no:cacheprovider --rootdir=%s '
                '--continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/j.xml' % (r, PY, r, t), cwd=r + '/ve/unit')
        sh('%s /opt/vp/results.py %s/o.json junit:%s/j.xml' % (PY, t, t))
        o = json.load(open(t + '/o.json'))
        passed = set(o.get('passed', []))
        stable = set(base.get('passed', base.get('stable', [])))
        bad = stable - passed
        if bad:
            return 'TESTS FAIL %s' % sorted(bad)[:3]
        from rules.registry import RULES
        hit, odd = [], []
        for p in sorted(RULES):
            x = subprocess.run([sys.executable, V + '/check.py', p], capture_output=True, text=True,
                               env=dict(os.environ, PYUCIS_REPO=r, VF_EVID=t + '/ev'))
            if x.returncode == 1:
                hit.append(p)
            elif x.returncode != 0:
                odd.append('%s=%d' % (p, x.returncode))
        return '%s  caught by %s %s   [%s] (%d stable tests)' % ('OK' if prop in hit else 'MISSED', ' '.join(hit), ' '.join(odd), why[0][:100] if why else '', len(stable))
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    if sys.argv[1] == '--verify':
        from concurrent.futures import ThreadPoolExecutor
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        def go(i):
            return i, verify(i, json.load(open(V + '/seeded/%s/meta.json' % i))['property'])
        with ThreadPoolExecutor(6) as ex:
            for i, r in ex.map(go, ids):
                print('%-28s %s' % (i, r))
    else:
        sp = importlib.util.spec_from_file_location('s', sys.argv[1])
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.S:
            if len(sys.argv) == 2 or s[0] in sys.argv[2:]:
                print('%-28s %s' % (s[0], build(s)))
