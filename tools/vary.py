#!/usr/bin/env python3
"""Self-test of the checkers: apply small edits to a scratch copy of /repo/src and compare verdicts.

variants/<group>.py defines V = [(name, 'good'|'bad', 'C01 C02', [(file, old, new)...])].
good: no check may report; bad: at least one of the named checks must report.
usage: vary.py group [name]   (checks run: those named for bad; all ALL for good)
"""
import os, sys, shutil, subprocess, tempfile, importlib.util, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)


def run(v, allp, verbose):
    name, kind, props, edits = v
    d = tempfile.mkdtemp(prefix='vary.')
    try:
        shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__', '*.egg-info', '*.so'))
        for f, old, new in edits:
            p = d + '/' + f if f.startswith('src/') else d + '/src/ucis/' + f
            s = open(p).read()
            if s.count(old) < 1:
                return name, kind, 'EDIT-FAILED %s' % old[:50]
            s = s.replace(old, new)
            open(p, 'w').write(s)
            if p.endswith('.py'):
                compile(s, p, 'exec')
        out = {}
        plist = props.split() if props else []
        if kind == 'good':
            plist = allp
        for p in plist:
            r = subprocess.run([sys.executable, V + '/check.py', p], capture_output=True, text=True,
                               env=dict(os.environ, PYUCIS_REPO=d, VF_EVID=d + '/evidence'))
            out[p] = (r.returncode, r.stdout, r.stderr)
        if kind == 'good':
            bad = {p: o for p, o in out.items() if o[0] != 0}
            und = [p for p, o in out.items() if 'UNDECIDED' in o[1]]
            msg = 'ok' if not bad else 'FALSE-ALARM ' + ' '.join(bad)
            if und:
                msg += '  (undecided: %s)' % ' '.join(und)
            det = '\n'.join(o[1] + o[2][-500:] for p, o in out.items() if o[0] != 0 or 'UNDECIDED' in o[1])
        else:
            hit = [p for p, o in out.items() if o[0] == 1]
            msg = 'caught by ' + ' '.join(hit) if hit else 'MISSED'
            det = '\n'.join(o[1] + o[2][-500:] for o in out.values())
        if verbose:
            msg += '\n' + det
        return name, kind, msg
    finally:
        shutil.rmtree(d)


def main():
    group = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    sp = importlib.util.spec_from_file_location('v', HERE + '/variants/%s.py' % group)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    from rules.registry import RULES
    allp = getattr(m, 'PROPS', None) or sorted(RULES)
    vs = [v for v in m.V if not only or v[0] == only or (only in ('good', 'bad') and v[1] == only)]
    verbose = only is not None and only not in ('good', 'bad')
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda v: run(v, allp, verbose), vs):
            print('%-34s %-5s %s' % r)


main()
