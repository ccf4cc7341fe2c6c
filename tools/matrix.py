#!/usr/bin/env python3
"""Run every check on every planted bug (in scratch copies) and record which report it: tools/matrix.json."""
import json, os, subprocess, sys, tempfile, shutil
from multiprocessing import Pool
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    t = tempfile.mkdtemp(prefix='matrix.')
    try:
        subprocess.run('git clone -q /repo %s/r && git -C %s/r apply %s/seeded/%s/patch.diff' % (t, t, V, sid), shell=True, check=True)
        by, odd = [], []
        for c in json.load(open(V + '/MANIFEST.json'))['checks']:
            p = c['property']
            r = subprocess.run([sys.executable, V + '/check.py', p], capture_output=True, env=dict(os.environ, PYUCIS_REPO=t + '/r', VF_EVID=t + '/ev')).returncode
            if r == 1:
                by.append(p)
            elif r:
                odd.append(p)
        return sid, {'by': by, 'no_answer': odd}
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    ids = sorted(sys.argv[1:] or os.listdir(V + '/seeded'))
    try:
        m = json.load(open(V + '/tools/matrix.json')) if sys.argv[1:] else {}
    except OSError:
        m = {}
    with Pool(7) as P:
        for k, v in P.imap_unordered(one, ids):
            m[k] = v
            print(k, v, flush=True)
    json.dump(dict(sorted(m.items())), open(V + '/tools/matrix.json', 'w'), indent=0)
