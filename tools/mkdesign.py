#!/usr/bin/env python3
"""Regenerate DESIGN.md from rules/registry.py, properties.jsonl, KNOWN_FINDINGS.txt, the evidence of the last run and
tools/matrix.json (which check catches which planted bug; tools/matrix.py)."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rules.registry import RULES, META
from tools.design_text import HEAD, HOW, TAIL
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
try:
    matrix = json.load(open(V + '/tools/matrix.json'))
except OSError:
    matrix = {}
out = [HEAD]
for p in props:
    i = p['id']
    out.append('### %s. %s\n' % (i, p['title']))
    if i not in RULES:
        out.append(HOW[i] + '\n')
        continue
    m = META[i]
    out.append('*Method.* %s (`rules/%s`). %s\n' % (m['technique'][0].upper() + m['technique'][1:], ', '.join(sorted({f.__module__.split('.')[-1] + '.py' for f in RULES[i]})), HOW.get(i, m['explanation'])))
    try:
        ev = json.load(open(V + '/evidence/%s.json' % i))
        rs = ev['coverage']['rules']
        out.append('*Rules* (obligations on the current tree):')
        for k, v in rs.items():
            n = sum(v.get(x, 0) for x in ('ok', 'violation', 'undecided'))
            out.append('- `%s`: %s%s' % (k, v['text'], ' (%d)' % n if n else ''))
        out.append('')
    except (OSError, KeyError):
        pass
    out.append('*Bounds.* %s\n' % m['note'])
    out.append('*Assumes.* ' + '; '.join(m['assumptions']) + '.\n')
    s = [k for k, v in sorted(matrix.items()) if i in v['by']]
    if s:
        out.append('*Planted bugs it reports.* ' + ', '.join('`%s`' % x for x in s) + '.\n')
out.append(TAIL)
out.append('## Planted bugs\n')
out.append('Each is a patch under `seeded/` with a demonstration that passes on the unchanged tree and fails with the patch; the stable tests pass with it. '
           'Own = the check of the property it was written for; every check was run on every patch (`tools/matrix.py`).\n')
out.append('| planted bug | needs | reported by |')
out.append('|---|---|---|')
for k, v in sorted(matrix.items()):
    d = json.load(open(V + '/seeded/%s/meta.json' % k))
    by = ', '.join(('**%s**' % x) if x == d['property'] else x for x in v['by']) or 'none'
    out.append('| `%s` | %s | %s |' % (k, d['needs'].replace('|', '/'), by))
out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
