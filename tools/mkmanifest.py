#!/usr/bin/env python3
"""Regenerate MANIFEST.json from rules/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rules.registry import RULES, META
NA = {
 'C26': 'Run time as a function of database size is a quantity no sound static argument in reach bounds here.',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in ids:
    if p in RULES:
        m = META[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'technique': 'static analysis: ' + m['technique'], 'level': 'other', 'level_note': m['note']})
na = [{'property': p, 'reason': NA.get(p, 'No check built yet.')} for p in ids if p not in RULES]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Pure static analysis of /repo/src: no code of the repository is executed by any check.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
