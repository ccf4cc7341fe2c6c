#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current source."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from rules.base import Ctx, AnchorError, program, REPO       # noqa
from rules.registry import RULES, META                       # noqa
from vflow.engine import Abort                               # noqa

KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
EVID = os.environ.get('VF_EVID', os.path.join(HERE, 'evidence'))


def known(pid):
    """Lines `known: property=<id> key=<rule>|<construct> -- text`."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                k, _, txt = l.split(' key=', 1)[1].partition(' -- ')
                out[k.strip()] = txt.strip()
    return out


def expired(*a):
    raise Abort('time budget of the analysis used up')


def main(pid):
    signal.signal(signal.SIGALRM, expired)
    t0 = time.time()
    ctx = Ctx(pid)
    err = None
    try:
        prog = program()
        if len(prog.modules) < 100:
            raise AnchorError('only %d modules found under %s/src' % (len(prog.modules), REPO))
        for fn in RULES[pid]:
            try:
                signal.setitimer(signal.ITIMER_REAL, 240, 2)
                fn(ctx, prog)
            except Abort as e:
                if 'not found' in str(e):
                    err = err or str(e)
                    continue
                ctx.und('analysis', fn.__module__ + '.' + fn.__name__, str(e))
            except AnchorError as e:
                err = err or str(e)
            except Exception as e:     # a construct the analysis is not built for: no verdict on this part
                if os.environ.get('VF_DEBUG'):
                    traceback.print_exc()
                ctx.und('analysis', fn.__module__ + '.' + fn.__name__, '%s: %s' % (type(e).__name__, e))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except AnchorError as e:
        err = str(e)
    obs = []
    seen = set()
    for o in ctx.obs:
        k = (o[0], o[1], o[2], o[3])
        if o[0] == 'ok' or k not in seen:
            seen.add(k)
            obs.append(o)
    kn = known(pid)
    viol, findings = [], []
    for o in obs:
        if o[0] != 'violation':
            continue
        key = '%s|%s' % (o[1], o[2])
        if key in kn:
            findings.append((key, o, kn[key]))
        else:
            viol.append(o)
    okc = sum(1 for o in obs if o[0] == 'ok')
    und = [o for o in obs if o[0] == 'undecided']
    if not err and not viol and okc == 0:
        err = 'no obligation could be decided'
    meta = META.get(pid, {})
    byrule = {}
    for o in obs:
        d = byrule.setdefault(o[1], {'ok': 0, 'violation': 0, 'undecided': 0})
        d[o[0]] += 1
    ev = {
        'property': pid,
        'tier': 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': meta.get('explanation', '') + ' Every obligation below is one instance of one rule, decided from the '
                           'source of the current tree by abstract evaluation (no code of the repository is run).',
            'modules_parsed': len(program().modules) if not err else 0,
            'functions_analysed': len(ctx.functions),
            'call_and_update_sites_analysed': ctx.sites,
            'abstract_steps': ctx.steps,
            'obligations': len(obs),
            'discharged': okc,
            'undecided': len(und),
            'known_findings': len(findings),
            'rules': {r: dict(byrule.get(r, {}), text=t) for r, t in ctx.rules.items()},
            'samples': [{'rule': o[1], 'construct': o[2], 'verdict': o[0], 'detail': o[3], 'where': o[4]} for o in pick(obs)],
            'functions': sorted(ctx.functions),
            'undecided_list': [{'rule': o[1], 'construct': o[2], 'why': o[3], 'where': o[4]} for o in und][:50],
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    if err and viol:                   # what was found stands, whatever could not be analysed
        ev['coverage']['error'] = err
        print('INCOMPLETE property=%s %s' % (pid, err))
        err = None
    if err:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, err))
        ev['coverage']['error'] = err
        write(pid, ev)
        return 2
    for key, o, txt in findings:
        print('KNOWN-FINDING: property=%s %s (%s) %s' % (pid, key, o[4], txt))
    for o in und:
        print('UNDECIDED property=%s rule=%s %s: %s %s' % (pid, o[1], o[2], o[3], o[4]))
    print('%s: %d obligations, %d discharged, %d undecided, %d violations; %d functions, %d sites, %.2f s' % (
        pid, len(obs), okc, len(und), len(viol), len(ctx.functions), ctx.sites, ev['wall_s']))
    write(pid, ev)
    if viol:
        rp = os.path.join('evidence', pid + '.violations.json')
        with open(os.path.join(EVID, pid + '.violations.json'), 'w') as f:
            json.dump([{'rule': o[1], 'rule_text': ctx.rules.get(o[1], ''), 'construct': o[2], 'message': o[3], 'where': o[4]} for o in viol], f, indent=1)
        for o in viol:
            print('  %s: %s: %s: %s' % (o[4], o[1], o[2], o[3]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def pick(obs):
    out, seen = [], {}
    for o in obs:
        n = seen.get(o[1], 0)
        if n < 4 or o[0] != 'ok':
            out.append(o)
            seen[o[1]] = n + 1
    return out[:60]


def write(pid, ev):
    p = os.path.join(EVID, pid + '.json')
    with open(p, 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    if len(sys.argv) != 2 or sys.argv[1] not in RULES:
        print('usage: check.py <%s>' % '|'.join(sorted(RULES)))
        sys.exit(2)
    sys.exit(main(sys.argv[1]))
