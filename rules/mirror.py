"""Observers: small analysis-only client programs whose abstract evaluation exposes what the
analysed operation produces, and the matcher that compares each observation with the database
construct it has to mirror."""
from .base import *
from . import arith

OBS = mk('sym', 'obs')


def observe(prog, name, src, args, func='observe', opaque=()):
    mod = 'verif_obs_' + name
    prog.add_source(mod, src)
    I = Interp(prog)
    st = State()
    for o in opaque:
        I.opaque_funcs.add(o)
    r = I.callq(mod + '.' + func, [OBS] + list(args), st=st)
    ev = {}
    for e in I.log:
        if e.kind == 'call' and e.recv is OBS:
            ev.setdefault(e.name, []).append(e)
    return I, st, ev, r


def spot(I, e, construct):
    """Source location to report for an observation: where its value was put together."""
    return e


def implied(c, loops, guards=()):
    """Conditions that hold whenever the loop body runs."""
    if c is TRUE:
        return True
    if c.op == 'not' and c.a[0].op == 'isnone':
        return implied(mk('nonempty', c.a[0].a[0]), loops)
    if c.op in ('nonempty', 'truth'):
        d = strip_it(c.a[0])
        for l in loops:
            x = strip_it(l.domain)
            while x.op in ('sorted', 'reversed', 'slice', 'tail', 'enumerate'):
                x = strip_it(x.a[0])
            if x is d:
                return True
        return False
    if c.op == 'or':
        return any(implied(x, loops) for x in c.a)
    if c.op == 'and':
        return all(implied(x, loops) for x in c.a)
    if c.op == 'exists':
        ls, cs = c.a[0], c.a[1]
        return not conj(list(cs) + list(c.a[2:])) and all(any(strip_it(l.domain) is strip_it(m.domain) for m in loops) for l in ls)
    return False


def extras(I, e, skip=()):
    rz = raising(I)
    out = []
    for c, t in e.guards:
        if t == 'raise' or c in rz or c in skip or implied(c, e.loops):
            continue
        out.append(c)
    return out


class Mirror(object):
    def __init__(self, ctx, I, what, root):
        self.ctx, self.I, self.what, self.root = ctx, I, what, root
        self.alias = lambda p: p

    def loc(self, e):
        """Last repository location on the way to the observation."""
        return where(e) if e.site and '/' in str(e.site[0]) else self.what

    def locate(self, rule, construct, e, path, at=''):
        """The database item an observation stands for: (element, loops, bad), or None."""
        ctx = self.ctx
        hit = None
        seen = []
        for l in reversed(e.loops):
            ch = chain(mk('elem', l))
            if ch is None:
                continue
            seen.append(ch)
            if ch[0] is self.root and self.alias(path_of(ch)) == path:
                hit = ch
                break
        if hit is None:
            terms = [l.domain for l in e.loops]
            u = [x for t in terms for x in unknown(t)]
            if u or not seen and e.loops and any(chain(mk('elem', l)) is None for l in e.loops):
                ctx.und(rule, construct, 'iteration not resolved: %s' % '; '.join(show(t)[:100] for t in terms[-2:]), at)
            else:
                ctx.viol(rule, construct, 'follows %s instead of %s' % (
                    pretty_path(path_of(seen[0])) if seen else 'no iteration over the database', pretty_path(path)), at)
            return None
        loops = [L for L, m, a in hit[1]]
        bad = False
        missing = [L for L in loops if L not in e.loops]
        other = [l for l in e.loops if l not in loops]
        if missing:
            bad = True
            ctx.und(rule, construct, 'iteration not resolved', at)
        elif other:
            bad = True
            u = [x for l in other for x in unknown(l.domain)]
            if u:
                ctx.und(rule, construct, 'repeated over %s' % show(other[0].domain)[:120], at)
            else:
                ctx.viol(rule, construct, 'repeated for each element of %s' % show(other[0].domain)[:160], at)
        order = [l for l in e.loops if l in loops]
        if not bad and order != loops:
            bad = True
            ctx.viol(rule, construct, 'items are not grouped under their parents in order', at)
        tr = [c for l in loops for c in truncs(l)]
        if tr and not bad:
            bad = True
            if any(unknown(c) for c in tr):
                ctx.und(rule, construct, 'may stop early when %s' % show(or_(tr))[:160], at)
            else:
                ctx.viol(rule, construct, 'the iteration stops early when %s' % show(or_(tr))[:200], at)
        return mk('elem', loops[-1]), loops, bad

    def match(self, rule, construct, events, path, at='', cond=None, several=False):
        """Check that the observation happens exactly once per database item on `path`, in order.
        Returns [(event, element)] for the field rules.
        cond: maps the conditions of an event to the one to judge; several: items may be split over several passes."""
        ctx = self.ctx
        if not events:
            ctx.viol(rule, construct, 'no %s ever appears in the %s' % (construct, self.what), at)
            return []
        res = []
        conds = []
        for e in events:
            c = and_(extras(self.I, e))
            if cond is not None:
                c = cond(c)
                if c is FALSE:
                    continue
            r = self.locate(rule, construct, e, path, at)
            if r is None:
                conds.append(None)
                continue
            conds.append(c)
            res.append((e,) + r)
        if any(c is None for c in conds):
            return [(e, el) for e, el, ls, b in res]
        if not conds:
            ctx.viol(rule, construct, 'no %s ever appears in the %s' % (construct, self.what), at)
            return []
        # the same condition on copies of one loop is the same condition
        base = res[0][1]
        same = [subst(c, {el: base}) if el is not base else c for c, (e, el, ls, b) in zip(conds, res)]
        tot = or_(same)
        dup = [1 for i in range(len(same)) for j in range(i) if not table(and_([same[i], same[j]]))[1]]
        if dup:
            if TRUE in same or not any(unknown(c) for c in same):
                ctx.viol(rule, construct, 'may appear more than once per database item', at)
            else:
                ctx.und(rule, construct, 'conditions of several emissions not resolved', at)
        elif tot is TRUE or valid(tot):
            if not several and len({tuple(ls) for e, el, ls, b in res}) > 1:
                ctx.viol(rule, construct, 'items are split over several passes, so their order is not the database order', at)
            elif not any(b for e, el, ls, b in res):
                ctx.ok(rule, construct, 'one per %s' % pretty_path(path), at)
        else:
            self.partial(rule, construct, tot, at)
        return [(e, el) for e, el, ls, b in res]

    def partial(self, rule, construct, c, at):
        # the first item of a collection is an ordinary item
        first = {x: mk('attr', strip_it(x.a[0]), 'first item') for x in subterms(c)
                 if x.op == 'nextv' and x.a[1] in (0, ZERO) and strip_it(x.a[0]).op == 'call' and not unknown(x.a[0])}
        if unknown(subst(c, first) if first else c):
            self.ctx.und(rule, construct, 'present only if %s' % show(c)[:200], at)
        elif valid(c):
            self.ctx.ok(rule, construct, '', at)
        else:
            self.ctx.viol(rule, construct, 'present only if %s' % show(c)[:240], at)

    def field(self, rule, construct, got, want, at=''):
        ctx = self.ctx
        if got is want or arith.equal(got, want):
            ctx.ok(rule, construct, show(want)[:100], at)
            return True
        if unknown(got):
            ctx.und(rule, construct, 'is %s' % show(got)[:200], at)
            return False
        if any(x.op in ('ite',) for x in subterms(got)) or any(x.op == 'op' for x in subterms(got)):
            return arith.compare(ctx, rule, construct, got, want, construct, at)
        ctx.viol(rule, construct, 'is %s instead of %s' % (show(got)[:200], show(want)[:100]), at)
        return False


def atoms(c, out):
    if c.op in ('and', 'or', 'not'):
        for x in c.a:
            atoms(x, out)
    elif c is not TRUE and c is not FALSE and c not in out:
        out.append(c)
    return out


def holds(c, env):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op == 'and':
        return all(holds(x, env) for x in c.a)
    if c.op == 'or':
        return any(holds(x, env) for x in c.a)
    if c.op == 'not':
        return not holds(c.a[0], env)
    return env[c]


def table(c):
    """(always true, never true) of a condition, its atoms taken as independent."""
    at, neg = [], {}
    for x in atoms(c, []):
        n = not_(x)
        if n.op != 'not' and n in at:
            neg[x] = n
        else:
            at.append(x)
    if len(at) > 12:
        return False, False
    t = f = False
    for i in range(1 << len(at)):
        env = {x: bool(i >> k & 1) for k, x in enumerate(at)}
        for x, n in neg.items():
            env[x] = not env[n]
        if holds(c, env):
            t = True
        else:
            f = True
    return not f, not t


def assume(c, facts):
    """A condition simplified under known truth values of some of its atoms."""
    if c in facts:
        return TRUE if facts[c] else FALSE
    if c.op == 'not':
        return not_(assume(c.a[0], facts))
    if c.op == 'and':
        return and_([assume(x, facts) for x in c.a])
    if c.op == 'or':
        return or_([assume(x, facts) for x in c.a])
    return c


def valid(c):
    """Conditions that are always true, whatever the data."""
    if table(c)[0]:
        return True
    try:
        return arith.cond(c, {}) is True
    except Exception:
        return False
