"""Normal form of arithmetic summary terms, and search for a model on which two of them differ.

Equality of normal forms proves that two summaries denote the same value (assuming counts,
thresholds and weights are non-negative integers).  Inequality is only reported as a violation
together with a small database on which the two formulas have different values.
"""
from fractions import Fraction
from math import gcd
import itertools
import os
import random
from .base import *

NONNEG = ('getWeight',)


class Unsupported(Exception):
    pass


def key(t, env):
    """Structural key of a non-arithmetic term; bound loops by level."""
    if isinstance(t, T):
        t = strip_it(t)
        if t.op in ('elem', 'idx') and t.a[0] in env:
            return (t.op, 'b', env[t.a[0]])
        if t.op in ('op', 'sum', 'ite') and not (t.op == 'op' and t.a[0] in ('len',)) and arithmetic(t):
            return ('poly', freeze(norm(t, env)))
        if t.op in ('sum', 'first', 'last', 'exists', 'comp'):
            env = dict(env)
            ls = []
            for l in t.a[0]:
                ls.append(key(l.domain, env))
                env[l] = len(env)
            return (t.op, tuple(ls)) + tuple(key(x, env) for x in t.a[1:])
        if t.op == 'const':
            return ('const', cval(t))
        return (t.op,) + tuple(key(x, env) for x in t.a)
    if isinstance(t, (tuple, list)):
        return tuple(key(x, env) for x in t)
    if isinstance(t, Loop):
        return ('loop', 'b', env[t]) if t in env else ('loop', t.id)
    if isinstance(t, (str, int, float, bool, type(None))):
        return t
    return repr(t) if not hasattr(t, '__hash__') else t


ARITH = ('+', '-', '*', '/', 'neg', 'float', 'int')


def arithmetic(t):
    if t.op == 'sum':
        return True
    if t.op == 'op' and t.a[0] in ('+', '-', '*', '/', 'len', 'neg'):
        return not is_str(t)
    if t.op == 'ite':
        return True
    return False


# ------------------------------------------------------------------- polynomials
def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def freeze(p):
    return tuple(sorted(p.items(), key=repr))


def content(p):
    """(c, q): p = c*q with q primitive and its leading coefficient positive."""
    if not p:
        return Fraction(0), p
    n, d = 0, 1
    for c in p.values():
        n = gcd(n, abs(c.numerator))
        d = d * c.denominator // gcd(d, c.denominator)
    f = Fraction(n, d)
    lead = p[sorted(p, key=repr)[-1]]
    if lead < 0:
        f = -f
    return f, {m: c / f for m, c in p.items()}


def atom(k):
    return {(k,): Fraction(1)}


def nonneg_atom(k):
    if k[0] in ('len', 'sdiv'):
        return True
    if k[0] == 'sum':
        return all(nonneg_atom(a) for m, c in k[3] for a in m) and all(c > 0 for m, c in k[3])
    if k[0] == 'call' and k[2] in NONNEG:
        return True
    if k[0] == 'attr' and k[2] in ('data', 'at_least', 'count', 'goal', 'weight'):
        return True
    return False


def nonneg(p):
    return all(c > 0 for c in p.values()) and all(nonneg_atom(a) for m in p for a in m)


def depends(k, lv):
    """Does an atom mention a loop bound at level >= lv?"""
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] in ('elem', 'idx', 'loop') and k[1] == 'b':
            return k[2] >= lv
        return any(depends(x, lv) for x in k)
    return False


def norm(t, env):
    t = strip_it(t)
    if t.op == 'const':
        v = cval(t)
        if isinstance(v, bool):
            return pconst(int(v))
        if isinstance(v, (int, float)):
            return pconst(Fraction(v))
        return atom(('const', v))
    if t.op == 'op':
        o = t.a[0]
        if o == '+':
            r = {}
            for x in t.a[1:]:
                r = padd(r, norm(x, env))
            return r
        if o == '-' and len(t.a) == 3:
            return padd(norm(t.a[1], env), norm(t.a[2], env), -1)
        if o in ('neg', '-') and len(t.a) == 2:
            return padd({}, norm(t.a[1], env), -1)
        if o == '*':
            r = pconst(1)
            for x in t.a[1:]:
                r = pmul(r, norm(x, env))
            return r
        if o == '/':
            return div(norm(t.a[1], env), norm(t.a[2], env), 'div')
        if o == 'len':
            return atom(('len', key(t.a[1], env)))
    if t.op == 'call' and t.a[0] is None and t.a[1] in ('float',) and len(t.a[2]) == 1:
        return norm(t.a[2][0], env)
    if t.op in ('nonempty', 'not', 'and', 'or', 'exists') or (t.op == 'op' and t.a[0] in CMP):
        c = cond(t, env)
        return pconst(1) if c is True else pconst(0) if c is False else atom(('bool', c))
    if t.op == 'ite':
        return norm_ite(t, env)
    if t.op == 'sum':
        return norm_sum(t, env)
    return atom(key(t, env))


def div(n, d, tag):
    if list(d) == [()]:
        return {m: c / d[()] for m, c in n.items()}
    if not n:
        return {} if tag == 'sdiv' else atom((tag, freeze(n), freeze(d)))
    cn, n = content(n)
    cd, d = content(d)
    if not d:
        return atom((tag, freeze(n), freeze(d)))
    return {((tag, freeze(n), freeze(d)),): cn / cd}


CMP = ('<', '<=', '>', '>=', '==', '!=')


def cond(t, env):
    """Canonical condition: True/False or a hashable key."""
    if t is TRUE or (t.op == 'const' and cval(t) is True):
        return True
    if t is FALSE or (t.op == 'const' and cval(t) is False):
        return False
    if t.op == 'not':
        return cneg(cond(t.a[0], env))
    if t.op in ('and', 'or'):
        cs = set()
        for x in t.a:
            c = cond(x, env)
            if c is (t.op == 'or'):
                return c
            if c not in (True, False):
                cs.add(c)
        if not cs:
            return t.op == 'and'
        if len(cs) == 1:
            return next(iter(cs))
        return (t.op, tuple(sorted(cs, key=repr)))
    if t.op == 'nonempty':
        return ('>=0', freeze(padd(atom(('len', key(t.a[0], env))), pconst(1), -1)))
    if t.op == 'exists':
        return cmpk('>=', padd(norm_sum(mk('sum', t.a[0], tuple(t.a[1]) + tuple(x for x in t.a[2:] if x is not TRUE), ONE), env), pconst(1), -1))
    if t.op == 'op' and t.a[0] in CMP and len(t.a) == 3:
        o, a, b = t.a
        if not (strlike(a) or strlike(b)):
            p = padd(norm(a, env), norm(b, env), -1)
            return cmpk(o, p)
        return (o,) + tuple(sorted((key(a, env), key(b, env)), key=repr)) if o in ('==', '!=') else (o, key(a, env), key(b, env))
    if t.op == 'truth':
        return cmpk('!=', norm(t.a[0], env))
    if arithmetic(t):
        return cmpk('!=', norm(t, env))
    return ('c', key(t, env))


def strlike(t):
    return is_str(t) or (t.op == 'const' and not isinstance(cval(t), (int, float))) or name_el(t) is not None


def cmpk(o, p):
    if not p or list(p) == [()]:
        v = p.get((), Fraction(0))
        return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[o]
    neg = {m: -c for m, c in p.items()}
    one = pconst(1)
    f, q = content(p)
    isint = True
    if o == '>':
        return ('>=0', freeze(scale(padd(p, one, -1)))) if isint else ('>0', freeze(scale(p)))
    if o == '>=':
        return ('>=0', freeze(scale(p)))
    if o == '<':
        return ('>=0', freeze(scale(padd(neg, one, -1))))
    if o == '<=':
        return ('>=0', freeze(scale(neg)))
    if nonneg(p):
        k = ('>=0', freeze(scale(padd(p, one, -1))))
        return k if o == '!=' else cneg(k)
    if nonneg(neg):
        return cmpk(o, neg)
    return (o + '0', freeze(q))


def scale(p):
    return p


def cneg(c):
    if c is True or c is False:
        return not c
    if c[0] == '>=0':
        p = dict(c[1])
        return ('>=0', freeze(padd({m: -v for m, v in p.items()}, pconst(1), -1)))
    if c[0] == '==0':
        return ('!=0', c[1])
    if c[0] == '!=0':
        return ('==0', c[1])
    if c[0] == '==':
        return ('!=',) + c[1:]
    if c[0] == '!=':
        return ('==',) + c[1:]
    if c[0] == 'and':
        return ('or', tuple(sorted((cneg(x) for x in c[1]), key=repr)))
    if c[0] == 'or':
        return ('and', tuple(sorted((cneg(x) for x in c[1]), key=repr)))
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def zero_when(p, den):
    """Is polynomial p zero whenever the non-negative polynomial den is zero?"""
    for m in p:
        ok = False
        for a in m:
            if (a,) in den:
                ok = True
            for dm in den:
                for da in dm if len(dm) == 1 else ():
                    if a[0] == 'sum':
                        if da[0] == 'len' and a[1] and a[1][0] == da[1]:
                            ok = True
                        if da[0] == 'sum' and a[1][:len(da[1])] == da[1] and not da[2]:
                            for bm, bc in a[3]:
                                if not any(set(x for x in dmm) <= set(bm) for dmm, dc in da[3]):
                                    break
                            else:
                                ok = True
                    if a[0] in ('sdiv', 'div') and zero_when(dict(a[1]), den):
                        ok = True
        if not ok:
            return False
    return True


def norm_ite(t, env):
    c, a, b = cond(t.a[0], env), norm(t.a[1], env), norm(t.a[2], env)
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    for cc, x, y in ((c, a, b), (cneg(c), b, a)):
        # den > 0 ? num/den : (zero)
        divs = {at for m in x for at in m if at[0] == 'div'}
        if len(divs) == 1:
            d = next(iter(divs))
            den = dict(d[2])
            if nonneg(den) and cc == cmpk('>', den) and zero_when(y, den):
                r = {}
                rest_ok = True
                for m, co in x.items():
                    if d in m:
                        mm = tuple(sorted([('sdiv',) + d[1:] if z == d else z for z in m], key=repr))
                        r[mm] = co
                    elif zero_when({m: co}, den):
                        r[m] = co
                    else:
                        rest_ok = False
                if rest_ok:
                    return r
    # c ? x : 0 where x is zero anyway unless c
    for cc, x, y in ((c, a, b), (cneg(c), b, a)):
        if cc[0] == '>=0':
            den = padd(dict(cc[1]), pconst(1))
            if nonneg(den) and x and zero_when(x, den) and zero_when(y, den):
                return x if not y or x == y else atom(('ite', c, freeze(a), freeze(b)))
    return atom(('ite', c, freeze(a), freeze(b)))


def norm_sum(t, env):
    loops, conds, v = t.a
    for l in loops:
        if truncs(l):
            raise Unsupported('sum over a loop that stops early')
    if is_bool(v) or v.op in ('not', 'and', 'or', 'nonempty', 'exists'):
        conds, v = tuple(conds) + (v,), ONE
    if v.op == 'ite':
        a = norm_sum(mk('sum', loops, tuple(conds) + (v.a[0],), v.a[1]), env) if not is_const(v.a[1], 0) else {}
        b = norm_sum(mk('sum', loops, tuple(conds) + (not_(v.a[0]),), v.a[2]), env) if not is_const(v.a[2], 0) else {}
        direct = body_sum(loops, conds, v, env)
        # prefer the unsplit form when the choice is a safe division
        if not any(at[0] == 'ite' for m in direct for at0 in m if at0[0] == 'sum' for bm, bc in at0[3] for at in bm):
            return direct
        return padd(a, b)
    return body_sum(loops, conds, v, env)


ONE = const(1)


def body_sum(loops, conds, v, env):
    env2 = dict(env)
    base = len(env2)
    doms = []
    for l in loops:
        doms.append(key(l.domain, env2))
        env2[l] = len(env2)
    cs = []
    for c in conj(list(conds)):
        k = cond(c, env2)
        if k is False:
            return {}
        if k is not True and k not in cs:
            cs.append(k)
    p = norm(v, env2)
    out = {}
    for m, co in p.items():
        inner = [a for a in m if depends(a, base)]
        outer = tuple(a for a in m if not depends(a, base))
        ds, kc, body = list(doms), list(cs), list(inner)
        # conditions implied by a non-zero factor
        for a in body:
            if nonneg_atom(a):
                k = cmpk('>', atom(a))
                if k in kc:
                    kc.remove(k)
        # flatten a nested sum
        ns = [a for a in body if a[0] == 'sum']
        if len(ns) == 1:
            n = ns[0]
            body.remove(n)
            for bm, bc in n[3]:
                mm = tuple(sorted(tuple(body) + bm, key=repr))
                q = mksum(tuple(ds) + n[1], tuple(sorted(set(kc) | set(n[2]), key=repr)), ((mm, Fraction(1)),))
                out = padd(out, pmul({outer: co * bc}, q))
            continue
        q = mksum(tuple(ds), tuple(sorted(kc, key=repr)), ((tuple(sorted(body, key=repr)), Fraction(1)),))
        out = padd(out, pmul({outer: co}, q))
    return out


def mksum(doms, conds, body):
    if not conds and body == (((), Fraction(1)),) and len(doms) == 1:
        return atom(('len', doms[0]))
    return atom(('sum', doms, conds, body))


def equal(a, b):
    try:
        return norm(a, {}) == norm(b, {})
    except (Unsupported, RecursionError, TypeError, KeyError, AttributeError):
        return False


def same_cond(a, b):
    try:
        return cond(a, {}) == cond(b, {})
    except (Unsupported, RecursionError, TypeError, KeyError, AttributeError):
        return False


# ----------------------------------------------------------------- model search
class Obj(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Model(object):
    """A random small database; objects answer the read accessors of the UCIS interface."""

    def __init__(self, rnd, extra=()):
        self.rnd = rnd
        self.extra = list(extra)
        self.n = 0
        self.objs = {}

    def name(self):
        self.n += 1
        return 'n%d' % self.n

    def obj(self, k):
        if k not in self.objs:
            # siblings have distinct names, cousins share theirs
            self.objs[k] = Obj(kind=k, nm='n' + k.rsplit('/', 1)[-1].rsplit('.', 1)[-1], w=self.rnd.choice([0, 1, 1, 2, 3, 5] + self.extra), kids={}, data=self.rnd.choice([0, 0, 1, 2, 3, 7] + self.extra),
                               at_least=self.rnd.choice([0, 1, 1, 2, 3] + self.extra), lvl=k.count('/'))
        return self.objs[k]

    def kids(self, o, meth, mask):
        kk = (meth, mask)
        if kk not in o.kids:
            o.kids[kk] = [] if meth == 'scopes' and '/scopes%s.' % mask in o.kind else [self.obj('%s/%s%s.%d' % (o.kind, meth, mask, i)) for i in range(self.rnd.choice([0, 1, 2, 3]))]
        return o.kids[kk]


VALS = {'getWeight': 'w', 'getScopeName': 'nm', 'getName': 'nm'}


def ev(t, env, M):
    op = t.op
    t0 = strip_it(t)
    if t0 is not t:
        return ev(t0, env, M)
    if op == 'const':
        v = cval(t)
        return v
    if op == 'sym':
        return M.obj('$' + str(t.a[0]))
    if op == 'elem':
        if t.a[0] in env:
            return env[t.a[0]]
        return M.obj('#%d' % t.a[0].id)
    if op == 'idx' and ('idx', t.a[0]) in env:
        return env['idx', t.a[0]]
    if op == 'call':
        r = ev(t.a[0], env, M) if t.a[0] is not None else None
        if t.a[1] in ('scopes', 'coverItems') and isinstance(r, Obj):
            return M.kids(r, t.a[1], ev(t.a[2][0], env, M))
        if t.a[1] in VALS and isinstance(r, Obj) and not t.a[2]:
            return getattr(r, VALS[t.a[1]])
        if t.a[1] == 'getCoverData' and isinstance(r, Obj):
            return r
        if r is None and t.a[1] in ('int', 'float', 'round', 'min', 'max', 'abs', 'bool', 'ceil', 'floor', 'math.ceil', 'math.floor'):
            import math
            f = {'int': int, 'float': float, 'round': round, 'min': min, 'max': max, 'abs': abs, 'bool': bool, 'ceil': math.ceil, 'floor': math.floor}[t.a[1].split('.')[-1]]
            return f(*[ev(x, env, M) for x in t.a[2]])
        raise Unsupported(show(t)[:80])
    if op == 'attr':
        r = ev(t.a[0], env, M)
        if isinstance(r, Obj) and t.a[1] in ('data', 'at_least'):
            return getattr(r, t.a[1])
        if isinstance(r, Obj) and t.a[1] in ('coverage', 'count', 'goal', 'weight', 'name'):
            if t.a[1] not in r.kids:
                r.kids[t.a[1]] = Fraction(M.rnd.randrange(0, 301), 3) if t.a[1] == 'coverage' else r.nm if t.a[1] == 'name' else M.rnd.choice([0, 1, 2, 3, 7, 100])
            return r.kids[t.a[1]]
        raise Unsupported(show(t)[:80])
    if op == 'ite':
        return ev(t.a[1], env, M) if ev(t.a[0], env, M) else ev(t.a[2], env, M)
    if op == 'not':
        return not ev(t.a[0], env, M)
    if op == 'and':
        return all(ev(x, env, M) for x in t.a)
    if op == 'or':
        return any(ev(x, env, M) for x in t.a)
    if op == 'nonempty':
        return len(ev(t.a[0], env, M)) > 0
    if op == 'truth':
        return bool(ev(t.a[0], env, M))
    if op == 'sum':
        loops, conds, v = t.a
        tot = 0
        uq = [c for c in conj(list(conds)) if c.op == 'uniq']
        cs = [c for c in conj(list(conds)) if c.op != 'uniq']
        rs = [e2 for e2 in rows(loops, env, M) if all(ev(c, e2, M) for c in cs)]
        if uq:
            if len(uq) > 1:
                raise Unsupported('uniq')
            by = {}
            for e2 in rs:
                by.setdefault(ev(uq[0].a[0], e2, M), []).append(e2)
            rs = []
            for l in by.values():
                e2 = dict(l[-1] if not any(x.op == 'firstkey' for x in subterms(v)) else l[0])
                e2['uniq'] = uq[0].a[0]
                rs.append(e2)
        for e2 in rs:
            tot = tot + num(ev(v, e2, M))
        return tot
    if op in ('first', 'last'):
        loops, conds, c, v = t.a
        raise Unsupported(op)
    if op in ('lastkey', 'firstkey') and env.get('uniq') is t.a[1]:
        return ev(t.a[2], env, M)
    if op == 'exists':
        loops, conds = t.a[0], tuple(t.a[1]) + tuple(t.a[2:])
        return any(all(ev(c, e2, M) for c in conds) for e2 in rows(loops, env, M))
    if op == 'op':
        o = t.a[0]
        a = [ev(x, env, M) for x in t.a[1:]]
        if o == 'len':
            return len(a[0])
        if o in ('min', 'max', 'round', 'int', 'abs', 'float'):
            return {'min': min, 'max': max, 'round': round, 'int': int, 'abs': abs, 'float': Fraction}[o](*a)
        a = [num(x) for x in a]
        if o == '+':
            return sum(a)
        if o == '*':
            r = 1
            for x in a:
                r = r * x
            return r
        if o == '-':
            return a[0] - a[1] if len(a) == 2 else -a[0]
        if o == 'neg':
            return -a[0]
        if o == '/':
            return Fraction(a[0]) / Fraction(a[1])
        if o == '//':
            return Fraction(a[0]) // Fraction(a[1])
        if o == '%':
            return a[0] % a[1]
        if o in CMP:
            return {'<': a[0] < a[1], '<=': a[0] <= a[1], '>': a[0] > a[1], '>=': a[0] >= a[1], '==': a[0] == a[1], '!=': a[0] != a[1]}[o]
    raise Unsupported(show(t)[:80])


def num(x):
    return x


def rows(loops, env, M):
    if not loops:
        yield env
        return
    l = loops[0]
    if truncs(l):
        raise Unsupported('early stop')
    for i, x in enumerate(ev(l.domain, env, M)):
        e2 = dict(env)
        e2[l] = x
        e2['idx', l] = i
        for y in rows(loops[1:], e2, M):
            yield y


class Dead(Exception):
    pass


MODELS = 4000 if os.environ.get('VERIF_TIER') == 'thorough' else 400


def differ(a, b, n=MODELS, tol=1e-6):
    """A short description of a model on which a and b have different values; None if none was found; raises Unsupported."""
    big = sorted({int(v) + d for t in (a, b) for x in subterms(t) if x.op == 'const' and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool)
                  and 4 <= abs(cval(x)) < 1e30 and cval(x) != 100 for v in [abs(cval(x))] for d in (-1, 0, 1)})[:9]
    for i in range(n):
        M = Model(random.Random(i), big)
        y = ev(b, {}, M)
        try:
            x = ev(a, {}, M)
        except ZeroDivisionError:
            return 'division by zero, should be %s' % fmtv(y)
        if isinstance(x, (int, float, Fraction)) and isinstance(y, (int, float, Fraction)):
            if abs(x - y) > tol:
                return '%s instead of %s' % (fmtv(x), fmtv(y))
        elif x != y:
            return '%s instead of %s' % (fmtv(x), fmtv(y))
    return None


def fmtv(v):
    if isinstance(v, Fraction):
        return '%g' % float(v)
    return str(v)


def compare(ctx, rule, construct, got, want, what, where=''):
    """Verdict on got == want."""
    if equal(got, want):
        ctx.ok(rule, construct, '', where)
        return True
    try:
        d = differ(got, want)
    except Unsupported as e:
        ctx.und(rule, construct, '%s is %s (no verdict: %s)' % (what, show(got)[:200], e), where)
        return False
    except Exception as e:
        ctx.und(rule, construct, '%s is %s (no verdict: %s %s)' % (what, show(got)[:200], type(e).__name__, e), where)
        return False
    if d is None:
        ctx.und(rule, construct, '%s is %s: not proven equal, no difference found' % (what, show(got)[:200]), where)
        return False
    ctx.viol(rule, construct, '%s is %s; for some database contents this gives %s' % (what, show(got)[:260], d), where)
    return False
