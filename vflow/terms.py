"""Hash-consed terms: the abstract values of the value-flow analysis.

A term says where a value comes from: a constant, an analysis root, an operation
of an opaque API on other terms, the generic element of a loop, an accumulation
over a loop, a gated join of two values, or a reference to an abstract object.
`top` marks a value the analysis does not model.
"""
import itertools

_tab = {}
_ids = itertools.count()


class EnumVal(object):
    __slots__ = ('cls', 'name', 'value')
    _t = {}

    def __new__(c, cls, name, value):
        k = (cls, name, value)
        o = c._t.get(k)
        if o is None:
            o = object.__new__(c)
            o.cls, o.name, o.value = cls, name, value
            c._t[k] = o
        return o

    def __repr__(self):
        return '%s.%s' % (self.cls.rsplit('.', 1)[-1], self.name)


class T(object):
    __slots__ = ('op', 'a', 'id', '_fl', '_tops')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


class Loop(object):
    """One loop of the program in one calling context."""
    __slots__ = ('id', 'domain', 'node', 'origin', 'trunc', 'mod', 'kind', 'steps', 'where', 'zipped')

    def __init__(self, domain, node=None, origin=None, kind='for', where=None):
        self.id = next(_ids)
        self.domain = domain
        self.node = node
        self.origin = origin
        self.trunc = []
        self.mod = {}
        self.kind = kind
        self.steps = {}
        self.where = where
        self.zipped = ()

    def root(self):
        l = self
        while l.origin is not None:
            l = l.origin
        return l

    def __repr__(self):
        return 'L%d' % self.id


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_ids)
        t._fl = None
        t._tops = None
        _tab[k] = t
    return t


def const(v):
    return mk('const', v, type(v).__name__)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
UNDEF = mk('undef')


def is_const(t, *vals):
    if t.op != 'const':
        return False
    if not vals:
        return True
    return any(t is const(v) for v in vals)


def cval(t):
    v = t.a[0]
    if isinstance(v, EnumVal):
        return v.value
    return v


def top(why):
    return mk('top', why)


# ---------------------------------------------------------------- traversal

def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from subterms(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield from subterms(y, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield from subterms(z, seen)


def free_loops(t):
    """Loops a term depends on (bound loops of sums etc. excluded)."""
    if t._fl is not None:
        return t._fl
    s = set()
    if t.op == 'ref':
        sub = dict(t.a[1])
        t._fl = frozenset(sub.get(l, l) for l in t.a[0].loops)
        return t._fl

    def add(x):
        if isinstance(x, Loop):
            s.add(x)
        elif isinstance(x, T):
            s.update(free_loops(x))
        elif isinstance(x, tuple):
            for y in x:
                add(y)
    for x in t.a:
        add(x)
    if t.op in ('sum', 'first', 'last', 'exists', 'fold', 'catfold', 'comp'):
        bound = t.a[0]
        for l in bound:
            s.discard(l)
            s.update(free_loops(l.domain))
        for l in bound:
            s.discard(l)
    t._fl = frozenset(s)
    return t._fl


def has_top(t):
    if t._tops is None:
        t._tops = any(x.op == 'top' for x in subterms(t))
    return t._tops


def tops(t):
    return [x for x in subterms(t) if x.op == 'top']


_ren = {}


def rename(t, mp):
    """Substitute loops (mp: Loop->Loop) in a term."""
    if not mp:
        return t
    fl = free_loops(t)
    mp = {k: v for k, v in mp.items() if k in fl}
    if not mp:
        return t
    key = (t, tuple(sorted(((k.id, v.id) for k, v in mp.items()))))
    r = _ren.get(key)
    if r is None:
        r = _rename(t, mp)
        _ren[key] = r
    return r


def _rename(t, mp):
    if t.op == 'ref':
        obj, sub = t.a
        d = dict(sub)
        for l in obj.loops:
            cur = d.get(l, l)
            if cur in mp:
                d[l] = mp[cur]
        return mk('ref', obj, tuple(sorted(((k, v) for k, v in d.items() if k is not v), key=lambda kv: kv[0].id)))
    if t.op in ('sum', 'first', 'last', 'exists', 'fold', 'catfold', 'comp'):
        bound = t.a[0]
        m2 = dict(mp)
        nb = []
        for l in bound:
            m2.pop(l, None)
        for l in bound:
            nd = rename(l.domain, m2)
            if nd is not l.domain:
                nl = copy_loop(l, nd)
                m2[l] = nl
                nb.append(nl)
            else:
                nb.append(l)
        return mk(t.op, tuple(nb), *[_ra(x, m2) for x in t.a[1:]])
    return rebuild(t.op, [_ra(x, mp) for x in t.a])


_copies = {}


def copy_loop(l, nd, tag=None):
    k = (l, nd, tag)
    r = _copies.get(k)
    if r is None:
        r = Loop(nd, l.node, l, l.kind, l.where)
        r.trunc = l.trunc
        _copies[k] = r
    return r


def _ra(x, mp):
    if isinstance(x, Loop):
        return mp.get(x, x)
    if isinstance(x, T):
        return rename(x, mp)
    if isinstance(x, tuple):
        return tuple(_ra(y, mp) for y in x)
    return x


def subst(t, mp, memo=None):
    """Substitute whole terms (mp: T->T)."""
    if memo is None:
        memo = {}
    if t in mp:
        return mp[t]
    if t in memo:
        return memo[t]

    def go(x):
        if isinstance(x, T):
            return subst(x, mp, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    na = [go(x) for x in t.a]
    r = t if all(x is y or x == y for x, y in zip(na, t.a)) else rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == 'ite':
        return ite(*a)
    if op == 'op':
        return oper(a[0], *a[1:])
    if op == 'not':
        return not_(a[0])
    if op == 'and':
        return and_(a)
    if op == 'or':
        return or_(a)
    if op == 'isnone':
        return isnone(a[0])
    if op == 'truth':
        return truth(a[0])
    if op == 'cat':
        return cat(*a)
    if op == 'index':
        return index(a[0], a[1])
    return mk(op, *a)


# ------------------------------------------------------- simplifying builders

def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.a[0]
    if c.op == 'op' and c.a[0] in _NEG:
        return mk('op', _NEG[c.a[0]], *c.a[1:])
    if c.op == 'and':
        return or_([not_(x) for x in c.a])
    if c.op == 'or':
        return and_([not_(x) for x in c.a])
    return mk('not', c)


_NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '!=': '=='}


def and_(l):
    out = []
    for c in l:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        for d in (c.a if c.op == 'and' else (c,)):
            if d not in out:
                out.append(d)
    for d in out:
        if not_(d) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def or_(l):
    out = []
    for c in l:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        for d in (c.a if c.op == 'or' else (c,)):
            if d not in out:
                out.append(d)
    for d in out:
        n = mk('not', d) if d.op not in ('not', 'and', 'or') and not (d.op == 'op' and d.a[0] in _NEG) else not_(d)
        if n in out:
            return TRUE
    # (a and b) or (a and not b) -> a ;  a or (not a and b) -> a or b
    changed = False
    for i, d in enumerate(out):
        if d.op == 'and':
            keep = [x for x in d.a if not_(x) not in out]
            if len(keep) != len(d.a):
                out[i] = and_(keep)
                changed = True
    if changed:
        return or_(out)
    if len(out) >= 2:
        sets = [frozenset(d.a) if d.op == 'and' else frozenset([d]) for d in out]
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                common = sets[i] & sets[j]
                ra = and_(sorted(sets[i] - common))
                rb = and_(sorted(sets[j] - common))
                if ra is not_(rb) or ra is TRUE or rb is TRUE:
                    rest = [out[k] for k in range(len(out)) if k not in (i, j)]
                    order = [x for x in (out[i].a if out[i].op == 'and' else (out[i],)) if x in common]
                    return or_([and_(order)] + rest)
    if len(out) == 1:
        return out[0]
    if not out:
        return FALSE
    return mk('or', *out)


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op in ('ref', 'new', 'elem', 'tuple', 'cat', 'sum', 'idx', 'func', 'cls', 'bm', 'cm', 'mod', 'builtin', 'closure', 'it', 'listof',
                'exists', 'and', 'or', 'not', 'isnone', 'in', 'ext', 'copyof'):
        return FALSE
    if t.op == 'const':
        return FALSE
    if t.op == 'op':
        return FALSE
    if t.op == 'nextv' and t.a[1].op == 'const':
        pass
    if t.op == 'ite':
        c, a, b = t.a
        na, nb = isnone(a), isnone(b)
        if na is nb:
            return na
        if na is TRUE:
            return or_([c, and_([not_(c), nb])])
        if na is FALSE:
            return and_([not_(c), nb])
        if nb is TRUE:
            return or_([not_(c), and_([c, na])])
        if nb is FALSE:
            return and_([c, na])
    if t.op == 'first':
        n = isnone(t.a[2])
        if n is FALSE:
            return FALSE
    return mk('isnone', t)


_BOOLOPS = {'<', '<=', '>', '>=', '==', '!='}


def is_bool(t):
    return t.op in ('isnone', 'not', 'and', 'or', 'in', 'exists', 'nonempty', 'truth', 'exc', 'isinst') or \
        (t.op == 'op' and t.a[0] in _BOOLOPS) or t is TRUE or t is FALSE or \
        (t.op == 'ite' and is_bool(t.a[1]) and is_bool(t.a[2]))


def truth(t):
    if is_bool(t):
        return t
    if t.op == 'const':
        return TRUE if cval(t) else FALSE
    if t.op in ('func', 'cls', 'bm', 'closure', 'new'):
        return TRUE
    if t.op == 'tuple':
        return TRUE if t.a else FALSE
    if t.op == 'ite':
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op == 'op' and t.a[0] == 'len':
        return mk('nonempty', t.a[1])
    return mk('truth', t)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op == 'op' and c.a[0] in ('<', '<=', '!='):
        return ite(not_(c), b, a)
    if a.op == 'ite' and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c:
        return ite(c, a, b.a[2])
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if is_bool(a) and is_bool(b):
        if b is FALSE:
            return and_([c, a])
        if a is FALSE:
            return and_([not_(c), b])
        if a is TRUE:
            return or_([c, b])
        if b is TRUE:
            return or_([not_(c), a])
    if c.op == 'isnone' and c.a[0] is b and a is NONE:
        return b
    # the branch conditions hold inside the branches
    a2, b2 = assume(a, c, True), assume(b, c, False)
    if a2 is b2:
        return a2
    return mk('ite', c, a2, b2)


def assume(t, c, val):
    """Simplify nested ite's whose condition is decided by c == val."""
    if t.op != 'ite':
        return t
    facts = set()
    if val:
        facts.update(c.a if c.op == 'and' else (c,))
    else:
        n = not_(c)
        facts.update(n.a if n.op == 'and' else (n,))
    return _assume(t, facts)


def _assume(t, facts):
    if t.op != 'ite':
        return t
    c = t.a[0]
    if c in facts:
        return _assume(t.a[1], facts)
    if not_(c) in facts:
        return _assume(t.a[2], facts)
    return t


def cat(*parts):
    out = []
    for p in parts:
        for q in (p.a if p.op == 'cat' else (p,)):
            if q.op == 'const' and isinstance(q.a[0], str) and out and out[-1].op == 'const' and isinstance(out[-1].a[0], str):
                out[-1] = const(out[-1].a[0] + q.a[0])
            elif q.op == 'const' and q.a[0] == '':
                continue
            else:
                out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and (out[0].op in ('const', 'cat')):
        return out[0]
    return mk('cat', *out)


def is_str(t):
    return t.op == 'cat' or (t.op == 'const' and isinstance(t.a[0], str)) or t.op == 'str' or \
        (t.op == 'call' and t.a[1] in ('join', 'strip', 'getScopeName', 'getName'))


def numc(t):
    return t.op == 'const' and isinstance(cval(t), (int, float)) and cval(t) is not None


_FOLD = {
    '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b,
    '%': lambda a, b: a % b, '|': lambda a, b: a | b, '&': lambda a, b: a & b, '^': lambda a, b: a ^ b,
    '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b, '**': lambda a, b: a ** b,
    '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
}


def oper(name, *a):
    if name == '+':
        return add(*a)
    if name in ('==', '!='):
        r = eq(a[0], a[1])
        return r if name == '==' else not_(r)
    if name in _FOLD and len(a) == 2 and a[0].op == 'const' and a[1].op == 'const':
        try:
            v = _FOLD[name](cval(a[0]), cval(a[1]))
            if isinstance(v, (int, float, str, bool)):
                return const(v)
        except Exception:
            pass
    if name in ('<', '<=', '>', '>=') and len(a) == 2:
        # len(x) comparisons
        l = _lencmp(name, a[0], a[1])
        if l is not None:
            return l
        if name == '<':
            return mk('op', '>', a[1], a[0]) if _ordflip(a) else mk('op', '<', *a)
    if name == '*':
        if any(x is ZERO for x in a):
            return ZERO
        a = [x for x in a if not (x.op == 'const' and cval(x) == 1 and not isinstance(x.a[0], bool))] or [const(1)]
        if len(a) == 1:
            return a[0]
        # distribute over ite with a zero branch is left alone; order canonical
        fl = []
        for x in a:
            if x.op == 'op' and x.a[0] == '*':
                fl.extend(x.a[1:])
            else:
                fl.append(x)
        cs = [x for x in fl if numc(x)]
        rest = sorted([x for x in fl if not numc(x)])
        if len(cs) > 1:
            v = 1
            for x in cs:
                v *= cval(x)
            cs = [const(v)]
        l = cs + rest
        return l[0] if len(l) == 1 else mk('op', '*', *l)
    if name == '/' and a[1].op == 'const' and cval(a[1]) == 1:
        return a[0]
    if name == '-' and a[1].op == 'const' and cval(a[1]) == 0:
        return a[0]
    if name == '-' and len(a) == 2 and numc(a[1]) and isinstance(cval(a[1]), int):
        return add(a[0], const(-cval(a[1])))
    return mk('op', name, *a)


def _ordflip(a):
    return False


def _lencmp(name, x, y):
    if x.op == 'op' and x.a[0] == 'len' and y.op == 'const':
        v = cval(y)
        if (name == '>' and v == 0) or (name == '>=' and v == 1):
            return mk('nonempty', x.a[1])
        if (name == '<' and v == 1) or (name == '<=' and v == 0):
            return not_(mk('nonempty', x.a[1]))
    if y.op == 'op' and y.a[0] == 'len' and x.op == 'const':
        return _lencmp({'<': '>', '>': '<', '<=': '>=', '>=': '<='}[name], y, x)
    return None


def add(*a):
    fl = []
    for x in a:
        if x.op == 'op' and x.a[0] == '+':
            fl.extend(x.a[1:])
        else:
            fl.append(x)
    if any(is_str(x) for x in fl):
        return cat(*fl)
    c = 0
    hasc = False
    rest = []
    for x in fl:
        if numc(x):
            c = c + cval(x)
            hasc = True
        else:
            rest.append(x)
    if not rest:
        return const(c)
    if c == 0:
        if len(rest) == 1:
            return rest[0]
        return mk('op', '+', *rest)
    return mk('op', '+', *(rest + [const(c)]))


def eq(a, b):
    if a is NONE:
        return isnone(b)
    if b is NONE:
        return isnone(a)
    if a is b and not has_top(a):
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return TRUE if cval(a) == cval(b) else FALSE
    if a.op == 'tuple' and b.op == 'tuple' and not any(x.op == 'star' for x in a.a + b.a):
        if len(a.a) != len(b.a):
            return FALSE
        if sum(1 for x, y in zip(a.a, b.a) if x is not y) <= 1 or any(x.op == 'const' or y.op == 'const' for x, y in zip(a.a, b.a)):
            return and_([eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == 'op' and a.a[0] == 'len' and is_const(b, 0):
        return not_(mk('nonempty', a.a[1]))
    if b.op == 'op' and b.a[0] == 'len' and is_const(a, 0):
        return not_(mk('nonempty', b.a[1]))
    if is_bool(a) and b.op == 'const':
        if cval(b) is True or cval(b) == 1:
            return a
        if cval(b) is False or cval(b) == 0:
            return not_(a)
    if a.op == 'const' and b.op != 'const':
        a, b = b, a
    if a.op == 'ite' and b.op == 'const':
        x, y = eq(a.a[1], b), eq(a.a[2], b)
        if x in (TRUE, FALSE) or y in (TRUE, FALSE):
            return ite(a.a[0], x, y)
    if b.op != 'const' and b.id < a.id:
        a, b = b, a
    return mk('op', '==', a, b)


def index(x, k):
    if x.op == 'tuple' and k.op == 'const' and isinstance(cval(k), int):
        i = cval(k)
        if -len(x.a) <= i < len(x.a):
            return x.a[i]
    if k.op == 'idx' and k.a[0].domain is strip_it(x):
        return mk('elem', k.a[0])
    if x.op == 'ite':
        return ite(x.a[0], index(x.a[1], k), index(x.a[2], k))
    return mk('index', x, k)


def strip_it(t):
    while t.op in ('it', 'listof'):
        t = t.a[0]
    return t


# ------------------------------------------------------------------ printing

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return repr(t)
    if d > 14:
        return '..'
    o, a = t.op, t.a
    if o == 'const':
        return repr(a[0])
    if o == 'sym':
        return '$' + a[0]
    if o == 'attr':
        return '%s.%s' % (show(a[0], d + 1), a[1])
    if o == 'call':
        return '%s.%s(%s)' % (show(a[0], d + 1) if a[0] is not None else '', a[1], ', '.join(show(x, d + 1) for x in a[2]))
    if o == 'elem':
        return 'el%d' % a[0].id
    if o == 'idx':
        return 'ix%d' % a[0].id
    if o == 'op':
        if len(a) == 3:
            return '(%s %s %s)' % (show(a[1], d + 1), a[0], show(a[2], d + 1))
        return '%s(%s)' % (a[0], ', '.join(show(x, d + 1) for x in a[1:]))
    if o == 'ite':
        return '(%s ? %s : %s)' % tuple(show(x, d + 1) for x in a)
    if o == 'ref':
        return '&%s%s' % (a[0], ''.join('[%s>%s]' % kv for kv in a[1]))
    if o == 'new':
        return 'new:%s#%s' % (a[0], a[1])
    if o == 'ext':
        return a[0]
    if o in ('sum', 'first', 'last', 'exists', 'fold', 'comp'):
        return '%s{%s | %s}' % (o, ' '.join('%r:%s' % (l, show(l.domain, d + 1)) for l in a[0]), ' ; '.join(show(x, d + 1) for x in a[1:]))
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))


def truncs(l):
    """Conditions under which the iteration (or the one its elements were collected in) stops early."""
    out = []
    while l is not None:
        out += [c for c in l.trunc if c not in out]
        l = l.origin
    return out
