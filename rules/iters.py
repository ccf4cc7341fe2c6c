"""C15: iteration over the children of in-memory objects.

A cursor class (__next__) is decided by induction over the cursor: the object is put in a generic
state (cursor at position p of the list L) and one step is evaluated under each case of a complete
case split (L exhausted at p; the element at p matches; it does not), the loop being cut where it
comes back with the cursor at p+1.  Generators, comprehensions and filters are decided from their
loop summary."""
from .base import *
from .mirror import *
from .mem import build, methods_of, call, failed
import ast

P, C0, M = mk('sym', 'p'), mk('sym', 'c'), mk('sym', 'mask')
ACC = {'scopes': ('type', 'ucis.mem.mem_scope.MemScope', 'getScopeType'),
       'coverItems': ('type', 'ucis.mem.mem_cover_index.MemCoverIndex', 'getCoverData'),
       'historyNodes': ('kind', 'ucis.mem.mem_history_node.MemHistoryNode', 'getKind')}
SRC = '''
def drain(obs, it):
    for x in it:
        obs.ITEM(x)
'''
_n = [0]


def aff(t, L):
    """Linear form {symbol: coefficient, 1: constant} or None."""
    if t.op == 'const':
        v = cval(t)
        return {1: v} if isinstance(v, int) and not isinstance(v, bool) else None
    if t is P or t is C0:
        return {t: 1}
    if t.op == 'op' and t.a[0] == 'len' and base(t.a[1]) is L:
        return {'N': 1}
    if t.op == 'op' and t.a[0] == '+':
        out = {}
        for x in t.a[1:]:
            f = aff(x, L)
            if f is None:
                return None
            for k, v in f.items():
                out[k] = out.get(k, 0) + v
        return out
    if t.op == 'op' and t.a[0] == '*' and len(t.a) == 3 and is_const(t.a[1]):
        f = aff(t.a[2], L)
        return None if f is None else {k: v * cval(t.a[1]) for k, v in f.items()}
    if t.op == 'op' and t.a[0] in ('neg', '-'):
        fs = [aff(x, L) for x in t.a[1:]]
        if None in fs:
            return None
        if len(fs) == 1:
            fs = [{}] + fs
        out = dict(fs[0])
        for k, v in fs[1].items():
            out[k] = out.get(k, 0) - v
        return out
    return None


def base(t):
    while t.op in ('it', 'listof', 'copyof') or (t.op == 'slice' and all(x is NONE for x in t.a[1:])):
        t = t.a[0]
    return t


class Oracle(object):
    """One case: remaining = 0, 1 or 2 (two or more) elements from p on, match = what the element at p is."""

    def __init__(self, what, L, fields, remaining, match, cur=None, allk=None):
        self.what, self.L, self.fields, self.remaining, self.match, self.cur, self.allk = what, L, fields, remaining, match, cur, allk
        self.entry, self.back, self.stale = None, None, {}
        self.open = []           # conditions that stay open
        self.pos = None          # exact position, when the case fixes it
        self.exact = False       # remaining is exact
        self.free = {}           # value of conditions about other fields of the element

    # ---- conditions
    def decide(self, c):
        if c.op == 'and':
            return and_([self.decide(x) for x in c.a])
        if c.op == 'or':
            return or_([self.decide(x) for x in c.a])
        if c.op == 'not':
            return not_(self.decide(c.a[0]))
        if c.op == 'const':
            return c
        r = self.free.get(c)
        if r is None:
            r = self.free.get((c, self.match))
        if r is None:
            r = self.atom(c)
        return c if r is None else (TRUE if r else FALSE)

    def elem(self, t):
        """'cur' / 'other' when t is an element of the list."""
        if self.cur is not None:
            return 'cur' if t is self.cur else None
        if t.op == 'index' and base(t.a[0]) is self.L:
            f = aff(t.a[1], self.L)
            if f is None:
                return None
            f = {k: v for k, v in f.items() if v}
            return 'cur' if f == {P: 1} else 'other'
        return None

    def ty(self, t):
        """'cur' / 'other' when t is the type (kind) of an element."""
        if self.what == 'type' and t.op == 'attr' and t.a[1] == 'type':
            x = t.a[0]
            if x.op == 'call' and x.a[1] == 'getCoverData' or (x.op == 'attr' and x.a[1] in self.fields):
                return self.elem(x.a[0])
        if t.op == 'call' and t.a[1] in ('getScopeType', 'getKind'):
            return self.elem(t.a[0])
        if t.op == 'attr' and t.a[1] in self.fields:
            return self.elem(t.a[0])
        if t.op == 'op' and t.a[0] == 'int' and len(t.a) == 2:
            return self.ty(t.a[1])
        return None

    def mask(self, t):
        return t is M or (t.op == 'op' and t.a[0] == 'int' and len(t.a) == 2 and t.a[1] is M)

    def hit(self, who):
        return who == 'cur' and self.match in ('eq', 'sub', 'all')

    def inter(self, t):
        if t.op == 'op' and t.a[0] == '&' and len(t.a) == 3:
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if self.mask(b) and self.ty(a):
                    return self.ty(a)
        return None

    def atom(self, c):
        if c.op in ('truth', 'nonempty'):
            x = c.a[0]
            if self.what == 'type' and self.inter(x):
                return self.hit(self.inter(x))
            if self.mask(x):
                return True if self.what == 'type' else self.match != 'all'
            if self.elem(x):
                return True
            if self.ty(x):
                return True
            if base(x) is self.L:
                r = self.cmp(mk('op', 'len', self.L), ZERO)
                return True if r[0] > 0 else (False if r[1] <= 0 else None)
            return None
        if self.inter(c):
            return self.hit(self.inter(c))
        if c.op == 'isnone':
            x = c.a[0]
            if self.elem(x) or self.mask(x) or base(x) is self.L or self.ty(x):
                return False
            return None
        if c.op == 'in':
            a, b = c.a[0], c.a[1]
            if self.what == 'type' and self.mask(b) and self.ty(a):
                return self.hit(self.ty(a))
            if self.what == 'type' and self.mask(a) and self.ty(b):
                return self.ty(b) == 'cur' and self.match == 'eq'
            return None
        isop = c.op == 'op' and c.a[0] in ('<', '>', '<=', '>=', '!=', '==')
        if c.op == 'eq' or isop:
            o = '==' if c.op == 'eq' else c.a[0]
            a, b = c.a if c.op == 'eq' else c.a[1:3]
            r = self.cmp(a, b)
            if r is not None:
                lo, hi = r       # a - b is in [lo, hi]
                if o == '<':
                    return True if hi < 0 else (False if lo >= 0 else None)
                if o == '>':
                    return True if lo > 0 else (False if hi <= 0 else None)
                if o == '<=':
                    return True if hi <= 0 else (False if lo > 0 else None)
                if o == '>=':
                    return True if lo >= 0 else (False if hi < 0 else None)
                e = True if lo == hi == 0 else (False if lo > 0 or hi < 0 else None)
                return e if o == '==' or e is None else not e
            for x, y, oo in ((a, b, o), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o))):
                if self.what == 'type' and self.inter(x):
                    w = self.inter(x)
                    if y is ZERO:
                        h = self.hit(w)
                        return {'==': not h, '!=': h, '>': h, '<': False, '>=': True, '<=': not h}[oo]
                    if self.ty(y) == w and oo in ('==', '!='):
                        return self.hit(w) == (oo == '==')
                    if self.mask(y) and oo in ('==', '!='):
                        return (w == 'cur' and self.match == 'eq') == (oo == '==')
                if self.ty(x) and self.mask(y) and oo in ('==', '!='):
                    return (self.ty(x) == 'cur' and self.match == 'eq') == (oo == '==')
                if self.ty(x) and y is ZERO and oo in ('==', '!=', '>'):
                    return oo != '=='
                if self.what == 'kind' and self.mask(x) and y is self.allk and oo in ('==', '!='):
                    return (self.match == 'all') == (oo == '==')
                if self.what == 'kind' and self.ty(x) and y is self.allk and oo in ('==', '!='):
                    return oo == '!='
                if self.elem(x) == 'cur' and y is NONE and oo in ('==', '!='):
                    return oo == '!='
        return None

    def cmp(self, a, b):
        fa, fb = aff(a, self.L), aff(b, self.L)
        if fa is None or fb is None:
            return None
        d = dict(fa)
        for k, v in fb.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        k = d.pop(1, 0)
        if not d:
            return k, k
        inf = 1 << 40
        lo = hi = k
        # everything in terms of r = N - p and p >= c >= 0
        pn, n, c = d.pop(P, 0), d.pop('N', 0), d.pop(C0, 0)
        pn += n
        rlo, rhi = (self.remaining, self.remaining) if self.remaining < 2 or self.exact else (2, inf)
        plo, phi = (self.pos, self.pos) if self.pos is not None else (0, inf)
        for co, l, h in ((n, rlo, rhi),):
            lo += co * (l if co > 0 else h)
            hi += co * (h if co > 0 else l)
        # pn*p + c*c0 with 0 <= c0 <= p
        if c:
            if pn == -c:
                co, l, h = pn, 0, inf     # pn*(p - c0)
                lo += co * (l if co > 0 else h)
                hi += co * (h if co > 0 else l)
            else:
                return None
        elif pn:
            lo += pn * (plo if pn > 0 else phi)
            hi += pn * (phi if pn > 0 else plo)
        return lo, hi

    # ---- loop cut
    def first(self, I, node, f, st):
        if self.entry is None:
            for k, v in self.stale.items():
                if k in st.m:
                    st.m[k] = v
            self.entry = dict(st.m)
            self.fid = f.fid

    def again(self, I, node, f, st):
        if self.entry is None:
            self.entry = {}
        self.back = dict(st.m)
        return True


class Cursor(object):
    def __init__(self, ctx, prog, I, kind, acc, it, s, L, fields, allk):
        self.ctx, self.prog, self.I, self.kind, self.acc, self.it, self.s, self.L, self.fields = ctx, prog, I, kind, acc, it, s, L, fields
        self.what = ACC[acc][0]
        self.allk = allk
        self.name = '%s.%s' % (kind, acc)
        self.world, self.opened = None, set()

    def cells(self):
        return [k for k in self.s.m if k[0] == 'f' and k[1] is self.it] + [('pos', it) for it in self.its()]

    def its(self):
        return [v for k, v in self.s.m.items() if k[0] == 'f' and k[1] is self.it and v.op == 'it' and base(v) is self.L]

    def step(self, remaining, match, cursors, stale):
        s = self.s.fork()
        for it in self.its():
            s.m.setdefault(('pos', it), ZERO)
        for k in cursors:
            s.m[k] = add(P, s.m[k])
        o = Oracle(self.what, self.L, self.fields, remaining, match, allk=self.allk)
        o.stale = stale
        if self.world is not None:
            o.pos, o.exact = self.world[0], True
            if remaining == 2:
                o.remaining = self.world[1]
            o.free = self.world[2]
        start = dict(s.m)
        mark = len(self.I.log)
        _n[0] += 1
        self.I.oracle = o
        try:
            r = self.I.invoke(self.it, '__next__', [], st=s, tag=('iter', _n[0]))
        finally:
            self.I.oracle = None
            self.opened |= set(o.open)
        ev = self.I.log[mark:]
        rz = [e for e in ev if e.kind == 'raise']
        if o.open or s.pc:
            raise Abort('condition %s not decided' % show(o.open[0] if o.open else s.pc[0][0])[:80])
        if s.dead and o.back is not None:
            return 'again', r, s, ev, o, start
        if s.dead:
            if rz and any('StopIteration' in show(e.args[0]) for e in rz):
                return 'stop', r, s, ev, o, start
            return 'error', r, s, ev, o, start
        return 'return', r, s, ev, o, start

    def fail(self, msg, ev):
        w = ''
        for e in reversed(ev or ()):
            if e.site is not None and e.stack and not e.stack[-1].startswith('verif'):
                w = where(e)
                break
        self.ctx.viol('iteration', self.name, msg, w)

    def about_elem(self, c):
        """Is the condition about other fields of the element at the cursor only?"""
        if c.op in ('and', 'or', 'not'):
            return False
        el = index(self.L, P)
        t = subst(c, {el: mk('sym', 'e')})
        ok = False
        for x in subterms(t):
            if x.op == 'sym':
                if x.a[0] != 'e':
                    return False
                ok = True
            elif x.op in ('top', 'ref', 'new', 'index', 'call', 'mu'):
                return False
            elif x.op == 'attr' and (x.a[1] == 'type' or (x.a[1] in self.fields and self.acc != 'coverItems')):
                return False
        return ok

    def about_mask(self):
        """Conditions that compute with nothing but the mask and the type of the element at the cursor: the truth values they
        can take together, over the type codes and unions of up to three of them, one list entry per way they can come out."""
        o = Oracle(self.what, self.L, self.fields, 2, 'miss', allk=self.allk)
        tv, mv = mk('sym', 'type'), mk('sym', 'mask')
        conds = {}
        for c in {a for c in self.opened for a in self.atoms(c)}:
            c = not_(c) if c.op == 'not' else c
            d = subst(c, {x: (mv if o.mask(x) else tv) for x in subterms(c) if o.mask(x) or o.ty(x) == 'cur'})
            if not {x for x in subterms(d) if x.op in ('sym', 'call', 'attr', 'ref', 'top', 'new', 'index', 'mu', 'lookup')} - {tv, mv}:
                conds[c] = d
        if self.what != 'type' or not conds:
            return []
        e = self.prog.cls('ucis.cover_type_t.CoverTypeT' if self.acc == 'coverItems' else 'ucis.scope_type_t.ScopeTypeT')
        if e is None:
            return []
        bits = sorted({v.value for v in self.prog.enum_members(e).values() if isinstance(v.value, int) and v.value > 0 and not v.value & (v.value - 1)})
        ms = sorted({a | b | c for a in bits[::3] for b in bits for c in bits[::4] + [a]} | set(bits) | {sum(bits)})
        out = {}
        try:
            for m in ms:
                for t in bits:
                    k = 'eq' if t == m else 'sub' if t & m else 'miss'
                    v = tuple(sorted(((show(c), c), bool(value(d, {tv: t, mv: m}))) for c, d in conds.items()))
                    out.setdefault(k, {}).setdefault(v, (t, m))
        except (Abort, TypeError):
            return []
        base_ = {}
        for k, vs in out.items():
            for (_, c), b in min(vs, key=lambda v: str(v)):
                base_[(c, k)] = b
        res = []
        for k, vs in sorted(out.items()):
            for v in sorted(vs, key=str):
                w = dict(base_)
                w.update({(c, k): b for (_, c), b in v})
                res.append(w)
        return res

    def atoms(self, c):
        if c.op in ('and', 'or', 'not'):
            return [y for x in c.a for y in self.atoms(x)]
        return [c]

    def run(self):
        """All positions at once; where that leaves a condition open, look for a failing position among small ones."""
        keep = list(self.ctx.obs)
        try:
            self.run1()
            return
        except Abort as e:
            why = e
        free = []
        for c in sorted((a for c in self.opened for a in self.atoms(c)), key=show):
            c = not_(c) if c.op == 'not' else c
            if c not in free and self.about_elem(c):
                free.append(c)
        masks = self.about_mask()
        for pos in (0, 1, 2):
            for rem in (2, 3, 4):
                for val in [{c: v for c in free} for v in ((True, False) if free else (True,))] + (masks if (pos, rem) == (0, 2) else []):
                    self.ctx.obs[:] = keep
                    self.world = (pos, rem, val)
                    try:
                        self.run1()
                    except Abort:
                        continue
                    if any(o[0] == 'violation' for o in self.ctx.obs[len(keep):]):
                        return
        self.ctx.obs[:] = keep
        raise why

    def run1(self):
        for it in self.its():
            self.s.m.setdefault(('pos', it), ZERO)
        if any(self.s.m[k].op == 'ref' and self.I.obj(self.s.m[k]).kind != 'inst' for k in self.cells()):
            raise Abort('the iterator holds its own container')
        hits = ('all', 'eq') if self.what == 'kind' else ('eq', 'sub')
        ints = [k for k in self.cells() if k[0] == 'pos' or is_const(self.s.m[k]) and type(self.s.m[k].a[0]) is int]
        cursors = list(ints)
        # fields never assigned by a step are not cursors
        written = set()
        for rem, m in ((2, hits[0]), (2, 'miss')):
            k, r, s, ev, o, start = self.step(rem, m, cursors, {})
            written |= {('f', e.recv, e.name) for e in ev if e.kind == 'setattr'} | {k for k in cursors if k[0] == 'pos'}
        cursors = [k for k in cursors if k in written]
        if not cursors:
            self.fail('the iterator keeps no position: every step returns the same element', ev)
            return
        stale = {}
        for attempt in range(2):
            for m in ('miss',):
                k, r, s, ev, o, start = self.step(2, m, cursors, stale)
                if k == 'stop' or (k == 'return' and r is NONE):
                    self.fail('stops at an element that does not match although more follow', ev)
                    return
                if k == 'return':
                    self.fail('returns %s although the element at the cursor does not match' % show(r)[:80], ev)
                    return
                if k == 'error':
                    raise Abort('step fails')
                new = {}
                for c in set(o.entry) | set(o.back):
                    a, b = o.entry.get(c, start.get(c)), o.back.get(c)
                    if c[0] == 'v' and c not in o.entry:
                        continue
                    if c[0] == 'v' and o.entry and c[1] != getattr(o, 'fid', None):
                        continue
                    if a is b and (a is None or P not in set(subterms(a))):
                        continue
                    if a is not None and b is not None and subst(a, {P: add(P, const(1))}) is b:
                        continue
                    if a is b and c[0] == 'f' and c[1] is self.it:
                        new[c] = C0
                        continue
                    if c[0] == 'f' and c[1] is self.it and c in cursors and b is not None:
                        self.fail('after an element that does not match, the cursor is %s instead of one further' % show(b), ev)
                        return
                    if c[0] == 'v' and a is not None and b is not None and self.dead(c, o):
                        continue
                    raise Abort('state %s differs after a non-matching element' % (c,))
                if new and not stale and set(new) == set(cursors) and not any(
                        P in set(subterms(v)) for c, v in o.entry.items() if c[0] == 'v' and v is not None):
                    self.fail('the cursor does not advance past an element that does not match: iteration never ends', ev)
                    return
                if set(new) - set(stale):
                    stale = new
                else:
                    break
        self.ctx.ok('iteration', self.name + ': element not matching', 'skipped, cursor advances by one')
        for rem in (0, 1):
            k, r, s, ev, o, start = self.step(rem, 'miss', cursors, stale)
            if k == 'stop':
                self.ctx.ok('iteration', self.name + (': end' if rem == 0 else ': last element not matching'), 'StopIteration')
            elif k == 'return':
                self.fail('returns %s when no further element matches' % show(r)[:80], ev)
            elif k == 'again' and rem == 1 and self.onward(o, start, cursors, stale):
                self.ctx.ok('iteration', self.name + ': last element not matching', 'skipped')
            elif k == 'again':
                self.fail('goes on past the end of the list', ev)
            else:
                self.fail('fails at the end of the list', ev)
        for rem in (1, 2):
            for m in hits:
                k, r, s, ev, o, start = self.step(rem, m, cursors, stale)
                label = '%s: %s element of %s' % (self.name, 'last' if rem == 1 else 'an', {'eq': 'the type asked for', 'sub': 'one of the types asked for', 'all': 'any kind'}[m])
                if k != 'return':
                    self.fail('%s is not returned' % label[len(self.name) + 2:], ev)
                    continue
                if o.elem(r) != 'cur':
                    if unknown(r):
                        raise Abort('returns %s' % show(r)[:80])
                    self.fail('returns %s instead of the element at the cursor' % show(r)[:80], ev)
                    continue
                wrong = [c for c in cursors if aff_(s.m.get(c), self.L) != aff_(add(start.get(c, P), const(1)), self.L)]
                if wrong:
                    self.fail('after returning an element the cursor is %s instead of one further' % show(s.m.get(wrong[0], NONE)), ev)
                    continue
                self.ctx.ok('iteration', label, 'returned, cursor advances by one')

    def onward(self, o, start, cursors, stale):
        return all(aff_(o.back.get(c), self.L) == aff_(add(start.get(c, P), const(1)), self.L) or c in stale for c in cursors)

    def dead(self, c, o):
        return False


def value(t, env):
    """Integer or truth value of a term over the given symbols."""
    if t in env:
        return env[t]
    if t.op == 'const':
        v = cval(t)
        if isinstance(v, (int, bool)):
            return v
        raise Abort('constant')
    if t.op == 'and':
        return all(value(x, env) for x in t.a)
    if t.op == 'or':
        return any(value(x, env) for x in t.a)
    if t.op == 'not':
        return not value(t.a[0], env)
    if t.op == 'truth':
        return bool(value(t.a[0], env))
    if t.op == 'eq':
        return value(t.a[0], env) == value(t.a[1], env)
    if t.op == 'ite':
        return value(t.a[1] if value(t.a[0], env) else t.a[2], env)
    if t.op == 'op':
        xs = [value(x, env) for x in t.a[1:]]
        f = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '<': lambda a, b: a < b, '>': lambda a, b: a > b,
             '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
             '-': lambda a, b: a - b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b}.get(t.a[0]) if len(xs) == 2 else \
            {'~': lambda a: ~a, 'invert': lambda a: ~a, 'neg': lambda a: -a, '-': lambda a: -a, 'int': int, 'bool': bool}.get(t.a[0])
        if t.a[0] in ('+', '*', '&', '|') and len(xs) != 2:
            r = xs[0]
            for x in xs[1:]:
                r = r + x if t.a[0] == '+' else r * x if t.a[0] == '*' else r & x if t.a[0] == '&' else r | x
            return r
        if t.a[0] in ('+', '*') and len(xs) == 2:
            return xs[0] + xs[1] if t.a[0] == '+' else xs[0] * xs[1]
        if f is not None:
            return f(*xs)
    raise Abort('value of %s' % show(t)[:60])


def aff_(t, L):
    f = aff(t, L) if t is not None else None
    return t if f is None else {k: v for k, v in f.items() if v}


def fields_of(prog, cls, getter):
    """Names of the fields a getter returns."""
    c = prog.cls(cls)
    out = set()
    if c is None:
        return out
    for k in prog.mro(c):
        fi = k.methods.get(getter)
        if fi is not None:
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name):
                    out.add(n.value.attr)
            if out:
                break
    return out


def list_fields(I, s, o):
    return [k for k in s.m if k[0] == 'f' and k[1] is o and ((s.m[k].op == 'ref' and I.obj(s.m[k]).kind in ('list', 'set', 'dict')) or (s.m[k].op == 'sym' and s.m[k].a[0].startswith('L_')))]


def effects(ctx, I, name, ev, fresh):
    """Writes to anything but objects made by this very call."""
    for e in ev:
        t = e.recv
        if e.kind == 'setattr' and t is not None and not (t.op == 'ref' and t.a[0] in fresh):
            ctx.viol('no-effect', name, 'assigns %s of an object that outlives the iteration' % e.name, where(e))
            return False
        if e.kind == 'setglobal':
            ctx.viol('no-effect', name, 'assigns the global %s' % e.name, where(e))
            return False
        if e.kind == 'cont' and t is not None and t.op == 'ref' and t.a[0] not in fresh:
            ctx.viol('no-effect', name, 'changes a container that outlives the iteration', where(e))
            return False
        if e.kind == 'call' and not getattr(e, 'pure', True) and t is not None and root_of(t).op == 'sym' and root_of(t).a[0].startswith('L_') and t is root_of(t):
            ctx.viol('no-effect', name, 'calls %s on the list of children' % e.name, where(e))
            return False
    return True


def fresh_after(I, before, fresh):
    return {x for x in I.heap.values() if x not in before and x not in fresh}


def probe(ctx, prog, I, st, kind, o, acc):
    what, ecls, eget = ACC[acc]
    name = '%s.%s' % (kind, acc)
    s = st.fork()
    Ls = {}
    for k in list_fields(I, s, o):
        L = s.m[k] if s.m[k].op == 'sym' else mk('sym', 'L_' + k[2])
        Ls[L] = k[2]
        s.m[k] = L
    before = set(I.heap.values()) if isinstance(I.heap, dict) else set()
    mark = len(I.log)
    r, s1, ev = call(I, s, o, acc, [M])
    if failed(s1, ev):
        ctx.viol('iteration', name, '%s fails' % acc, where(ev[-1]) if ev else '')
        return None
    r2, s2, ev2 = call(I, s1, o, acc, [M])
    fresh = {x for x in I.heap.values() if x not in before}
    if r.op == 'ref' and r2.op == 'ref' and r.a[0] is r2.a[0]:
        ctx.viol('independent', name, 'two calls return the same iterator object', where(ev[-1]) if ev else '')
        return None
    allk = enumc(prog, 'ucis.history_node_kind.HistoryNodeKind', 'ALL')
    fields = fields_of(prog, ecls, eget)
    while r.op == 'ref' and I.obj(r).kind == 'inst':
        # an iterator that only hands on what another one yields
        fi = prog.find_method(I.class_of(r), '__next__')
        body = [n for n in fi.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))] if fi else []
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Call) and len(body[0].value.args) == 1 \
                and isinstance(body[0].value.func, ast.Name) and body[0].value.func.id == 'next' and isinstance(body[0].value.args[0], ast.Attribute) \
                and isinstance(body[0].value.args[0].value, ast.Name) and ('f', r, body[0].value.args[0].attr) in s1.m:
            r = s1.m[('f', r, body[0].value.args[0].attr)]
        else:
            break
    if r.op == 'ref' and I.obj(r).kind == 'inst':
        cls = I.class_of(r)
        cells = {k[2]: v for k, v in s1.m.items() if k[0] == 'f' and k[1] is r}
        doms = [base(v) for v in cells.values() if base(v) in Ls]
        if prog.find_method(cls, '__next__') and len(set(doms)) == 1:
            L = doms[0]
            if not effects(ctx, I, name, ev, fresh):
                return None
            it, s3, ev3 = call(I, s1, r, '__iter__', [])
            if it is not r:
                ki = I.class_of(it) if it.op == 'ref' else None
                if ki is not None and prog.find_method(ki, '__next__') and it.a[0] in fresh_after(I, before, fresh):
                    ctx.viol('iteration', name, 'looping over a started iteration starts another one: children already yielded come again', where(ev3[-1]) if ev3 else '')
                    return None
                raise Abort('__iter__ returns %s' % show(it)[:60])
            # class-level state
            for k, v in cells.items():
                pass
            mark = len(I.log)
            n0 = len(ctx.obs)
            why = None
            try:
                Cursor(ctx, prog, I, kind, acc, r, s1, L, fields, allk).run()
            except Abort as e:
                why = e
            ev = I.log[mark:]
            inits = {k[2] for k in s1.m if k[0] == 'f' and k[1] is r}
            for e in ev:
                if e.kind == 'setattr' and e.recv is not None and e.recv is not r:
                    ctx.viol('independent', name, 'a step assigns %s of %s, not of the iterator' % (e.name, show(e.recv)[:60]), where(e))
                    return None
                if e.kind == 'setattr' and e.recv is r and e.name not in inits:
                    ctx.und('independent', name, 'step assigns new field %s' % e.name, where(e))
            if effects(ctx, I, name, ev, fresh) and why is not None:
                raise why
            ctx.ok('independent', name, 'fresh iterator per call; its position lives in the iterator')
            return Ls[L]
    # anything that can be looped over
    s3 = s1.fork()
    mark = len(I.log)
    _n[0] += 1
    I.callq('verif_obs_iter.drain', [OBS, r], st=s3, tag=('drain', _n[0]))
    ev3 = I.log[mark:]
    fresh = {x for x in I.heap.values() if x not in before}
    items = [e for e in ev3 if e.kind == 'call' and e.recv is OBS and e.name == 'ITEM']
    if not items:
        ctx.viol('iteration', name, 'yields nothing', where(ev[-1]) if ev else '') if r.op == 'ref' and not unknown(r) and I.contents(r, s1) == [] else ctx.und('iteration', name, 'result is %s' % show(r)[:80])
        return None
    if len(items) > 1:
        raise Abort('%d places yield elements' % len(items))
    e = items[0]
    if len(e.loops) != 1 or base(strip_it(e.loops[0].domain)) not in Ls:
        if len(e.loops) == 1 and not unknown(e.loops[0].domain):
            d = strip_it(e.loops[0].domain)
            if d.op in ('sorted', 'reversed', 'slice') and base(strip_it(d.a[0])) in Ls:
                ctx.viol('iteration', name, 'goes through %s, not the children in creation order' % show(d)[:80], where(e))
                return None
        raise Abort('iterates %s' % show(e.loops[0].domain if e.loops else r)[:80])
    LP = e.loops[0]
    L = base(strip_it(LP.domain))
    el = e.args[0]
    cur = mk('elem', LP)
    if el is not cur and not (el.op == 'index' and base(el.a[0]) is L and el.a[1] is mk('idx', LP)):
        if unknown(el):
            raise Abort('yields %s' % show(el)[:80])
        ctx.viol('iteration', name, 'yields %s instead of the child' % show(el)[:80], where(e))
        return None
    hits = ('all', 'eq') if what == 'kind' else ('eq', 'sub')
    for t in truncs(LP):
        ctx.viol('iteration', name, 'stops early when %s' % show(t)[:80], where(e)) if not unknown(t) else ctx.und('iteration', name, 'may stop early')
        return None
    cond = and_([c for c, t in e.guards])
    for m in hits + ('miss',):
        q = Oracle(what, L, fields, 2, m, cur=el, allk=allk)
        c = q.decide(cond)
        want = FALSE if m == 'miss' else TRUE
        if c is want:
            ctx.ok('iteration', '%s: %s' % (name, m), 'yielded' if want is TRUE else 'skipped')
        elif c in (TRUE, FALSE):
            ctx.viol('iteration', name, 'a child %s is %s' % ({'miss': 'that does not match', 'eq': 'of the type asked for', 'sub': 'of one of the types asked for', 'all': 'of any kind, all being asked for,'}[m],
                     'yielded' if c is TRUE else 'left out'), where(e))
        else:
            ctx.und('iteration', name, 'condition %s' % show(c)[:80])
    if effects(ctx, I, name, ev + ev3, fresh):
        ctx.ok('independent', name, 'nothing is kept between iterations')
    return Ls[L]


def c15(ctx, prog):
    ctx.rule('iteration', 'one step from a generic position: matching element returned and cursor one further, non-matching skipped, end signalled')
    ctx.rule('independent', 'every call makes a fresh iterator whose position is its own')
    ctx.rule('no-effect', 'iterating assigns nothing but the iterator itself')
    prog.add_source('verif_obs_iter', SRC)
    I, st, kinds = build(prog)
    for kind, o in kinds[0].items():
        if o.op != 'ref':
            ctx.und('iteration', kind, 'object is %s' % show(o)[:60])
            continue
        ms = methods_of(prog, I, o)
        for acc in ACC:
            if acc not in ms:
                continue
            if acc == 'historyNodes' and kind != 'database':
                continue
            try:
                probe(ctx, prog, I, st, kind, o, acc)
            except Abort as e:
                I.oracle = None
                ctx.und('iteration', '%s.%s' % (kind, acc), str(e))
    ctx.absorb(I)
