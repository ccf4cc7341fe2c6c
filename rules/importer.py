"""Importers: documents read into a fresh in-memory database.  The reader runs abstractly on an
opaque document; every create call on the result is matched against the document item it mirrors
(instance level: one per item; type level: one per name over all instances, counts summed)."""
from .base import *
from .mirror import *

SCOPE = 'ucis.scope_type_t.ScopeTypeT'
COVER = 'ucis.cover_type_t.CoverTypeT'


def rewrite(t, f, memo=None):
    """Bottom-up rewriting."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]

    def go(x):
        if isinstance(x, T):
            return rewrite(x, f, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    na = [go(x) for x in t.a]
    r = t if all(x is y or x == y for x, y in zip(na, t.a)) else rebuild_(t.op, na)
    r = f(r)
    memo[t] = r
    return r


def rebuild_(op, a):
    from vflow.terms import rebuild
    return rebuild(op, a)


def bare(k):
    """A key without its constant parts."""
    if k.op == 'tuple':
        v = [x for x in k.a if x.op != 'const']
        if len(v) == 1:
            return v[0]
    return k


def apart(a, b):
    """Two keys that differ in a constant part."""
    return a.op == b.op == 'tuple' and len(a.a) == len(b.a) and any(x.op == y.op == 'const' and x is not y for x, y in zip(a.a, b.a))


class CEv(object):
    """Event with canonical terms."""

    def __init__(self, e, f):
        self.e = e
        self.kind, self.name, self.site, self.stack, self.result, self.loops = e.kind, e.name, e.site, e.stack, e.result, e.loops
        self.args = [f(a) for a in e.args or ()]
        self.kw = e.kw
        self.recv = None if e.recv is None else f(e.recv)
        self.guards = [(fresh(f(c)), t) for c, t in e.guards]
        self.guards = [(c, t) for c, t in self.guards if c is not TRUE]


def fresh(c):
    """First occurrence of a key, in one form."""
    if c.op == 'uniq':
        return mk('fresh', c.a[0], strip_it(c.a[1]))
    if c.op == 'not' and c.a[0].op == 'in' and c.a[0].a[1].op == 'ref':
        return mk('fresh', c.a[0].a[0], c.a[0].a[1])
    return c


class Importer(object):
    """adapter methods: canon(t), chain(el) -> (root, [(Loop, tag)]) or None."""

    def __init__(self, ctx, I, db, ad, prog):
        self.ctx, self.I, self.db, self.ad, self.prog = ctx, I, db, ad, prog
        memo = {}
        self.canon = lambda t: rewrite(t, ad.rule, memo)
        self.ev = [CEv(e, self.canon) for e in I.log if e.kind == 'call' and not e.pure and e.name.startswith('create') and e.recv is not None]
        self.rz = Conditions()
        for e in I.log:
            if e.kind == 'raise' and e.guards:
                gs = [fresh(self.canon(c)) for c, t in e.guards]
                for i in range(len(gs)):
                    self.rz.add(not_(and_(gs[i:])))
                    self.rz.update(not_(x) for x in gs[-1:])
                self.rz.add(not_(self.canon(e.guards[-1][0])))
        # a failing lookup of a crossed coverpoint
        self.used = set()

    def fail(self, rule, construct, msg, e, terms=()):
        u = [x for t in terms for x in unknown(t)]
        if u:
            self.ctx.und(rule, construct, '%s (not resolved: %s)' % (msg, show(u[0])[:120]), where(e) if e is not None else '')
        else:
            self.ctx.viol(rule, construct, msg, where(e) if e is not None else '')

    def one(self, construct, e, i, what, forms=(), rule='defaults'):
        """An argument the document says nothing about is 1 (forms: terms it may have as well)."""
        t = e.args[i] if len(e.args) > i else NONE
        ls = list(leaves(t))
        bad = [x for x in ls if x not in forms and x is not const(1)]
        if any(x is t for x in forms) or not bad:
            self.ctx.ok(rule, '%s %s' % (construct, what), '1', where(e))
        elif all(x.op == 'const' for x in ls):
            self.fail(rule, '%s %s' % (construct, what), 'is %s instead of 1' % show(t)[:100], e)
        elif const(1) in ls and any('attr' in (y.op for y in subterms(x)) or 'xa' in (y.op for y in subterms(x)) for x in bad):
            self.ctx.ok(rule, '%s %s' % (construct, what), '1 when the document does not give it', where(e))
        else:
            self.fail(rule, '%s %s' % (construct, what), 'is %s' % show(t)[:140], e, [t])

    def on(self, e, parent):
        if parent is None:
            return any(x is self.db for x in leaves(e.recv))
        r = parent.result
        return any(x.op == 'new' and x.a[0] == r.a[0] and x.a[1] == r.a[1] for x in leaves(e.recv))

    def creates(self, meth, parent, construct, rule='once'):
        evs = [e for e in self.ev if e.name == meth and self.on(e, parent)]
        self.used.update(evs)
        if not evs:
            loose = [e for e in self.ev if e.name == meth and unknown(e.recv)]
            if loose:
                self.ctx.und(rule, construct, 'receiver of %s is not resolved: %s' % (meth, show(loose[0].recv)[:100]), where(loose[0]))
            else:
                self.fail(rule, construct, 'no %s is ever performed on the imported parent' % meth, parent)
        return evs

    def item(self, e, path, after=None):
        """Document item driving e: the innermost loop whose elements lie on path (later than the loops in after)."""
        for l in reversed(e.loops):
            ch = self.ad.chain(mk('elem', l))
            if ch is not None and tuple(t for L, t in ch[1]) == path and ch[0] is not None:
                return mk('elem', l), [L for L, t in ch[1]]
        return None

    def rel(self, e, parent):
        pg = set()
        if parent is not None:
            for c, t in parent.guards:
                pg.update(conj([c]))
        out = []
        for c, t in e.guards:
            for d in conj([c]):
                if d in pg or t == 'raise' or d in self.rz or c in self.rz or implied(d, e.loops) or self.reached(d, e.loops):
                    continue
                out.append(d)
        return out

    def reached(self, d, loops):
        """x is not None, when a loop runs over something inside x"""
        if d.op != 'not' or d.a[0].op != 'isnone':
            return False
        for l in loops:
            x = self.canon(strip_it(l.domain))
            while x.op == 'attr':
                x = x.a[0]
                if x is d.a[0].a[0]:
                    return True
        return False

    def placed(self, construct, e, path):
        """No item on path: what is it driven by?"""
        chs = [self.ad.chain(mk('elem', l)) for l in e.loops]
        got = ['/'.join(t for L, t in c[1]) for c in chs if c]
        self.fail('once', construct, 'driven by %s instead of %s' % (got[-1] if got else 'no document item', '/'.join(path)), e, [l.domain for l in e.loops])

    def exact(self, construct, e, parent, path, shared, drop=()):
        """One create per item of path below the item of the parent.  shared: loops that identify the parent's item."""
        it = self.item(e, path)
        if it is None:
            self.placed(construct, e, path)
            return None
        el, loops = it
        pl = list(parent.loops) if parent is not None else []
        bad = False
        if not all(L in shared for L in loops[:-1]):
            self.fail('own-parent', construct, 'items of other parents are created here as well', e, [L.domain for L in loops])
            bad = True
        other = [l for l in e.loops if l not in pl and l not in loops]
        if other and not bad:
            bad = True
            self.fail('once', construct, 'repeated for each element of %s' % show(other[0].domain)[:120], e, [l.domain for l in other])
        tr = [c for l in loops if l not in pl for c in truncs(l)]
        tr = [self.canon(c) for c in tr]
        if tr and not bad:
            bad = True
            self.fail('once', construct, 'the iteration stops early when %s' % show(or_(tr))[:160], e, tr)
        cs = [c for c in self.rel(e, parent) if c not in drop]
        c = and_(cs)
        if not bad:
            self.conds.setdefault(construct, []).append((c, e))
        return el, loops

    conds = None

    def settle(self, construct, rule='once'):
        """All conditions of the creates of one construct together cover every case once."""
        l = self.conds.pop(construct, None)
        if not l:
            return
        cs = [c for c, e in l]
        e = l[0][1]
        if len(cs) == 1 and cs[0] is TRUE or (TRUE not in cs and len(cs) > 1 and valid(or_(cs)) and not any(
                not table(and_([a, b]))[1] for i, a in enumerate(cs) for b in cs[:i])):
            self.ctx.ok(rule, construct, '', where(e))
        elif len(cs) > 1 and (TRUE in cs or valid(or_(cs))):
            self.fail(rule, construct, 'created more than once', e, cs)
        elif valid(or_(cs)):
            self.ctx.ok(rule, construct, '', where(e))
        else:
            self.fail(rule, construct, 'created only if %s' % show(or_(cs))[:200], e, cs)

    def distinct(self, construct, e, parent, path, keyf, lifetime, levels, rule='distinct'):
        """One create per distinct key.  lifetime: sets of loops the table of seen keys may live in.
        levels: {index in path: key term the item at that level must agree with}."""
        rg = self.rel(e, parent)
        hit = wrong = None
        for c in rg:
            if c.op == 'fresh':
                for l in reversed(e.loops):
                    el = mk('elem', l)
                    ch = self.ad.chain(el)
                    if ch is not None and tuple(t for L, t in ch[1]) == path and bare(c.a[0]) is self.canon(keyf(el)):
                        hit = (c, el, [L for L, t in ch[1]])
                        break
                if hit:
                    break
                wrong = c
        if hit is None:
            it = self.item(e, path)
            odd = [c for c in rg if any(x.op == 'ref' for x in subterms(c)) and c.op != 'fresh']
            only = [c for c in odd if c.op == 'not' and c.a[0].op == 'nonempty' and c.a[0].a[0].op == 'ref' and
                    any(x.name in ('store', 'add', 'append') for x in c.a[0].a[0].a[0].events) and it is not None and it[1][-1] not in c.a[0].a[0].a[0].loops]
            if only:
                self.ctx.viol(rule, construct, 'created only as long as %s is empty, not once per name' % show(only[0].a[0].a[0]), where(e))
            elif it is not None and wrong is None and odd:
                self.ctx.und(rule, construct, 'created if %s' % show(odd[0])[:160], where(e))
            elif it is not None and wrong is None:
                self.fail(rule, construct, 'created once per occurrence, not once per name', e, rg)
            elif it is not None:
                self.fail(rule, construct, 'deduplicated by %s instead of the name' % show(wrong.a[0])[:140], e, [wrong.a[0]])
            else:
                self.placed(construct, e, path)
            return None
        g, el, loops = hit
        pl = list(parent.loops) if parent is not None else []
        bad = False
        used = {g}
        for i, L in enumerate(loops[:-1]):
            want = levels.get(i, 'same')
            if want == 'same':
                if L not in pl:
                    bad = True
                    self.fail('own-parent', construct, 'items of other parents (%s) are collected as well' % '/'.join(path[:i + 1]), e, [L.domain])
                    break
                continue
            if L in pl and want is not None and want != 'any':
                bad = True
                self.fail('every-instance', construct, 'only the first instance that has the parent contributes', e)
                break
            if want is None or want == 'any':
                continue
            kf, key = want
            c = eq(self.canon(kf(mk('elem', L))), key)
            if c is TRUE or c in rg:
                used.add(c)
            else:
                bad = True
                self.fail('own-parent', construct, 'items of differently named parents (%s) are collected together' % '/'.join(path[:i + 1]), e, rg)
                break
        tr = [self.canon(c) for l in e.loops if l not in pl for c in truncs(l)]
        if tr and not bad:
            bad = True
            self.fail('every-instance', construct, 'the iteration stops early when %s' % show(or_(tr))[:160], e, tr)
        ref = g.a[1]
        if ref.op == 'ref' and not bad:
            ob = ref.a[0]
            if ob.shared or not any(set(ob.loops) == set(x) for x in lifetime):
                bad = True
                self.fail(rule, construct, 'the table of names already seen %s' % (
                    'is shared with other parents, so an equal name there is dropped' if ob.shared or any(set(ob.loops) < set(x) for x in lifetime)
                    else 'is renewed too often, so a name can be created twice'), e)
            else:
                st = [x for x in ob.events if x.name in ('store', 'add', 'append', 'aug')]
                ks = [self.canon(x.key if x.name in ('store', 'aug') else x.value) for x in st]
                ks = [k for k in ks if not apart(k, g.a[0])]
                same = [k for k in ks if self.samekey(k, g.a[0])]
                if not same:
                    bad = True
                    self.fail(rule, construct, 'the name is never entered in the table it is looked up in', e, ks)
                elif len(same) != len(ks):
                    bad = True
                    self.fail(rule, construct, 'the table of names also holds %s' % show([k for k in ks if k not in same][0])[:100], e, ks)
        elif not bad:
            bad = True
            self.ctx.und(rule, construct, 'table %s' % show(ref)[:100], where(e))
        rest = [c for c in rg if c not in used and not (c.op == 'fresh' and c.a[1] is ref)]
        other = [l for l in e.loops if l not in pl and l not in loops]
        other = [l for l in other if not self.replay(l, rest)]
        if other and not bad:
            bad = True
            self.fail(rule, construct, 'repeated for each element of %s' % show(other[0].domain)[:120], e, [l.domain for l in other])
        rest = [c for c in rest if c not in self.dropped]
        if not bad:
            self.conds.setdefault(construct, []).append((and_(rest), e))
        return el, loops, bad

    dropped = ()

    def replay(self, l, rest):
        return False

    def samekey(self, a, b):
        """The same key expression, up to copies of loops."""
        if a is b:
            return True
        mp = {}
        for la in free_loops(a):
            for lb in free_loops(b):
                if la.root() is lb.root():
                    mp[la] = lb
        return bool(mp) and rename(a, mp) is b or self.shape(a) == self.shape(b)

    def shape(self, t):
        def go(x):
            if isinstance(x, T):
                if x.op == 'elem':
                    ch = self.ad.chain(x)
                    return ('elem',) + (tuple(t for L, t in ch[1]) if ch else (x.a[0].root().id,))
                if x.op in ('or', 'and'):
                    return (x.op, frozenset(go(y) for y in x.a))
                return (x.op,) + tuple(go(y) for y in x.a)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, Loop):
                return x.root().id
            return x
        return go(t)

    def sumcount(self, construct, t, e, path, valf, common, levels):
        """t = sum over all items on path agreeing with levels of valf(item)."""
        t = self.canon(t)
        ts = list(t.a[1:]) if t.op == 'op' and t.a[0] == '+' else [t]
        sums = [x for x in ts if x.op == 'sum']
        rest = [x for x in ts if x.op != 'sum' and x is not ZERO]
        if len(sums) != 1 or rest:
            if not sums and t.op in ('first', 'last', 'lastkey', 'lastcell', 'firstkey', 'xa', 'attr') or self.plain(t):
                self.fail('type-count', construct, 'the count is that of a single instance, not the sum over the instances', e, [t])
            else:
                self.fail('type-count', construct, 'the count is %s, not the sum over the instances' % show(t)[:200], e, [t])
            return
        loops, conds, v = sums[0].a
        cs = conj([self.canon(c) for c in conds])
        rz = {self.shape(c) for c in self.rz if not isinstance(c, tuple)}
        cs = [c for c in cs if c is not TRUE and c not in self.rz and self.shape(c) not in rz and not implied(c, loops)]
        hit = None
        for l in loops:
            el = mk('elem', l)
            ch = self.ad.chain(el)
            if ch is not None and tuple(x for L, x in ch[1]) == path and valf(el, v):
                hit = ch
        if hit is None:
            self.fail('type-count', construct, 'sums %s over %s' % (show(v)[:120], '; '.join(show(l.domain)[-40:] for l in loops)), e, [v] + [l.domain for l in loops])
            return
        cl = [L for L, x in hit[1]]
        for i, L in enumerate(cl):
            if i < len(common):
                if L is not common[i]:
                    self.fail('type-count', construct, 'counts of other parents (%s) are added' % '/'.join(path[:i + 1]), e)
                    return
                continue
            if L not in loops:
                self.fail('type-count', construct, 'the sum does not range over all instances', e)
                return
            want = levels.get(i)
            if want is None:
                continue
            kf, key = want
            ck = self.canon(kf(mk('elem', L)))
            c = eq(ck, key)
            if c is not TRUE:
                # the key, or anything the create call's own guards make equal to it
                same = [x for q, t in e.guards for x in q.a[1:] if q.op == 'op' and q.a[0] == '==' and key in q.a[1:]]
                c = ([c] + [y for y in (eq(ck, x) for x in same) if y in cs])[-1]
                if c not in cs:
                    self.fail('type-count', construct, 'counts of differently named items (%s) are added together' % '/'.join(path[:i + 1]), e, cs)
                    return
                cs = [x for x in cs if x is not c]
        other = [l for l in loops if l not in cl]
        if other:
            self.fail('type-count', construct, 'each count is added once per element of %s' % show(other[0].domain)[:100], e, [l.domain for l in other])
            return
        tr = [self.canon(c) for l in cl for c in truncs(l)]
        if tr:
            self.fail('type-count', construct, 'the accumulation stops early when %s' % show(or_(tr))[:160], e, tr)
            return
        if cs and not valid(and_(cs)):
            self.fail('type-count', construct, 'a count is added only if %s' % show(and_(cs))[:200], e, cs)
            return
        self.ctx.ok('type-count', construct, 'sum over %s' % '/'.join(path), where(e))

    def plain(self, t):
        return t.op == 'int' or (t.op == 'call' and t.a[1] in ('int',)) or t.op == 'op' and t.a[0] == 'int'

    def link(self, construct, e, arg, namef, owner, table_loops, key_of_stored, parent):
        """The list of crossed coverpoints: in document order, each the coverpoint of that name of the same parent."""
        ctx = self.ctx
        if arg.op != 'ref' or arg.a[0].kind != 'list':
            self.fail('cross-link', construct, 'the coverpoint list is %s' % show(arg)[:120], e, [arg])
            return
        ob = arg.a[0]
        if any(x.name in ('sort', 'reverse', 'insert') for x in ob.events):
            self.fail('cross-link', construct, 'the coverpoint list is reordered', e)
            return
        cs = self.I.contents(arg, State(None, e.e.guards))
        cs = [c for c in cs or [] if not c.fill]
        if len(cs) != 1:
            self.fail('cross-link', construct, 'the coverpoint list is filled from %d places' % len(cs), e, [c.value for c in cs])
            return
        c = cs[0]
        v = self.canon(c.value)
        if v.op == 'ite' and v.a[0].op == 'in' and v.a[2] is NONE:
            v = v.a[1]
        nm, wantl = namef(c)
        if nm is None:
            self.fail('cross-link', construct, 'does not follow the coverpoint names of the cross: %s' % '; '.join(show(l.domain)[:80] for l in c.loops[-2:]), e, [l.domain for l in c.loops])
            return
        tr = [self.canon(x) for x in truncs(wantl)]
        if tr and any(x not in [not_(q) for q in self.rz if not isinstance(q, tuple)] and x not in self.rz for x in tr):
            self.fail('cross-link', construct, 'stops before all crossed coverpoints are linked', e, tr)
            return
        pg = {fresh(self.canon(q)) for q, t in e.e.guards}
        extra = [q for q, t in [(fresh(self.canon(q)), t) for q, t in c.guards] if q not in pg and t != 'raise' and q not in self.rz and q is not TRUE and not implied(q, c.loops)]
        if extra:
            self.fail('cross-link', construct, 'a crossed coverpoint is linked only if %s' % show(and_(extra))[:160], e, extra)
            return
        made = [x for x in self.ev if x.name == 'createCoverpoint']
        if v.op == 'lookup' and v.a[0].op == 'ref':
            dref, key = v.a
            if key not in nm:
                self.fail('cross-link', construct, 'looks up %s instead of the name of the crossed coverpoint' % show(key)[:120], e, [key])
                return
            self.table(construct, dref.a[0], e, owner, table_loops, key_of_stored, made)
            return
        if v.op == 'index' and v.a[0].op == 'lookup' and v.a[0].a[0].op == 'ref' and v.a[1].op == 'const':
            lk = v.a[0]
            if lk.a[1] not in nm:
                self.fail('cross-link', construct, 'looks up %s instead of the name of the crossed coverpoint' % show(lk.a[1])[:120], e, [lk.a[1]])
                return
            self.table(construct, lk.a[0].a[0], e, owner, table_loops, key_of_stored, made, pos=cval(v.a[1]))
            return
        self.fail('cross-link', construct, 'links %s instead of the coverpoint of that name' % show(v)[:160], e, [v])

    def table(self, construct, dob, e, owner, table_loops, key_of_stored, made, pos=None):
        if dob.shared or not any(set(dob.loops) == set(x) for x in table_loops):
            self.fail('cross-link', construct, 'the table of coverpoints is not the one of this covergroup', e)
            return
        st = [x for x in dob.events if x.name == 'store']
        ok = bool(st)
        if not st:
            self.fail('cross-link', construct, 'the table of coverpoints is never filled', e)
        for s in st:
            v = self.canon(s.value)
            if pos is not None and v.op == 'tuple' and isinstance(pos, int) and pos < len(v.a):
                v = v.a[pos]
            cp = [c for c in made if c.result is v]
            if not cp or not self.on(cp[0], owner):
                ok = False
                self.fail('cross-link', construct, 'the coverpoint table holds %s' % show(v)[:100], s, [v])
                continue
            k = self.canon(s.key)
            if not key_of_stored(cp[0], k):
                ok = False
                self.fail('cross-link', construct, 'a coverpoint is filed under %s' % show(k)[:100], s, [k])
            pgs = {fresh(self.canon(q)) for q, t in cp[0].e.guards}
            xg = [q for q in [fresh(self.canon(q)) for q, t in s.guards] if q not in pgs and q not in self.rz and q is not TRUE and not implied(q, s.loops)
                  and not (q.op == 'fresh')]
            if xg:
                ok = False
                self.fail('cross-link', construct, 'a coverpoint is entered in the table only if %s' % show(and_(xg))[:140], s, xg)
        if ok:
            self.ctx.ok('cross-link', construct, 'in document order, by name, within the same parent', where(e))
