"""C16: creation operations of the in-memory database."""
from .base import *
from .mirror import *
from .mem import build, methods_of, call, failed
from . import iters
import ast

SRC = '''
from ucis.source_info import SourceInfo

def src(file, line, token):
    return SourceInfo(file, line, token)
'''
# label, kind of parent, method, arguments, accessor that shows the object, what the getters return
SCOPE = [('getScopeName', 'name'), ('getSourceInfo', 'src'), ('getWeight', 'weight')]
OPS = [
    ('history node', ['database'], 'createHistoryNode', ['parent', 'logical', 'physical', 'kind'], 'historyNodes',
     [('getParent', 'parent'), ('getLogicalName', 'logical'), ('getPhysicalName', 'physical'), ('getKind', 'kind')]),
    ('design unit', ['database'], 'createScope', ['name', 'src', 'weight', 'source', 'DU_MODULE', 'flags'], 'scopes', SCOPE + [('getScopeType', 'DU_MODULE')]),
    ('instance', ['database', 'instance'], 'createInstance', ['name', 'src', 'weight', 'source', 'INSTANCE', 'du', 'flags'], 'scopes',
     SCOPE + [('getScopeType', 'INSTANCE'), ('getInstanceDu', 'du')]),
    ('toggle', ['instance'], 'createToggle', ['name', 'canonical', 'flags', 'metric', 'ttype', 'dir'], 'scopes', [('getScopeName', 'name'), ('getScopeType', 'TOGGLE')]),
    ('covergroup', ['instance', 'database'], 'createCovergroup', ['name', 'src', 'weight', 'source'], 'scopes', SCOPE + [('getScopeType', 'COVERGROUP')]),
    ('covergroup', ['instance', 'design unit'], 'createScope', ['name', 'src', 'weight', 'source', 'COVERGROUP', 'flags'], 'scopes', SCOPE + [('getScopeType', 'COVERGROUP')]),
    ('covergroup instance', ['covergroup'], 'createCoverInstance', ['name', 'src', 'weight', 'source'], 'scopes', SCOPE + [('getScopeType', 'COVERINSTANCE')]),
    ('covergroup instance', ['covergroup'], 'createScope', ['name', 'src', 'weight', 'source', 'COVERINSTANCE', 'flags'], 'scopes', SCOPE + [('getScopeType', 'COVERINSTANCE')]),
    ('coverpoint', ['covergroup', 'covergroup instance'], 'createCoverpoint', ['name', 'src', 'weight', 'source'], 'scopes', SCOPE + [('getScopeType', 'COVERPOINT')]),
    ('coverpoint', ['covergroup', 'covergroup instance'], 'createScope', ['name', 'src', 'weight', 'source', 'COVERPOINT', 'flags'], 'scopes', SCOPE + [('getScopeType', 'COVERPOINT')]),
    ('cross', ['covergroup', 'covergroup instance'], 'createCross', ['name', 'src', 'weight', 'source', 'points'], 'scopes',
     SCOPE + [('getScopeType', 'CROSS'), ('crossed', 'points')]),
    ('bin', ['coverpoint', 'cross'], 'createBin', ['name', 'src', 'atleast', 'count', 'rhs', 'bkind'], 'coverItems',
     [('getName', 'name'), ('getSourceInfo', 'src'), ('data', 'count'), ('at_least', 'atleast'), ('type', 'bkind')]),
    ('bin', ['coverpoint', 'cross'], 'createBin', ['name', 'src', 'atleast', 'count', 'rhs'], 'coverItems',
     [('getName', 'name'), ('getSourceInfo', 'src'), ('data', 'count'), ('at_least', 'atleast'), ('type', 'CVGBIN')]),
    ('cover item', ['coverpoint', 'cross', 'instance', 'toggle'], 'createNextCover', ['name', 'cdata', 'src'], 'coverItems',
     [('getName', 'name'), ('getSourceInfo', 'src'), ('getCoverData', 'cdata')]),
]
ST = 'ucis.scope_type_t.ScopeTypeT'
CT = 'ucis.cover_type_t.CoverTypeT'


class Creator(object):
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        prog.add_source('verif_obs_create', SRC)
        prog.add_source('verif_obs_iter', iters.SRC)
        self.I, self.st, self.kinds = build(prog)
        self.lists = {}          # (object, accessor) -> field, None when not found
        self.n = 0

    def field(self, kind, o, acc):
        """The field whose contents the accessor shows."""
        k = (o, acc)
        if k not in self.lists:
            c = Ctx('probe')
            try:
                self.lists[k] = iters.probe(c, self.prog, self.I, self.st, kind, o, acc)
            except Abort:
                self.I.oracle = None
                self.lists[k] = None
        return self.lists[k]

    def arg(self, a, n, st):
        I = self.I
        if a in ('DU_MODULE', 'INSTANCE', 'TOGGLE', 'COVERGROUP', 'COVERINSTANCE', 'COVERPOINT', 'CROSS'):
            return enumc(self.prog, ST, a)
        if a == 'CVGBIN':
            return enumc(self.prog, CT, a)
        if a == 'src':
            return I.callq('verif_obs_create.src', [mk('sym', 'file%d' % n), mk('sym', 'line%d' % n), mk('sym', 'token%d' % n)], st=st, tag=('src', n))
        return mk('sym', '%s%d' % (a, n))

    def fail(self, rule, c, msg, ev, terms=()):
        w = ''
        for e in reversed(ev or ()):
            if e.site is not None and e.stack and not e.stack[-1].startswith('verif'):
                w = where(e)
                break
        u = [x for t in terms for x in unknown(t)]
        if u:
            self.ctx.und(rule, c, '%s (not resolved: %s)' % (msg, show(u[0])[:80]), w)
        else:
            self.ctx.viol(rule, c, msg, w)

    def own(self):
        """Every object has lists of its own."""
        names = {}
        for ks in self.kinds:
            for k, o in ks.items():
                names[o] = k
        seen = 0
        for l, who in self.I.owners.items():
            os = {o for o, f in who}
            seen += 1
            if len(os) > 1:
                self.ctx.viol('own-list', ' / '.join(sorted({names.get(o, '?') + '.' + f for o, f in who})), 'different objects share one list of children', '')
        # lists that are not fields of the object
        for kind, o in self.kinds[0].items():
            o2 = self.kinds[1].get(kind)
            if o.op != 'ref' or o2 is None or o2.op != 'ref':
                continue
            for acc in iters.ACC:
                if acc in methods_of(self.prog, self.I, o) and (acc != 'historyNodes' or kind == 'database') and self.field(kind, o, acc) is None:
                    a, b = [self.reach(x, acc) for x in (o, o2)]
                    if a & b:
                        self.ctx.viol('own-list', '%s.%s' % (kind, acc), 'different objects share one list of children (held by the class, not the object)', '')
        if seen:
            self.ctx.ok('own-list', 'all kinds', '%d lists, each of one object' % seen)

    def reach(self, o, acc):
        r, s1, ev = call(self.I, self.st, o, acc, [mk('sym', 'mask')])
        out = {r} if r.op == 'ref' and self.I.obj(r).kind == 'list' else set()
        out |= {v for k, v in s1.m.items() if k[0] == 'f' and k[1] is r and v.op == 'ref' and self.I.obj(v).kind == 'list'}
        return out

    def run(self):
        self.own()
        for label, parents, meth, params, acc, gets in OPS:
            for pk in parents:
                o = self.kinds[0].get(pk)
                if o is None or o.op != 'ref':
                    self.ctx.und('registered', '%s.%s' % (pk, meth), 'parent not resolved')
                    continue
                if meth not in methods_of(self.prog, self.I, o):
                    continue
                self.op(label, pk, o, meth, params, acc, gets)
        self.types()
        self.files()
        self.ctx.absorb(self.I)

    def types(self):
        """A scope created with a type has that type, or is not created."""
        I = self.I
        ec = self.prog.cls(ST)
        for pk, o in self.kinds[0].items():
            if o.op != 'ref' or 'createScope' not in methods_of(self.prog, I, o):
                continue
            made, wrong = 0, 0
            for name in self.prog.enum_members(ec):
                t = enumc(self.prog, ST, name)
                v = cval(t)
                if not isinstance(v, int) or v <= 0 or v & (v - 1):
                    continue         # a mask, not a type
                s = self.st.fork()
                vals = {p: self.arg(p, 9000, s) for p in ('name', 'src', 'weight', 'source', 'flags')}
                r, s1, ev = call(I, s, o, 'createScope', [vals['name'], vals['src'], vals['weight'], vals['source'], t, vals['flags']])
                if failed(s1, ev) or r.op != 'ref' or 'getScopeType' not in methods_of(self.prog, I, r):
                    continue
                got, s2, e2 = call(I, s1, r, 'getScopeType', [])
                c = '%s.createScope type %s' % (pk, name)
                if got is t or (got.op == 'const' and eq(got, t) is TRUE):
                    made += 1
                elif wrong < 3:
                    wrong += 1
                    self.fail('data', c, 'makes an object of type %s' % show(got)[:60], ev, [got])
            if made:
                self.ctx.ok('data', '%s.createScope types' % pk, '%d types can be created, each with its type' % made)

    def shown(self, s):
        """{(object, accessor): (kind, list)} of every object."""
        out = {}
        for ks in self.kinds:
            for kind, o in ks.items():
                if o.op != 'ref':
                    continue
                ms = methods_of(self.prog, self.I, o)
                for acc in iters.ACC:
                    if acc in ms and (acc != 'historyNodes' or kind == 'database'):
                        f = self.field(kind, o, acc)
                        if f is not None:
                            out[(o, acc)] = (kind, s.m.get(('f', o, f)), f)
        return out

    def op(self, label, pk, o, meth, params, acc, gets):
        I = self.I
        self.n += 1
        c = '%s.%s (%s)' % (pk, meth, label)
        s = self.st.fork()
        before = self.shown(s)
        if (o, acc) not in before:
            self.ctx.und('registered', c, 'what %s shows could not be determined' % acc)
            return
        vals = []
        args = []
        for i in (1, 2):
            n = self.n * 10 + i
            vals.append({p: self.arg(p, n, s) for p in set(params) | {g for _, g in gets}})
            args.append([vals[-1][p] for p in params])
        mark = len(I.log)
        r1, s1, ev1 = call(I, s, o, meth, args[0])
        r2, s2, ev2 = call(I, s1, o, meth, args[1])
        ev = ev1 + ev2
        if failed(s2, ev):
            self.fail('registered', c, 'fails', ev)
            return
        index = r1.op != 'ref' and label == 'cover item'      # instances answer with the index of the item
        if not index and (r1.op != 'ref' or r2.op != 'ref'):
            # what is already there, or a plain value, for some argument: an existing child is handed out as the new one
            alts = [a for r in (r1, r2) if r.op != 'ref' for a in leaves_of(r)]
            if any(a.op in ('const', 'tuple', 'cls', 'func', 'sym', 'op', 'first', 'last') for a in alts):
                self.fail('returned', c, 'returns %s' % show(r1)[:80], ev, [r1])
            else:
                self.ctx.und('returned', c, 'returns %s' % show(r1)[:80])
            return
        if not index and r1 is r2:
            self.fail('returned', c, 'two creations return the same object', ev)
            return
        self.ctx.ok('returned', c, 'a fresh object per creation')
        # registered exactly where requested
        after = self.shown_now(before, s2)
        for k, (kind, l0, f) in before.items():
            l1 = after[k]
            new = self.added(l0, l1, s2, mark)
            mine = k == (o, acc)
            what = '%s: %s of %s' % (c, k[1], 'the parent' if k[0] is o else 'another object (%s)' % kind)
            if new is None:
                self.ctx.und('registered', what, 'contents not resolved')
            elif not mine:
                if new:
                    self.fail('registered', what, 'also changes what %s of the %s %s shows' % (k[1], 'same' if k[0] is o else 'other', kind), ev)
            elif len(new) == 2 and (index or (new[0][0] is r1 and new[1][0] is r2)) and not any(g for _, g in new):
                if index:
                    r1, r2 = new[0][0], new[1][0]
                self.ctx.ok('registered', c, 'appended once to what %s shows, nowhere else' % acc)
            else:
                und = [x for v, g in new for x in unknown(v)]
                msg = 'not shown by %s' % acc if not new else 'shown as %s instead of once, last' % ', '.join(
                    show(v)[:40] + (' when ' + show(g[0])[:60] if g else '') for v, g in new)
                self.fail('registered', c, msg, ev, [v for v, g in new])
                return
        # the data it was created with: of the second one, and of the first one still
        for r, v, which in ((r1, vals[0], 'first'), (r2, vals[1], 'second')):
            if r.op != 'ref':
                continue
            for g, p in gets:
                self.data(c, which, r, g, v[p], s2, ev)

    def data(self, c, which, r, g, want, s, ev):
        I = self.I
        cn = '%s %s' % (c, g)
        mod = I.class_of(r).module
        rd = lambda o, a: I.enter(lambda q, n: I.getattr_(o, a, q, n), s.fork(), mod, ('rd', a))
        if g in ('data', 'at_least', 'type'):
            d, s1, e1 = call(I, s, r, 'getCoverData', [])
            got = I.enter(lambda q, n: I.getattr_(d, g, q, n), s1, mod, ('rd', g))
        elif g == 'crossed':
            n, s1, e1 = call(I, s, r, 'getNumCrossedCoverpoints', [])
            i = mk('sym', 'i')
            x, s2, e2 = call(I, s, r, 'getIthCrossedCoverpoint', [i])
            okn = n is mk('op', 'len', want)
            okx = x is index(want, i)
            if okn and okx:
                self.ctx.ok('data', cn, 'the list of coverpoints given')
            else:
                self.fail('data', cn, 'number of crossed coverpoints is %s and the i-th is %s, not those of the given list' % (show(n)[:60], show(x)[:60]), ev, [n, x])
            return
        else:
            ms = methods_of(self.prog, I, r)
            if g not in ms:
                return
            got, s1, e1 = call(I, s, r, g, [])
            if failed(s1, e1):
                self.fail('data', cn, '%s fails' % g, e1)
                return
        if want.op == 'ref' and got.op == 'ref' and got is not want:
            fs = ('file', 'line', 'token')
            if all(rd(got, f) is rd(want, f) for f in fs):
                got = want
        if got is want or (got.op == 'const' and want.op == 'const' and eq(got, want) is TRUE):
            self.ctx.ok('data', cn, 'as given')
        else:
            self.fail('data', cn, '%s of the %s object is %s instead of the value given (%s)' % (g, which, show(got)[:80], show(want)[:40]), ev, [got])

    def shown_now(self, before, s):
        return {k: s.m.get(('f', k[0], f)) for k, (kind, l, f) in before.items()}

    def added(self, l0, l1, s, mark):
        """[(value, conditions)] added at the end, None when not resolved, all values when the rest changed."""
        I = self.I
        if l0 is None or l1 is None:
            return None
        out = []
        for e in I.log[mark:]:
            if e.kind not in ('call', 'cont') or e.recv is not l0:
                continue
            if e.name in ('__len__', 'index', 'count', 'copy', '__contains__', '__iter__', '__getitem__') or (e.kind == 'call' and getattr(e, 'pure', False)):
                continue
            gs = [g for g, t in e.guards]
            if e.name == 'append' and not e.loops:
                out.append((e.args[0] if e.kind == 'call' else e.value, gs))
            elif e.name in ('extend', '__iadd__') and not e.loops and (e.args or e.value is not None):
                q = self.literal(e.args[0] if e.args else e.value, s)
                if q is None:
                    return None
                out += [(v, gs + g) for v, g in q]
            elif e.name == 'insert' and len(e.args) == 2 and e.args[0] is mk('op', 'len', l0) and not e.loops:
                out.append((e.args[1], gs))
            elif e.name in ('insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__'):
                return [(mk('op', e.name, *e.args), gs)]
            else:
                return None
        if l1 is l0:
            return out
        # another list: the old contents followed by the new ones
        parts = []
        t = l1
        while t.op == 'op' and t.a[0] == '+' and len(t.a) == 3:
            parts.insert(0, t.a[2])
            t = t.a[1]
        if t is l0 and parts:
            for p in parts:
                q = self.literal(p, s)
                if q is None:
                    return None
                out += q
            return out
        q = I.contents(l1, s) if l1.op == 'ref' and I.obj(l1).kind == 'list' else None
        if q and q[0].loops and len(q[0].loops) == 1 and strip_it(q[0].loops[0].domain) is l0 and not q[0].guards and q[0].value.op == 'elem' and not any(c.loops for c in q[1:]):
            return out + [(c.value, [g for g, t in c.guards]) for c in q[1:]]
        return None

    def literal(self, t, s):
        if t.op == 'tuple':
            return [(x, []) for x in t.a]
        cs = self.I.contents(t, s) if t.op == 'ref' and self.I.obj(t).kind == 'list' else None
        if cs is None or any(c.loops for c in cs):
            return None
        return [(c.value, [g for g, t in c.guards]) for c in cs]

    def files(self):
        I = self.I
        db = self.kinds[0].get('database')
        c = 'database.createFileHandle'
        if db is None or db.op != 'ref':
            return
        n1, n2 = mk('sym', 'fname1'), mk('sym', 'fname2')
        s = self.st.fork()
        r1, s1, ev1 = call(I, s, db, 'createFileHandle', [n1, mk('sym', 'wd')])
        r2, s2, ev2 = call(I, s1, db, 'createFileHandle', [n1, mk('sym', 'wd')])
        r3, s3, ev3 = call(I, s2, db, 'createFileHandle', [n2, mk('sym', 'wd')])
        # the table of handles
        stores = [e for e in ev1 if e.kind == 'cont' and e.name in ('store', 'setdefault') and e.value is not None and e.value.op == 'ref'
                  and I.class_of(e.value) is not None and prog_is(self.prog, I.class_of(e.value), 'FileHandle')]
        if len(stores) > 1:
            self.ctx.und('same-file', c, 'several tables')
            return
        e1 = stores[0] if stores else None
        kept = lambda x, n: e1 is not None and x.op == 'lookup' and x.a[0] is e1.recv and x.a[1] is subst(e1.key, {n1: n})
        for r, n, ss in ((r1, n1, s1), (r3, n2, s3)):
            for x in leaves_of(r):
                if kept(x, n):
                    continue       # entered under this name by an earlier call
                got = call(I, ss, x, 'getFileName', [])[0] if x.op == 'ref' else x
                if got is n:
                    self.ctx.ok('data', c + ' getFileName', 'as given')
                else:
                    self.fail('data', c + ' getFileName', 'the handle is named %s instead of %s' % (show(got)[:80], show(n)), ev1, [got])
        first = e1.value if e1 is not None else None
        member = lambda x: x.op == 'in' and e1 is not None and x.a[1] is e1.recv and x.a[0] is e1.key
        x = r2
        if x.op == 'ite' and member(x.a[0]):
            x = x.a[1]
        elif x.op == 'ite' and x.a[0].op == 'not' and member(x.a[0].a[0]):
            x = x.a[2]
        guards = [g for g, t in e1.guards if not (g.op == 'not' and member(g.a[0])) and t not in ('exc', 'handler')] if e1 is not None else []
        new2 = [e for e in ev2 if e.kind == 'cont' and e.name == 'store' and e1 is not None and e.recv is e1.recv and not e.guards]
        if r1 is r2 or ((x is first or kept(x, n1)) and not guards and not new2) or (e1 is not None and getattr(e1, 'via', None) == 'setdefault' and not guards):
            self.ctx.ok('same-file', c, 'kept in a table under the name')
        elif r2.op == 'ref' and (e1 is None or new2):
            self.fail('same-file', c, 'a second request for the same name makes another handle', ev2)
        else:
            self.fail('same-file', c, 'a second request for the same name returns %s, the first %s' % (show(r2)[:80], show(r1)[:80]), ev2, [r1, r2] + guards)
        for e in stores:
            k = e.key
            q = injective(k, n1)
            if q:
                self.ctx.ok('same-file', c + ' key', 'different names have different handles')
            elif q is None:
                self.ctx.und('same-file', c + ' key', 'kept under %s' % show(k)[:80], where(e))
            else:
                self.fail('same-file', c + ' key', 'handles are kept under %s, which different names share' % show(k)[:80], [e], [k])


def leaves_of(t):
    if t.op == 'ite':
        return leaves_of(t.a[1]) + leaves_of(t.a[2])
    return [t]


def prog_is(prog, c, name):
    return any(k.qualname.endswith(name) for k in prog.mro(c))


def injective(k, n):
    """Is n recoverable from k?"""
    if k is n:
        return True
    if k.op in ('tuple', 'cat', 'str', 'copyof'):
        return any(injective(x, n) for x in k.a if hasattr(x, 'op'))
    if any(w in show(k) for w in ('basename', 'lower', 'upper', 'splitext', 'split')) or not any(x is n for x in subterms(k)):
        return False
    return None


def c16(ctx, prog):
    ctx.rule('returned', 'each creation returns an object of its own')
    ctx.rule('registered', 'the object is appended exactly once, unconditionally, to the list the parent iterates, and to no other')
    ctx.rule('own-list', 'no two objects share a list of children')
    ctx.rule('data', 'the getters of the new object return the values it was created with')
    ctx.rule('same-file', 'a file handle requested again for the same name is the same object')
    Creator(ctx, prog).run()
