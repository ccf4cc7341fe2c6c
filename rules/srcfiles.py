"""C25: the table of source files of an XML document -- what the exporter declares and refers to, and
what the importer restores from it."""
from .base import *
from .mirror import *
from . import xmlw, xmlr, report
from .xmlw import UNSET, unstr, cnorm

FILE, RFILE = xmlw.FILE, xmlr.FILE
ALL = 'ucis.scope_type_t.ScopeTypeT'
DEDUP = ('in', 'uniq')


def name_of(t):
    """X for X.getSourceInfo().file.getFileName()"""
    if t.op == 'call' and t.a[1] == 'getFileName' and not t.a[2] and t.a[0] is not None:
        f = t.a[0]
        if f.op == 'attr' and f.a[1] == 'file' and f.a[0].op == 'call' and f.a[0].a[1] == 'getSourceInfo':
            return f.a[0].a[0], f
    return None


def refs(t):
    return [x for x in subterms(t) if x.op == 'ref']


def size_of(t):
    """(container, offset) for len(container) + offset"""
    off = 0
    if t.op == 'op' and t.a[0] in ('+', '-') and len(t.a) == 3:
        cs = [x for x in t.a[1:] if x.op == 'const']
        xs = [x for x in t.a[1:] if x.op != 'const']
        if len(cs) == 1 and len(xs) == 1 and isinstance(cval(cs[0]), int) and (t.a[0] == '+' or cs[0] is t.a[2]):
            off = cval(cs[0]) if t.a[0] == '+' else -cval(cs[0])
            t = xs[0]
    if t.op == 'op' and t.a[0] == 'len':
        x = strip_it(t.a[1])
        if x.op == 'dictitems':
            x = x.a[0]
        return x, off
    return None


class Entry(object):
    pass


class Table(object):
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.I, self.st, self.doc = xmlw.analyse(prog)
        self.bits = cval(enumc(prog, ALL, 'ALL'))

    # ---------------------------------------------------------------- declared
    def entries(self):
        out = []
        for x in self.doc.tagged('sourceFiles'):
            y = Entry()
            y.x, y.at = x, where(x.e)
            y.name, b1 = xmlw.attr(self.I, x, 'fileName')
            y.id, b2 = xmlw.attr(self.I, x, 'id')
            if b1 or b2 or UNSET in (y.name, y.id):
                b = b1 or b2
                self.ctx.viol('declared', 'sourceFiles', b[1] if b else 'an entry without file name or id', y.at)
                continue
            y.conds = extras(self.I, x.e)
            out.append(y)
        return out

    def allmask(self, a):
        return len(a) == 1 and isinstance(a[0], int) and (a[0] < 0 or a[0] & self.bits == self.bits)

    def classify(self, y):
        """depth of the scopes an entry is made for: 0 for a fixed entry, None if not resolved"""
        ctx = self.ctx
        y.depth, y.el, y.file = None, None, None
        n = unstr(y.name)
        if n.op == 'const' and not y.x.e.loops:
            y.depth = 0
            return
        nf = name_of(n)
        if nf is None:
            inner = [z for z in subterms(n) if name_of(z)]
            if unknown(n) or not inner:
                ctx.und('own-name', 'sourceFiles', 'file name is %s' % show(n)[:160], y.at)
            else:
                ctx.viol('own-name', 'sourceFiles', 'declares %s instead of the file name itself' % show(n)[:160], y.at)
            return
        ctx.ok('own-name', 'sourceFiles', show(n)[:80], y.at)
        ch = chain(nf[0])
        if ch is None or ch[0] is not xmlw.DB:
            ctx.und('complete', 'sourceFiles', 'scopes visited are not resolved: %s' % show(nf[0])[:120], y.at)
            return
        y.el, y.file, y.path = nf[0], nf[1], path_of(ch)
        y.loops = [l for l, m, a in ch[1]]
        y.depth = len(y.path)

    def dedup(self, c):
        b = c.a[0] if c.op == 'not' else c
        return b.op in DEDUP

    def complete(self, es):
        ctx = self.ctx
        dyn = [y for y in es if y.depth]
        fixed = {cval(unstr(y.name)) for y in es if y.depth == 0}
        recs = [e for e in self.I.log if e.kind == 'rec']
        if not dyn:
            part = [(y, l) for y in es for l in y.x.e.loops if strip_it(l.domain).op == 'slice' and not all(z is NONE for z in strip_it(l.domain).a[1:])]
            if part:
                ctx.viol('complete', 'sourceFiles', 'only a part of the files collected is declared: %s' % show(part[0][1].domain)[:120], part[0][0].at)
            elif not any(y.depth is None for y in es):
                ctx.viol('complete', 'sourceFiles', 'no file of the database is ever declared', FILE)
            else:
                ctx.und('complete', 'sourceFiles', 'entries of the files of the database not resolved', FILE)
            return
        by = {}
        for y in dyn:
            by.setdefault(y.depth, []).append(y)
        top = max(by)
        for d in range(1, top + 1):
            c = 'scopes at depth %d' % d if d < 2 or not recs else 'scopes at every deeper level'
            ys = by.get(d, [])
            if not ys:
                ctx.viol('complete', c, 'files of these scopes are never declared', dyn[0].at)
                continue
            conds = []
            for y in ys:
                bad = [(m, a) for m, a in y.path if m != 'scopes' or not self.allmask(a)]
                if bad:
                    m, a = bad[0]
                    if m == 'scopes' and len(a) == 1 and isinstance(a[0], int):
                        ctx.viol('complete', c, 'only scopes of some kinds are looked at (mask %#x)' % a[0], y.at)
                    else:
                        ctx.und('complete', c, 'scopes are reached through %s' % pretty_path(y.path), y.at)
                    conds = None
                    break
                other = [l for l in y.x.e.loops if l not in y.loops]
                tr = [t for l in y.loops for t in truncs(l)]
                if other or tr:
                    u = any(unknown(l.domain) for l in other) or any(unknown(t) for t in tr)
                    (ctx.und if u else ctx.viol)('complete', c, 'an iteration stops early' if tr else 'repeated for %s' % show(other[0].domain)[:120], y.at)
                    conds = None
                    break
                conds.append(and_([self.simplify(k, y, fixed) for k in y.conds]))
            if conds is None:
                continue
            t = or_(conds)
            if t is TRUE or valid(t):
                ctx.ok('complete', c, 'every scope whose file is known', ys[0].at)
            elif unknown(t) or any(x.op == 'in' for x in subterms(t)):
                ctx.und('complete', c, 'declared only if %s' % show(t)[:160], ys[0].at)
            else:
                ctx.viol('complete', c, 'declared only if %s' % show(t)[:200], ys[0].at)
        # deeper levels
        deep = []
        for e in recs:
            for a in e.args or ():
                for d in ([strip_it(a)] if a.op != 'elem' else [strip_it(a.a[0].domain)]):
                    if d.op == 'call' and d.a[1] == 'scopes' and d.a[0] is not None and d.a[0].op == 'elem':
                        ch = chain(d.a[0])
                        if ch is not None and ch[0] is xmlw.DB:
                            deep.append((e, path_of(ch) + (('scopes', tuple(cval(z) if z.op == 'const' else show(z) for z in d.a[2])),), d.a[0]))
        mine = [(e, p, el) for e, p, el in deep if len(p) > top]
        if not mine:
            if recs or any(y.depth is None for y in es):
                ctx.und('complete', 'nested scopes', 'recursion not resolved', FILE)
            else:
                ctx.viol('complete', 'nested scopes', 'scopes nested deeper than %d levels are never looked at' % top, dyn[-1].at)
            return
        cs = []
        for e, p, el in mine:
            if not all(m == 'scopes' for m, a in p):
                ctx.und('complete', 'nested scopes', 'scopes are reached through %s' % pretty_path(p), where(e))
                return
            if not all(self.allmask(a) for m, a in p):
                ctx.viol('complete', 'nested scopes', 'only nested scopes of some kinds are looked at', where(e))
                return
            facts = {}
            cs.append(and_([k for k in extras(self.I, e) if not self.dedup(k)]))
        t = or_(cs)
        if t is TRUE or valid(t):
            ctx.ok('complete', 'nested scopes', 'every scope passes its children on', where(mine[0][0]))
        elif unknown(t):
            ctx.und('complete', 'nested scopes', 'looked at only if %s' % show(t)[:160], where(mine[0][0]))
        else:
            ctx.viol('complete', 'nested scopes', 'looked at only if %s' % show(t)[:200], where(mine[0][0]))

    def simplify(self, c, y, fixed):
        """A condition under the assumption that the scope has a file which was not declared before."""
        info = y.file.a[0]
        facts = {mk('isnone', y.file): FALSE, mk('isnone', info): FALSE, mk('truth', y.file): TRUE, mk('truth', info): TRUE}
        n = unstr(y.name)
        for f in fixed:
            facts[eq(n, const(f))] = FALSE

        def go(t):
            if t in facts:
                return facts[t]
            if t.op == 'uniq':
                return TRUE
            if t.op == 'in' and t.a[0] is n and t.a[1].op == 'ref':
                return FALSE
            if t.op == 'not':
                return not_(go(t.a[0]))
            if t.op in ('and', 'or'):
                return (and_ if t.op == 'and' else or_)([go(z) for z in t.a])
            return t
        return go(c)

    # ---------------------------------------------------------------- once / ids
    def once(self, es):
        ctx = self.ctx
        for y in es:
            if not y.depth:
                continue
            n = unstr(y.name)
            if any(c.op == 'uniq' and c.a[0] is n for k in y.conds for c in conj([k])) or \
                    any(c.op == 'not' and c.a[0].op == 'in' and c.a[0].a[0] is n for k in y.conds for c in conj([k])):
                ctx.ok('once', 'sourceFiles', 'one entry per name', y.at)
            elif unknown(and_(y.conds)):
                ctx.und('once', 'sourceFiles', 'entries not resolved', y.at)
            else:
                ctx.viol('once', 'sourceFiles', 'a file is declared again for every scope that names it', y.at)

    def idterm(self, y):
        v = unstr(y.id)
        n = unstr(y.name)
        if v.op == 'lastkey' and v.a[1] is n:
            v = v.a[2]
        if v.op == 'const' and isinstance(cval(v), str) and cval(v).isdigit():
            v = const(int(cval(v)))
        return v

    def ids(self, es):
        ctx = self.ctx
        consts, dyn = {}, []
        for y in es:
            v = self.idterm(y)
            y.v = v
            if v.op == 'const' and isinstance(cval(v), int):
                if y.x.e.loops:
                    ctx.viol('own-id', 'sourceFiles', 'every file of the database gets the id %d' % cval(v), y.at)
                elif cval(v) in consts:
                    ctx.viol('own-id', 'sourceFiles', 'the id %d is given twice' % cval(v), y.at)
                else:
                    consts[cval(v)] = y
                continue
            s = size_of(v)
            if s is None or s[0].op != 'ref':
                if v.op == 'op' and v.a[0] == '+' and any(z.op in ('idx', 'ordinal') for z in v.a[1:]) or v.op in ('idx', 'ordinal'):
                    self.counted(y, v, es)
                else:
                    ctx.und('own-id', 'sourceFiles', 'id is %s' % show(v)[:160], y.at)
                continue
            dyn.append((y, s[0], s[1]))
        self.consts = consts
        for M in {m for y, m, o in dyn}:
            mine = [(y, o) for y, m, o in dyn if m is M]
            ob = M.a[0]
            stores = [e for e in self.I.log if e.kind == 'cont' and getattr(e, 'obj', None) is ob]
            grow = [e for e in stores if e.name in ('store', 'append', 'add')]
            n0 = len({e.key if ob.kind == 'dict' else e.value for e in grow if not e.loops and not e.guards})
            offs = sorted({o for y, o in mine})
            y = mine[0][0]
            if len(grow) != len(stores):
                ctx.und('own-id', 'sourceFiles', 'the id table is changed by %s' % [e.name for e in stores if e not in grow][0], y.at)
                continue
            if len(offs) > 1:
                ctx.viol('own-id', 'sourceFiles', 'ids are the table size plus %s, so two files may share an id' % ' or '.join(map(str, offs)), y.at)
                continue
            hit = [k for k in consts if k >= n0 + offs[0]]
            if hit:
                ctx.viol('own-id', 'sourceFiles', 'the id %d is also given to the first file of the database' % hit[0], y.at)
                continue
            # the size only grows if the name was not in the table
            bad = False
            for e in grow:
                if not e.loops:
                    continue
                k = e.key if ob.kind == 'dict' else e.value
                cs = [c for g, t in e.guards for c in conj([g])]
                if any(c.op == 'not' and c.a[0].op == 'in' and c.a[0].a[0] is k for c in cs) or any(c.op == 'uniq' and c.a[0] is k for c in cs):
                    continue
                bad = True
                if any(unknown(c) for c in cs) or any(c.op in DEDUP or c.op == 'not' and c.a[0].op in DEDUP for c in cs):
                    ctx.und('own-id', 'sourceFiles', 'entered under conditions not resolved', where(e))
                else:
                    ctx.viol('own-id', 'sourceFiles', 'a name already in the table is given a new id, which is the id of the next file as well', where(e))
            if not bad:
                ctx.ok('own-id', 'sourceFiles', 'table size plus %d' % offs[0], y.at)
        if consts and not any(o[0] == 'violation' and o[1] == 'own-id' for o in ctx.obs):
            ctx.ok('own-id', 'fixed entries', ', '.join(map(str, sorted(consts))), FILE)

    def counted(self, y, v, es):
        ctx = self.ctx
        off = sum(cval(z) for z in v.a[1:] if z.op == 'const') if v.op == 'op' else 0
        i = [z for z in (v.a[1:] if v.op == 'op' else [v]) if z.op in ('idx', 'ordinal')]
        if len(i) == 1 and i[0].op == 'ordinal':
            # positions in a collection: the fixed entries come first
            d = strip_it(i[0].a[1])
            while d.op in ('enumerate', 'dictitems', 'it'):
                d = strip_it(d.a[0])
            ob = d.a[0] if d.op == 'ref' else None
            if ob is None:
                ctx.und('own-id', 'sourceFiles', 'id is %s' % show(v)[:160], y.at)
                return
            off += len({e.key if ob.kind == 'dict' else e.value for e in ob.events if e.name in ('store', 'append', 'add') and not e.loops and not e.guards})
        hit = [k for k in [cval(self.idterm(z)) for z in es if self.idterm(z).op == 'const'] if isinstance(k, int) and k >= off]
        n = [z for z in es if z.depth]
        same = i[0].op == 'ordinal' and all(any(w.op == 'ordinal' and w.a[1] is i[0].a[1] for w in subterms(z.id)) for z in n)
        if len(i) == 1 and not hit and (same or len(y.x.e.loops) == 1 and len(n) == 1):
            ctx.ok('own-id', 'sourceFiles', 'position plus %d' % off, y.at)
        elif hit and len(i) == 1:
            ctx.viol('own-id', 'sourceFiles', 'the id %d is also given to a file of the database' % hit[0], y.at)
        else:
            ctx.und('own-id', 'sourceFiles', 'id is %s' % show(v)[:160], y.at)

    # ---------------------------------------------------------------- uses
    def uses(self, es):
        ctx = self.ctx
        n = 0
        for x in self.doc.elems.values():
            if not any(a == 'file' for a, v, e in x.attrs):
                continue
            n += 1
            c = x.tag + '@file'
            v, bad = xmlw.attr(self.I, x, 'file')
            if bad or v is UNSET:
                ctx.und('declared-id', c, 'not resolved', where(x.e))
                continue
            for t in leaves(v):
                self.use(c, unstr(t), where(x.e), es)
        if not n:
            ctx.ok('declared-id', 'document', 'no file id is used', FILE)

    def use(self, c, v, at, es):
        ctx = self.ctx
        if v.op == 'const':
            k = cval(v)
            if isinstance(k, str) and k.strip().lstrip('+-').isdigit():
                k = int(k)
            y = self.consts.get(k)
            if y is None:
                if any(z.v.op != 'const' and size_of(z.v) is None for z in es):
                    ctx.und('declared-id', c, 'ids declared are not resolved', at)
                else:
                    ctx.viol('declared-id', c, 'refers to file %s, which no entry is sure to declare' % k, at)
            elif [k for k in y.conds if not self.dedup(k)]:
                ctx.viol('declared-id', c, 'the file it refers to is declared only if %s' % show(and_(y.conds))[:120], at)
            else:
                ctx.ok('declared-id', c, 'id %s' % k, at)
            return
        if v.op in ('lookup', 'index', 'lastkey') and v.a[0].op == 'ref' and v.a[0] in {m for y in es for m in refs(y.id) + refs(and_(y.conds))}:
            key = v.a[1]
            f = name_of(key)
            if f is not None and chain(f[0]) is not None and chain(f[0])[0] is xmlw.DB:
                ctx.ok('declared-id', c, 'id of %s' % show(key)[:80], at)
                return
        w = [z for z in subterms(v) if size_of(z) is not None]
        if v.op == 'op' and any(z.op in ('lookup', 'index', 'lastkey') or size_of(z) for z in v.a[1:]) and not w:
            ctx.viol('declared-id', c, 'refers to %s, which is not the id of the file' % show(v)[:120], at)
            return
        e = [y for y in es if y.depth and y.v is v]
        if e:
            ctx.ok('declared-id', c, 'id of the entry', at)
            return
        ctx.und('declared-id', c, 'refers to %s' % show(v)[:160], at)

    def helper(self, es):
        """addId: the id written for a recorded location is the one its file is declared under."""
        ctx, prog = self.ctx, self.prog
        ci = prog.cls('ucis.xml.xml_writer.XmlWriter')
        fi = prog.find_method(ci, 'addId')
        ms = {m for y in es for m in refs(y.id)}
        if fi is None or [a.arg for a in fi.node.args.args][1:] != ['ctxt', 'srcinfo'] or len(ms) != 1:
            return
        M = list(ms)[0]
        slot = [k for k, v in self.st.m.items() if k[0] == 'f' and v is M and k[1].op == 'ref']
        if len(slot) != 1:
            return
        I = Interp(prog)
        st = State()
        w = I.new('ucis.xml.xml_writer.XmlWriter', [], {}, st)
        ids = mk('sym', 'ids')
        st.m[('f', w, slot[0][2])] = ids
        ctxt, src = mk('sym', 'ctxt'), mk('sym', 'srcinfo')
        I.invoke(w, 'addId', [ctxt, src], st=st)
        sets = [e for e in I.log if e.kind == 'call' and e.name == 'set' and e.args and e.args[0].op == 'const' and cval(e.args[0]) == 'file']
        c = 'addId'
        if len(sets) != 1:
            ctx.und('declared-id', c, 'not resolved', FILE)
            return
        e = sets[0]
        v = unstr(e.args[1])
        f = mk('attr', src, 'file')
        key = mk('call', f, 'getFileName', (), ())
        for txt, facts in (('without a location', {mk('isnone', src): True}), ('without a file', {mk('isnone', src): False, mk('isnone', f): True}),
                           ('with a file', {mk('isnone', src): False, mk('isnone', f): False})):
            t = v
            while t.op == 'ite':
                k = assume(t.a[0], facts)
                if k not in (TRUE, FALSE):
                    break
                t = t.a[1] if k is TRUE else t.a[2]
            t = unstr(t)
            if txt != 'with a file':
                if t.op == 'const':
                    self.use(c + ' ' + txt, t, where(e), es)
                else:
                    ctx.und('declared-id', c + ' ' + txt, 'is %s' % show(t)[:120], where(e))
            elif t.op == 'call' and t.a[1] == 'get' and t.a[0] is ids and t.a[2] and t.a[2][0].op == 'call' and t.a[2][0].a[0] is f and t.a[2][0].a[1] == 'getFileName':
                ctx.ok('declared-id', c + ' ' + txt, 'id of its own file', where(e))
            elif t.op in ('index', 'lookup') and t.a[0] is ids and t.a[1].op == 'call' and t.a[1].a[0] is f and t.a[1].a[1] == 'getFileName':
                ctx.ok('declared-id', c + ' ' + txt, 'id of its own file', where(e))
            elif t.op == 'const' or t.op == 'op' and any(z.op in ('index', 'lookup') for z in t.a[1:]) or t.op in ('index', 'lookup') and t.a[0] is ids:
                ctx.viol('declared-id', c + ' ' + txt, 'refers to %s instead of the id of its own file' % show(t)[:120], where(e))
            else:
                ctx.und('declared-id', c + ' ' + txt, 'is %s' % show(t)[:120], where(e))
        for an, fn in (('line', 'line'), ('inlineCount', 'token')):
            sets = [x for x in I.log if x.kind == 'call' and x.name == 'set' and x.args and x.args[0].op == 'const' and cval(x.args[0]) == an]
            if len(sets) != 1:
                ctx.und('declared-id', '%s@%s' % (c, an), 'not resolved', FILE)
                continue
            t = unstr(sets[0].args[1])
            facts = {mk('isnone', src): False, mk('isnone', f): False}
            while t.op == 'ite' and assume(t.a[0], facts) in (TRUE, FALSE):
                t = unstr(t.a[1] if assume(t.a[0], facts) is TRUE else t.a[2])
            want = mk('attr', src, fn)
            if t is want:
                ctx.ok('declared-id', '%s@%s' % (c, an), 'that of the location', where(sets[0]))
            elif t.op == 'const' or t.op == 'attr' and t.a[0] is src or t.op == 'op' and want in t.a:
                ctx.viol('declared-id', '%s@%s' % (c, an), 'is %s instead of the %s of the location' % (show(t)[:80], fn), where(sets[0]))
            else:
                ctx.und('declared-id', '%s@%s' % (c, an), 'is %s' % show(t)[:120], where(sets[0]))
        ctx.absorb(I)


# -------------------------------------------------------------------- reader
def reader(ctx, prog):
    I, st = xmlr.analyse(prog)
    A = xmlr.Adapter(None)
    made = [e for e in I.log if e.kind == 'call' and e.name == 'createFileHandle']
    if not made:
        ctx.viol('restored', 'file handles', 'the files of the document are never created', RFILE)
        return
    hs = []
    for e in made:
        at = where(e)
        if not e.loops:
            ctx.viol('restored', 'file handles', 'created once, not for each entry', at)
            continue
        el = mk('elem', e.loops[-1])
        ch = A.chain(el)
        if ch is None or [t for l, t in ch[1]] != ['sourceFiles'] or len(e.loops) != 1:
            if ch is not None and 'sourceFiles' not in [t for l, t in ch[1]]:
                ctx.viol('restored', 'file handles', 'created for each %s element' % ch[1][-1][1], at)
            else:
                ctx.und('restored', 'file handles', 'iteration not resolved', at)
            continue
        tr = [c for l in e.loops for c in truncs(l)]
        x = and_(extras(I, e))
        if tr or x is not TRUE and not valid(x):
            bad = tr[0] if tr else x
            (ctx.und if unknown(bad) else ctx.viol)(
                'restored', 'file handles', 'not created for every entry: %s' % show(bad)[:160], at)
        else:
            ctx.ok('restored', 'file handles', 'one for each sourceFiles entry', at)
        n = e.args[0] if e.args else (e.kw or {}).get('filename') if isinstance(e.kw, dict) else None
        if n is None:
            ctx.und('restored', 'file name', 'not resolved', at)
        else:
            g = attribute(A, el, n)
            if g == 'fileName':
                ctx.ok('restored', 'file name', 'the entry\'s own', at)
            elif g is not None:
                ctx.viol('restored', 'file name', 'is the attribute %s' % g, at)
            elif unknown(n):
                ctx.und('restored', 'file name', 'is %s' % show(n)[:120], at)
            else:
                ctx.viol('restored', 'file name', 'is %s' % show(n)[:120], at)
        hs.append((e, el))
    if len(made) > 1 and len(hs) > 1:
        cs = [and_(extras(I, e)) for e, el in hs]
        cs = [subst(c, {el: hs[0][1]}) for c, (e, el) in zip(cs, hs)]
        if not all(table(and_([a, b]))[1] for i, a in enumerate(cs) for b in cs[:i]):
            ctx.viol('restored', 'file handles', 'created more than once for an entry', where(hs[1][0]))
    # ids resolve to the handle declared under them
    res = {e.result: (e, el) for e, el in hs}
    stores = [e for e in I.log if e.kind == 'cont' and e.name == 'store' and getattr(e, 'value', None) is not None and e.value in res]
    for e in stores:
        el = res[e.value][1]
        k = e.key
        if k.op == 'call' and k.a[1] in ('int', 'str') or k.op == 'op' and k.a[0] == 'int' or k.op in ('int', 'str'):
            k = [z for z in subterms(k) if attribute(A, el, z)][:1]
            k = k[0] if k else e.key
        g = attribute(A, el, k)
        if g == 'id':
            ctx.ok('resolved', 'file ids', 'kept under the id of the entry', where(e))
        elif g is not None or not unknown(e.key):
            ctx.viol('resolved', 'file ids', 'kept under %s instead of the id of the entry' % show(e.key)[:120], where(e))
        else:
            ctx.und('resolved', 'file ids', 'kept under %s' % show(e.key)[:120], where(e))
    ctx.absorb(I)
    ci = prog.cls('ucis.xml.xml_reader.XmlReader')
    fi = prog.find_method(ci, 'readStatementId')
    if fi is None or len(fi.node.args.args) != 2 or not stores:
        return
    M = stores[0].recv
    slot = [k for k, v in st.m.items() if k[0] == 'f' and v is M and k[1].op == 'ref']
    if len(slot) != 1:
        return
    J = Interp(prog)
    s2 = State()
    r = J.new('ucis.xml.xml_reader.XmlReader', [], {}, s2)
    s2.m[('f', r, slot[0][2])] = mk('sym', 'handles')
    x = mk('sym', 'elem')
    q = J.invoke(r, 'readStatementId', [x], st=s2)
    for meth, a in (('getFile', 'file'), ('getLine', 'line'), ('getItem', 'inlineCount')):
        c = 'readStatementId.' + meth
        if q.op != 'ref':
            ctx.und('resolved', c, 'result not resolved', RFILE)
            continue
        v = J.invoke(q, meth, [], st=s2)
        w = v
        if meth == 'getFile':
            if v.op in ('index', 'lookup') and v.a[0] is mk('sym', 'handles'):
                w = v.a[1]
            else:
                (ctx.und if unknown(v) else ctx.viol)('resolved', c, 'is %s instead of the file declared under the id' % show(v)[:120], RFILE)
                continue
        z = [n for n in (attribute(A, x, t) for t in subterms(w)) if n]
        off = [t for t in subterms(w) if t.op == 'op' and t.a[0] in ('+', '-', '*')]
        if len(set(z)) == 1 and z[0] == a and not off:
            ctx.ok('resolved', c, 'the attribute ' + a, RFILE)
        elif unknown(w):
            ctx.und('resolved', c, 'is %s' % show(v)[:120], RFILE)
        else:
            ctx.viol('resolved', c, 'is %s instead of the attribute %s' % (show(v)[:120], a), RFILE)
    ctx.absorb(J)


def attribute(A, el, t):
    """Name of the attribute of el that t is, as text."""
    if t.op == 'index' and t.a[0].op == 'attr' and t.a[0].a[1] == 'attrib' and t.a[0].a[0] is el and t.a[1].op == 'const':
        return cval(t.a[1])
    if t.op == 'call' and t.a[1] == 'get' and t.a[2] and t.a[2][0].op == 'const' and isinstance(cval(t.a[2][0]), str) and \
            (t.a[0] is el or t.a[0] is not None and t.a[0].op == 'attr' and t.a[0].a[1] == 'attrib' and t.a[0].a[0] is el):
        return cval(t.a[2][0])
    if t.op == 'ite' and t.a[0].op == 'in':
        return attribute(A, el, t.a[1])
    return None


def c25(ctx, prog):
    ctx.rule('complete', 'the file of every scope of the database, at every depth, has a sourceFiles entry')
    ctx.rule('own-name', 'an entry declares the name of the file itself')
    ctx.rule('once', 'a file has one entry')
    ctx.rule('own-id', 'no two entries share an id')
    ctx.rule('declared-id', 'a file id used in the document is declared, and is the id of the file meant')
    ctx.rule('restored', 'the importer creates one file handle for each entry, with its name')
    ctx.rule('resolved', 'the importer resolves a file id to the handle declared under it')
    T = Table(ctx, prog)
    es = T.entries()
    if not es and not [x for x in T.doc.tagged('sourceFiles')]:
        ctx.viol('declared', 'sourceFiles', 'the source files are never declared', FILE)
    for y in es:
        T.classify(y)
    T.complete(es)
    T.once(es)
    T.ids(es)
    T.uses(es)
    T.helper(es)
    ctx.absorb(T.I)
    reader(ctx, prog)
