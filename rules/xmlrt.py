"""C11: what the XML writer puts into a slot is what the reader takes out of it."""
from .base import *
from .mirror import *
from . import importer, xmlw, xmlr, report
from .importer import COVER, SCOPE
from .report import call

NUM = ('double', 'decimal', 'float', 'integer', 'nonNegativeInteger', 'int', 'long', 'positiveInteger')
ISO = '%Y-%m-%dT%H:%M:%S'
KINDS = ('CVGBIN', 'IGNOREBIN', 'ILLEGALBIN')


class Quiet(object):
    """A context that records nothing: used to compute a correspondence decided by another property."""

    def __getattr__(self, n):
        return lambda *a, **k: None


def elpath(doc, x):
    out = []
    while x is not None and x.parent is not None:
        out.insert(0, x.tag)
        x = doc.elems.get(x.parent)
    return tuple(out)


def subseq(p, q):
    """p, read with descendant steps, reaches elements at q."""
    it = iter(q)
    return bool(p) and bool(q) and p[-1] == q[-1] and all(t in it for t in p)


class RT(object):
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.IW, self.sw, self.doc = xmlw.analyse(prog)
        self.IR, self.sr = xmlr.analyse(prog)
        path = os.path.join(REPO, xmlw.XSD)
        self.S = xmlw.Schema(path) if os.path.exists(path) else None
        self.ad = xmlr.Adapter(self.S)
        self.w = xmlw.W(Quiet(), prog)
        self.w.walk()
        dbs = [e for e in self.IR.log if e.kind == 'call' and e.recv is OBS and e.name == 'DB']
        self.db = dbs[-1].args[0] if dbs else NONE
        self.r = xmlr.X(ctx, self.IR, self.db, self.ad, prog)
        self.r.conds = {}
        self.names = {cval(enumc(prog, SCOPE, k)): k for k in ('INSTANCE', 'COVERGROUP', 'COVERINSTANCE', 'COVERPOINT', 'CROSS')}
        self.ctx.absorb(self.IW)
        self.ctx.absorb(self.IR)

    def say(self, rule, construct, msg, at, terms=()):
        u = [x for t in terms for x in unknown(t)]
        if u:
            self.ctx.und(rule, construct, '%s (not resolved: %s)' % (msg, show(u[0])[:100]), at)
        else:
            self.ctx.viol(rule, construct, msg, at)

    # ---------------------------------------------------------------- names, counts, kinds
    def slot(self, t):
        """(path, attribute) of a value taken from the document."""
        if t.op != 'xa':
            return None
        b, tags = xmlr.strip_c(t.a[0])
        ch = self.ad.chain(b)
        if ch is None:
            return None
        return tuple(x for L, x in ch[1]) + tuple(tags), t.a[1]

    def writers(self, path):
        return [x for x in self.doc.elems.values() if subseq(path, elpath(self.doc, x))]

    def itemkind(self, el):
        ch = chain(el)
        if ch is None or not ch[1]:
            return None
        m, a = path_of(ch)[-1]
        if m == 'coverItems':
            return 'BIN'
        return self.names.get(a[0]) if a else None

    def compare(self, construct, e, t, want, what):
        """want(value written) -> bool"""
        outs = set()
        for l in leaves(t):
            if l.op == 'const' and not free_loops(l):
                continue       # default when the attribute is absent
            s = self.slot(l)
            if s is None:
                self.say('slot', construct, 'the reader takes the %s from %s' % (what, show(l)[:100]), where(e), [l])
                continue
            outs.add(s)
        for path, a in sorted(outs):
            c = '%s: %s@%s' % (construct, '/'.join(path), a)
            xs = self.writers(path)
            vals = []
            for x in xs:
                v, bad = xmlw.attr(self.IW, x, a)
                if v is not None:
                    vals.append((x, v))
            if not xs or all(v is xmlw.UNSET for x, v in vals):
                if self.optional(path, a) and len(outs) > 1:
                    continue
                self.say('slot', c, 'the reader takes the %s from here, where the writer puts nothing' % what, where(e), [o[1] for o in ()])
                continue
            for x, v in vals:
                bad = [l for l in leaves(v) if not want(xmlw.unstr(l), x)]
                if bad:
                    self.say('slot', c, 'the reader takes the %s from here, where the writer puts %s' % (what, show(bad[0])[:100]), where(x.e), bad)
                else:
                    self.ctx.ok('slot', c, what, where(e))

    def optional(self, path, a):
        return 'sequence' in path

    def is_name(self, kinds):
        def f(v, x):
            if 'COVERINSTANCE' in kinds and v.op == 'call' and x.el is not None and v.a[0] is not x.el:
                return False
            return v.op == 'call' and v.a[1] in ('getScopeName', 'getName') and v.a[0] is not None and self.itemkind(v.a[0]) in kinds
        return f

    def is_data(self, v, x=None):
        return v.op == 'attr' and v.a[1] == 'data' and v.a[0].op == 'call' and v.a[0].a[1] == 'getCoverData' and self.itemkind(v.a[0].a[0]) == 'BIN'

    def items(self):
        r = self.r
        for meth, construct, kinds in (('createInstance', 'instance name', ('INSTANCE',)), ('createCovergroup', 'covergroup name', ('COVERGROUP',)),
                                       ('createCoverInstance', 'covergroup instance name', ('COVERINSTANCE', 'COVERGROUP')),
                                       ('createCoverpoint', 'coverpoint name', ('COVERPOINT',)), ('createCross', 'cross name', ('CROSS',)),
                                       ('createBin', 'bin name', ('BIN',))):
            evs = [e for e in r.ev if e.name == meth]
            if not evs:
                self.ctx.viol('slot', construct, 'the reader never restores it', xmlr.FILE)
            for e in evs:
                if e.args:
                    self.compare(construct, e, e.args[0], self.is_name(kinds), 'name')
                if meth == 'createBin' and len(e.args) > 3:
                    for l in leaves(e.args[3]):
                        if l.op == 'sum':
                            continue
                        v = xmlr.conv(l)
                        if v:
                            self.compare('bin count', e, v[0], self.is_data, 'count')
                        elif self.slot(l):
                            self.ctx.viol('conversion', 'bin count', 'the reader restores the text %s as a count' % show(l)[:80], where(e))
                if meth == 'createBin':
                    self.kinds(e)
                if meth == 'createCross' and len(e.args) > 4:
                    self.crossed(e)

    def kinds(self, e):
        l = [l for l in reversed(e.loops) if self.ad.chain(mk('elem', l))]
        t = e.args[5] if len(e.args) > 5 else enumc(self.prog, COVER, 'CVGBIN')
        xs = [x for x in subterms(t) if x.op == 'xa']
        slots = {self.slot(x) for x in xs}
        if not xs:
            if t.op == 'const':
                tag = [self.ad.tag(mk('elem', q)) for q in l]
                self.ctx.viol('kind', 'bin kind', 'the reader gives every bin the kind %s' % show(t), where(e))
            else:
                self.say('kind', 'bin kind', 'kind is %s' % show(t)[:100], where(e), [t])
            return
        if len(slots) != 1 or None in slots:
            self.say('kind', 'bin kind', 'the reader takes the kind from %s' % show(t)[:120], where(e), [t])
            return
        (path, a), = slots
        el = xs[0].a[0]
        for x in self.writers(path):
            if x.el is None:
                continue
            v, bad = xmlw.attr(self.IW, x, a)
            if v is None:
                self.say('kind', 'bin kind', bad[1], where(bad[0]))
                continue
            codes = {}
            for kn in KINDS:
                c = '%s@%s %s' % ('/'.join(path[-1:]), a, kn)
                code = self.w.code(x, v, kn)
                has = mk('in', const(a), mk('attr', el, 'attrib'), None)
                if code is xmlw.UNSET:
                    got = subst(t, {has: FALSE})
                elif code.op == 'const':
                    got = xmlw.kinded(self.IR, subst(t, {has: TRUE}), xs[0], code)
                    # a code the reader rejects
                    gs = [xmlw.kinded(self.IR, subst(g, {has: TRUE}), xs[0], code) for g, tg in e.guards if xs[0] in subterms(g)]
                    if any(g is FALSE for g in gs):
                        self.ctx.viol('kind', c, 'written as %s, which the reader rejects or ignores' % show(code), where(e))
                        continue
                else:
                    self.say('kind', c, 'written as %s' % show(code)[:100], where(x.e), [code])
                    continue
                codes.setdefault(code, []).append(kn)
                if got.op == 'const':
                    self.ctx.decide('kind', c, same_val(got, enumc(self.prog, COVER, kn)), 'bins of kind %s are written as %s and read back as %s' % (
                        kn, show(code), show(got)), where(e))
                else:
                    self.say('kind', c, 'read back as %s' % show(got)[:100], where(e), [got])

    def crossed(self, e):
        arg = e.args[4]
        if arg.op != 'ref':
            self.say('slot', 'crossed coverpoints', 'the reader passes %s' % show(arg)[:80], where(e), [arg])
            return
        cs = [c for c in self.IR.contents(arg, State(None, e.e.guards)) or [] if not c.fill]
        for c in cs:
            hit = None
            for l in reversed(c.loops):
                ch = self.ad.chain(mk('elem', l))
                if ch is not None and l not in e.loops:
                    hit = (tuple(x for L, x in ch[1]), mk('elem', l))
                    break
            keys = [x for x in subterms(self.r.canon(c.value)) if x.op in ('attr', 'xa') and hit and x.a[0] is hit[1]]
            if hit is None or not keys:
                self.say('slot', 'crossed coverpoints', 'the reader does not take them from the document', where(e), [c.value] + [l.domain for l in c.loops])
                continue
            for k in set(keys):
                xs = self.writers(hit[0])
                if not xs:
                    self.ctx.viol('slot', 'crossed coverpoints', 'the reader takes them from %s, which is never written' % '/'.join(hit[0]), where(e))
                for x in xs:
                    if k.op == 'attr' and k.a[1] == 'text':
                        v, bad = xmlw.text(self.IW, x)
                    elif k.op == 'xa':
                        v, bad = xmlw.attr(self.IW, x, k.a[1])
                    else:
                        continue
                    ok = v is not None and v.op == 'call' and v.a[1] in ('getScopeName', 'getName') and v.a[0].op == 'call' and v.a[0].a[1] == 'getIthCrossedCoverpoint'
                    if ok:
                        self.ctx.ok('slot', 'crossed coverpoints: ' + '/'.join(hit[0]), 'name of the crossed coverpoint', where(e))
                    else:
                        self.say('slot', 'crossed coverpoints: ' + '/'.join(hit[0]), 'the writer puts %s there' % show(v)[:100], where(x.e), [v] if v is not None else ())

    # ---------------------------------------------------------------- history nodes
    def history(self):
        ctx, IW, prog = self.ctx, self.IW, self.prog
        made = [e for e in self.IR.log if e.kind == 'call' and e.name == 'createHistoryNode' and not e.pure]
        made = [importer.CEv(e, self.r.canon) for e in made]
        if len(made) != 1:
            (ctx.und if made else ctx.viol)('each', 'history node', 'the reader creates history nodes in %d places' % len(made), xmlr.FILE)
            return
        m = made[0]
        tag = None
        for l in m.loops:
            ch = self.ad.chain(mk('elem', l))
            if ch:
                tag, el, path = ch[1][-1][1], mk('elem', l), tuple(t for L, t in ch[1])
        if tag is None:
            self.say('each', 'history node', 'not driven by an element of the document', where(m), [l.domain for l in m.loops])
            return
        g = [c for c, t in m.guards if t != 'raise' and c not in self.r.rz and not implied(c, m.loops)]
        tr = [c for l in m.loops for c in truncs(l)]
        if len(m.loops) != 1 or g or tr:
            self.say('each', 'history node', 'the reader does not create exactly one node per %s element: %s' % (tag, show(and_(g + tr))[:120]), where(m), g + tr)
        else:
            ctx.ok('each', 'history node read', 'one per %s element' % tag, where(m))
        fields = {'LogicalName': (m.args[1] if len(m.args) > 1 else NONE, TRUE, m), 'PhysicalName': (m.args[2] if len(m.args) > 2 else NONE, TRUE, m),
                  'Kind': (m.args[3] if len(m.args) > 3 else NONE, TRUE, m)}
        base = {c for c, t in m.guards}
        for e in self.IR.log:
            if e.kind == 'call' and not e.pure and e.recv is m.result and e.name.startswith('set') and e.args:
                ce = importer.CEv(e, self.r.canon)
                if [l for l in ce.loops if l not in m.loops]:
                    self.say('slot', 'history ' + e.name[3:], 'set repeatedly', where(ce), [l.domain for l in ce.loops])
                    continue
                c = and_([x for x, t in ce.guards if x not in base and t != 'raise' and x not in self.r.rz])
                old = fields.get(e.name[3:], (xmlw.UNSET, TRUE, None))
                fields[e.name[3:]] = (ite(c, ce.args[0], old[0]), TRUE, ce)
        # the writer's side
        xs = [x for x in self.doc.tagged(path[-1]) if subseq(path, elpath(self.doc, x))]
        node = None
        for x in xs:
            ls = [l for l in x.e.loops]
            for l in ls:
                ch = chain(mk('elem', l))
                if ch is not None and ch[0] is xmlw.DB and path_of(ch)[-1][0] in ('getHistoryNodes', 'historyNodes'):
                    node = (x, mk('elem', l), ls, ch)
        if node is None:
            self.say('each', 'history node', 'the writer writes no %s element per history node' % path[-1], xmlw.FILE, [l.domain for x in xs for l in x.e.loops])
            return
        x, h, ls, ch = node
        allk = cval(enumc(prog, 'ucis.history_node_kind.HistoryNodeKind', 'ALL'))
        gs = [c for c in extras(IW, x.e)]
        tr = [c for l in ls for c in truncs(l)]
        a = path_of(ch)[-1][1]
        if len(ls) != 1 or gs or tr or a and a[0] not in (allk, None):
            self.say('each', 'history node', 'the writer does not write one element per history node: %s' % (show(and_(gs + tr))[:120] if gs or tr else show(ls[-1].domain)[:80]), where(x.e), gs + tr)
        else:
            ctx.ok('each', 'history node written', 'one element per node', where(x.e))
        for y in xs:
            if y is x:
                continue
            c = and_([mk('nonempty', strip_it(ls[-1].domain))] + [c for c, t in y.e.guards if t != 'raise'])
            if table(c)[1]:
                ctx.ok('each', 'placeholder', 'only in a database without history nodes', where(y.e))
            else:
                self.say('each', 'placeholder', 'a further %s element is written although the database has history nodes' % path[-1], where(y.e), [c])
        api = prog.cls('ucis.history_node.HistoryNode')
        d = self.S.decl(self.S.types.get('HISTORY_NODE') is not None and 'HISTORY_NODE') if self.S else None
        for n in sorted({n for n, v, e in x.attrs}):
            v, bad = xmlw.attr(IW, x, n)
            c = '%s@%s' % (path[-1], n)
            at = where([e for k, w, e in x.attrs if k == n][-1])
            if v is None:
                self.say('slot', c, bad[1], at)
                continue
            gets = {t for t in subterms(v) if t.op == 'call' and t.a[0] is h}
            if not gets:
                continue            # not a field of the node
            if len(gets) > 1:
                self.say('slot', c, 'written from several fields: %s' % ', '.join(sorted(t.a[1] for t in gets)), at, [v])
                continue
            get, = gets
            f = get.a[1][3:] if get.a[1].startswith('get') else get.a[1]
            self.lost(c, v, get, at)
            if f not in fields:
                others = [k for k, (t, q, e) in fields.items() if any(y.op == 'xa' and y.a[0] is el and y.a[1] == n for y in subterms(t))]
                if others:
                    self.say('slot', c, 'written from %s but restored to %s' % (f, ', '.join(others)), at)
                elif api is not None and api.find('set' + f) is not None if hasattr(api, 'find') else self.settable(api, f):
                    self.say('slot', c, 'field %s is written but never restored by the reader' % f, at)
                else:
                    ctx.ok('slot', c, '%s has no setter' % f, at)
                continue
            t, q, e = fields[f]
            src = {(y.a[1] if y.a[0] is el else None) for y in subterms(t) if y.op == 'xa'}
            if src != {n}:
                self.say('slot', c, 'written from %s, but the reader restores %s from %s' % (f, f, ', '.join(sorted(str(s) for s in src)) or show(t)[:60]), where(e), [t])
                continue
            has = mk('in', const(n), mk('attr', el, 'attrib'), None)
            val = self.r.canon(subst(t, {has: TRUE}))
            absent = subst(t, {has: FALSE})
            if xmlw.UNSET in subterms(val):
                self.say('slot', c, 'restored only in some cases: %s' % show(val)[:120], where(e), [val])
                continue
            if xmlw.UNSET in leaves(v) and any(y.op == 'xa' for y in subterms(absent)):
                self.say('slot', c, 'read without checking for its presence, although it is not written for every node', where(e), [absent])
                continue
            ctx.ok('slot', c, f, where(e))
            self.conversion(c, f, n, v, val, get, mk('xa', el, n), d, e)
        names = {k for k, v, e in x.attrs}
        for f, (t, q, e) in sorted(fields.items()):
            for y in {y for y in subterms(t) if y.op == 'xa' and y.a[0] is el}:
                if y.a[1] not in names:
                    ctx.viol('slot', '%s@%s' % (path[-1], y.a[1]), 'the reader restores %s from here, but the writer never sets it' % f, where(e))

    def settable(self, api, f):
        c = api
        return c is not None and ('set' + f) in getattr(c, 'methods', {})

    def lost(self, c, v, get, at):
        """Only unset values (None, negative numbers) may be left out."""
        if xmlw.UNSET not in leaves(v):
            self.ctx.ok('kept', c, 'always written', at)
            return
        for cond, val in casesof(v):
            if val is not xmlw.UNSET:
                continue
            # written out: the value is None or negative
            unset = [isnone(get), mk('op', '<', get, ZERO)]
            if cond is isnone(get) or cond is not_(mk('op', '>=', get, ZERO)) or cond is mk('op', '<', get, ZERO):
                self.ctx.ok('kept', c, 'left out only when unset', at)
                continue
            w = self.witness(cond, get)
            if w is not None:
                self.ctx.viol('kept', c, 'the value %r is not written' % (w,), at)
            elif w is None and self.covered(cond, get):
                self.ctx.ok('kept', c, 'left out only when unset', at)
            else:
                self.ctx.und('kept', c, 'left out when %s' % show(cond)[:120], at)

    def samples(self, get):
        return ('', 'x', '0') if self.stringy(get) else (0, 1, 7, 0.5)

    def stringy(self, get):
        return get.a[1][3:] not in ('SimTime', 'CpuTime', 'Cost', 'SameTests')

    def witness(self, cond, get):
        for s in self.samples(get):
            r = subst(cond, {get: const(s)})
            r = fold_(r)
            if r is TRUE:
                return s
        return None

    def covered(self, cond, get):
        for s in self.samples(get):
            r = subst(cond, {get: const(s)})
            r = fold_(r)
            if r is not FALSE:
                return False
        return True

    def conversion(self, c, f, n, v, val, get, xat, d, e):
        """val(v(get)) == get"""
        ty = 'string'
        if d is not None and n in d.attrs:
            ty = (d.attrs[n][1] or 'string').split(':')[-1]
        ws = [l for l in leaves(v) if l is not xmlw.UNSET]
        at = where(e)
        api = self.prog.cls('ucis.history_node.HistoryNode')
        if all(l.op == 'const' for l in ws) and len(ws) > 1:
            # written as one of two codes
            self.boolean(c, v, val, get, xat, at)
            return
        if len(ws) != 1:
            self.say('conversion', c, 'written as %s' % show(v)[:120], at, [v])
            return
        w = ws[0]
        if ty == 'dateTime' or any(x.op == 'call' and x.a[1] == 'strptime' or x.op == 'call' and x.a[1].endswith('strptime') for x in subterms(w)):
            self.dates(c, w, val, get, xat, at)
            return
        if xmlw.unstr(w) is not get:
            self.say('conversion', c, 'written as %s' % show(w)[:120], at, [w])
            return
        num = ty in NUM or not self.stringy(get)
        en = self.enumtype(api, f)
        if val is xat or val.op == 'str' and val.a[0] is xat:
            if num:
                self.ctx.viol('conversion', c, 'the number %s is restored as text' % f, at)
            elif en:
                self.ctx.viol('conversion', c, 'the %s value %s is restored as text' % (en, f), at)
            else:
                self.ctx.ok('conversion', c, 'text', at)
            return
        op = val.a[0] if val.op == 'op' and len(val.a) == 2 and val.a[1] is xat else (val.op if val.op in ('int', 'float') and val.a[0] is xat else None)
        if val.op == 'call' and len(val.a[2]) == 1 and val.a[2][0] is xat:
            op = val.a[1].split('.')[-1]
        if op == 'float' and num:
            self.ctx.ok('conversion', c, 'float(str(x))', at)
        elif op == 'int' and num:
            self.ctx.decide('conversion', c, ty not in ('double', 'decimal', 'float'), 'fractional values of %s are written but read with int()' % f, at)
        elif op in ('int', 'float'):
            self.ctx.viol('conversion', c, 'the text %s is restored as a number' % f, at)
        else:
            self.say('conversion', c, 'restored as %s' % show(val)[:120], at, [val])

    def enumtype(self, api, f):
        fn = api.methods.get('get' + f) if api is not None and hasattr(api, 'methods') else None
        node = getattr(fn, 'node', None)
        r = getattr(node, 'returns', None)
        n = getattr(r, 'id', None) or getattr(r, 'attr', None)
        return n if n and (n.endswith('Kind') or n.endswith('T')) and n != 'T' else None

    def boolean(self, c, v, val, get, xat, at):
        ok = enumc(self.prog, 'ucis.test_status_t.TestStatusT', 'OK')
        for status, truthy in (('OK', True), ('WARNING', None), ('ERROR', False), ('FATAL', False)):
            en = enumc(self.prog, 'ucis.test_status_t.TestStatusT', status)
            w = subst(v, {get: en})
            w = subst(w, {x: truth(x.a[0]) for x in subterms(w) if x.op == 'truth'})
            if w.op != 'const':
                self.say('conversion', c, 'written as %s for %s' % (show(w)[:80], status), at, [w])
                return
            r = subst(val, {xat: w})
            back = subst(mk('op', '==', r, ok), {}) if r.op != 'const' else None
            if r.op == 'const':
                rv = cval(r)
                rv = getattr(rv, 'value', rv)
                isok = rv == getattr(cval(ok), 'value', cval(ok)) if not isinstance(rv, bool) else rv is True
            else:
                self.say('conversion', c, 'restored as %s for %s' % (show(r)[:80], status), at, [r])
                return
            if truthy is None:
                continue
            if isok != truthy:
                self.ctx.viol('conversion', c, 'a test with status %s is read back as %s' % (status, 'passed' if isok else 'not passed'), at)
                return
        self.ctx.ok('conversion', c, 'passed or not', at)

    def dates(self, c, w, val, get, xat, at):
        def fn(x):
            return x.a[1].split('.')[-1] if x.op == 'call' else None

        def args(x):
            return ([x.a[0]] if x.a[0] is not None else []) + list(x.a[2])
        # writer: text <- datetime <- strptime(get, F)
        infmt = outfmt = None
        utc = None
        for x in subterms(w):
            if fn(x) == 'strptime' and get in x.a[2]:
                infmt = cval(x.a[2][1]) if len(x.a[2]) > 1 and x.a[2][1].op == 'const' else None
            if fn(x) == 'isoformat':
                outfmt = ISO if not x.a[2] or all(a.op == 'const' and cval(a) == 'T' for a in x.a[2]) else None
            if fn(x) == 'strftime' and x is w:
                outfmt = cval(x.a[2][-1]) if x.a[2] and x.a[2][-1].op == 'const' else None
            if fn(x) in ('mktime',):
                utc = (utc or '') + 'l'
            if fn(x) in ('timegm',):
                utc = (utc or '') + 'u'
            if fn(x) in ('fromtimestamp',):
                utc = (utc or '') + 'L'
            if fn(x) in ('utcfromtimestamp', 'gmtime'):
                utc = (utc or '') + 'U'
        rin = rout = None
        for x in subterms(val):
            if fn(x) == 'strptime' and xat in x.a[2]:
                rin = cval(x.a[2][1]) if len(x.a[2]) > 1 and x.a[2][1].op == 'const' else None
            if fn(x) == 'fromisoformat':
                rin = ISO
            if fn(x) == 'strftime':
                rout = cval(x.a[2][-1]) if x.a[2] and x.a[2][-1].op == 'const' else None
        if None in (infmt, outfmt, rin, rout):
            if val is xat and not [x for x in (w,) if unknown(w)]:
                self.ctx.viol('conversion', c, 'the date is restored in the format of the document, not in that of the database', at)
            else:
                self.ctx.und('conversion', c, 'written as %s, read as %s' % (show(w)[:80], show(val)[:80]), at)
            return
        if utc and set(utc.lower()) == {'l', 'u'}:
            self.ctx.viol('conversion', c, 'the date is converted between local time and UTC on the way out', at)
            return
        if rin.replace('.%f', '') != outfmt:
            self.ctx.viol('conversion', c, 'dates are written as %s but read as %s' % (outfmt, rin), at)
        elif rout != infmt:
            self.ctx.viol('conversion', c, 'dates have the format %s in the database but are restored as %s' % (infmt, rout), at)
        else:
            self.ctx.ok('conversion', c, '%s <-> %s' % (infmt, outfmt), at)


def fold_(r):
    return subst(r, {x: truth(x.a[0]) if x.op == 'truth' else const(bool(cval(x.a[0]))) for x in subterms(r)
                     if x.op in ('truth', 'nonempty') and x.a[0].op == 'const'})


def casesof(t, c=TRUE):
    if t.op == 'ite':
        return casesof(t.a[1], and_([c, t.a[0]])) + casesof(t.a[2], and_([c, not_(t.a[0])]))
    return [(c, t)]


def c11(ctx, prog):
    ctx.rule('each', 'one history element per history node, and one node per element')
    ctx.rule('slot', 'the reader restores a field from the attribute or text where the writer put that field')
    ctx.rule('kept', 'a field is left out only when it is unset (None or negative)')
    ctx.rule('conversion', "the reader's conversion is the inverse of the writer's")
    ctx.rule('kind', 'the code written for each bin kind is read back as that kind')
    rt = RT(ctx, prog)
    rt.items()
    rt.history()
