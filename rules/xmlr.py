"""C09 (and the reading side of C11): the XML importer."""
from .base import *
from .mirror import *
from . import importer, nstag, xmlw
from .importer import Importer, SCOPE, COVER

FILEARG = mk('sym', 'file')
FILE = 'src/ucis/xml/xml_reader.py'
MEM = 'ucis.mem.mem_ucis.MemUCIS'
SRC = '''
from ucis.xml.xml_reader import XmlReader
def observe(obs, file):
    r = XmlReader()
    obs.DB(r.read(file))
'''
STEPS = ('iter', 'findall', 'iterfind', 'iterchildren', 'iterdescendants', 'getiterator')
_cache = {}


def analyse(prog):
    if prog not in _cache:
        if prog.cls('ucis.xml.xml_reader.XmlReader') is None:
            raise AnchorError('XmlReader')
        if prog.cls(MEM) is None:
            raise AnchorError(MEM)
        mod = 'verif_obs_xmlr'
        prog.add_source(mod, SRC)
        I = Interp(prog, opaque_classes=(MEM,))
        st = State()
        I.callq(mod + '.observe', [OBS, FILEARG], st=st)
        _cache[prog] = (I, st)
    return _cache[prog]


def steptag(v):
    if not isinstance(v, str):
        return None
    return v.split('}')[-1].split('/')[-1].lstrip('.')


class Adapter(object):
    def __init__(self, schema):
        self.s = schema
        self.req = {}
        self.one = {}
        if schema is not None:
            self.collect(schema)
        self.cc = {}

    def collect(self, S):
        seen = {}
        decls = [(n, S.decl(e)) for n, e in S.elems.items()]
        for t in list(S.types):
            decls.append((None, S.decl(t)))
        for owner, d in decls:
            if d is None:
                continue
            for n, (pos, ty, lo, hi, ch) in d.kids.items():
                k = S.decl(ty) if not (isinstance(ty, str) and ty.startswith('xsd:')) else None
                if k is not None:
                    seen.setdefault(n, []).append(k)
        for n, ds in seen.items():
            self.req[n] = set.intersection(*[{a for a, v in d.attrs.items() if v[0]} for d in ds])
            self.one[n] = set.intersection(*[{c for c, v in d.kids.items() if v[2] >= 1 and v[3] == '1'} for d in ds])
        r = [S.decl(e) for n, e in S.elems.items() if n == 'UCIS']
        if r:
            self.req['UCIS'] = {a for a, v in r[0].attrs.items() if v[0]}

    def chain(self, el):
        """(root, [(Loop, tag)])"""
        if el in self.cc:
            return self.cc[el]
        self.cc[el] = None
        r = None
        if el.op == 'elem':
            L = el.a[0]
            d = strip_it(L.domain)
            while d.op == 'listof':
                d = strip_it(d.a[0])
            if d.op == 'call' and d.a[0] is not None and d.a[1] in STEPS and len(d.a[2]) == 1 and d.a[2][0].op == 'const':
                tag = steptag(cval(d.a[2][0]))
                up = d.a[0]
                if up.op == 'elem':
                    u = self.chain(up)
                    if u is not None and tag:
                        r = (u[0], u[1] + [(L, tag)])
                elif tag and not free_loops(up) and self.doc(up):
                    r = (self.doc(up), [(L, tag)])
        self.cc[el] = r
        return r

    def doc(self, t):
        while t.op == 'call' and t.a[1] in ('getroot',) and t.a[0] is not None:
            t = t.a[0]
        return t if t.op == 'new' and t.a[0].endswith(('parse', 'fromstring', 'XML', 'getroot')) else None

    def tag(self, x):
        if x.op == 'xc':
            return x.a[1]
        ch = self.chain(x)
        return ch[1][-1][1] if ch else None

    def rule(self, t):
        op = t.op
        if op == 'exc':
            return FALSE
        if op == 'index' and t.a[0].op == 'attr' and t.a[0].a[1] == 'attrib' and t.a[1].op == 'const':
            return self.rule(mk('xa', t.a[0].a[0], cval(t.a[1])))
        if op == 'call' and t.a[1] == 'get' and t.a[0] is not None and t.a[2] and t.a[2][0].op == 'const' and isinstance(cval(t.a[2][0]), str):
            x = t.a[0]
            if x.op == 'attr' and x.a[1] == 'attrib':
                x = x.a[0]
            if x.op in ('elem', 'xc'):
                k = cval(t.a[2][0])
                d = t.a[2][1] if len(t.a[2]) > 1 else NONE
                return ite(self.rule(mk('in', const(k), mk('attr', x, 'attrib'), None)), mk('xa', x, k), d)
        if op == 'in' and t.a[0].op == 'const' and t.a[1].op == 'attr' and t.a[1].a[1] == 'attrib':
            x = t.a[1].a[0]
            if cval(t.a[0]) in self.req.get(self.tag(x), ()):
                return TRUE
            return mk('in', t.a[0], t.a[1], None)
        if op == 'nextv' and t.a[0].op == 'ite' and t.a[1] in (0, ZERO):
            c, a, b = t.a[0].a
            return ite(c, self.rule(mk('nextv', a, *t.a[1:])), self.rule(mk('nextv', b, *t.a[1:])))
        if op == 'xa' and t.a[0].op == 'ite':
            c, a, b = t.a[0].a
            return ite(c, self.rule(mk('xa', a, t.a[1])), self.rule(mk('xa', b, t.a[1])))
        if op == 'nextv' and t.a[1] in (0, ZERO):
            d = strip_it(t.a[0])
            if d.op == 'call' and d.a[1] in STEPS and len(d.a[2]) == 1 and d.a[2][0].op == 'const' and steptag(cval(d.a[2][0])):
                return mk('xc', d.a[0], steptag(cval(d.a[2][0])))
        if op == 'call' and t.a[1] == 'find' and t.a[0] is not None and t.a[0].op in ('elem', 'xc') and len(t.a[2]) == 1 and t.a[2][0].op == 'const' and steptag(cval(t.a[2][0])):
            return mk('xc', t.a[0], steptag(cval(t.a[2][0])))
        if op == 'index' and t.a[1] is ZERO:
            d = strip_it(t.a[0])
            while d.op == 'listof':
                d = strip_it(d.a[0])
            if d.op == 'call' and d.a[1] in STEPS and len(d.a[2]) == 1 and d.a[2][0].op == 'const' and steptag(cval(d.a[2][0])):
                return mk('xc', d.a[0], steptag(cval(d.a[2][0])))
        if op == 'isnone' and t.a[0].op == 'xc':
            x, tag = t.a[0].a
            if tag in self.one.get(self.tag(x), ()):
                return FALSE
        if op == 'isnone' and t.a[0].op == 'xa':
            return FALSE       # the value of an attribute that is there
        if op == 'isnone' and t.a[0].op == 'ite':
            c, a, b = t.a[0].a
            return ite(c, self.rule(mk('isnone', a)), self.rule(isnone(b)))
        if op == 'truth' and t.a[0].op == 'xc':
            return t
        if op == 'fallible':
            return t
        return t


def xa(el, k):
    return mk('xa', el, k)


def strip_c(t):
    """(base item, [tags]) of a nested first-child term."""
    tags = []
    while t.op == 'xc':
        tags.insert(0, t.a[1])
        t = t.a[0]
    return t, tags


def is_count(el, v):
    """int(coverageCount of the item's contents)"""
    if v.op == 'ite':
        return is_count(el, v.a[1]) and is_count(el, v.a[2])
    x = None
    for w in conv(v):
        x = w
    if x is None or x.op not in ('xa', 'ite'):
        return False
    if x.op == 'ite':
        return is_count(el, mk('op', 'int', x.a[1])) and is_count(el, mk('op', 'int', x.a[2]))
    b, tags = strip_c(x.a[0])
    return x.a[1] == 'coverageCount' and b is el and tags[-1:] == ['contents'] and set(tags[:-1]) <= {'range', 'sequence'}


def conv(v):
    """x for int(x)"""
    if v.op == 'op' and v.a[0] == 'int' and len(v.a) == 2:
        return [v.a[1]]
    if v.op == 'call' and v.a[1] == 'int' and len(v.a[2]) == 1:
        return [v.a[2][0]]
    if v.op == 'int':
        return [v.a[0]]
    return []


CODES = (('bins', 'CVGBIN'), ('default', 'CVGBIN'), ('ignore', 'IGNOREBIN'), ('illegal', 'ILLEGALBIN'))


class X(Importer):
    def kindmap(self, el, t, absent=False):
        """{code: value} of a kind expression."""
        out = {}
        has = mk('in', const('type'), mk('attr', el, 'attrib'), None)
        for code, kn in CODES:
            out[code] = xmlw.kinded(self.I, subst(subst(t, {has: TRUE}), {}), xa(el, 'type'), const(code))
        if absent:
            out[None] = subst(t, {has: FALSE})
        return out

    def kind(self, construct, e, el, t, cross):
        m = self.kindmap(el, t, absent=cross)
        for code, kn in CODES + (((None, 'CVGBIN'),) if cross else ()):
            if cross and code == 'bins':
                continue
            v = m[code]
            want = enumc(self.prog, COVER, kn)
            c = '%s type=%s' % (construct, code)
            if v.op == 'const':
                self.ctx.decide('bin-kind', c, same_val(v, want), 'read as %s instead of %s' % (show(v), kn), where(e))
            else:
                self.fail('bin-kind', c, 'kind is %s' % show(v)[:140], e, [v])

    def name(self, construct, e, i, want):
        t = e.args[i] if len(e.args) > i else NONE
        if t is want:
            self.ctx.ok('name', construct, '', where(e))
        else:
            self.fail('name', construct, 'named %s instead of the name in the document' % show(t)[:120], e, [t])

    def bins(self, construct, evs, parent, path, shared, cross):
        for e in evs:
            r = self.exact(construct, e, parent, path, shared)
            if r is None:
                continue
            el, loops = r
            self.name(construct, e, 0, xa(el, 'name'))
            self.count(construct, e, el)
            self.one(construct, e, 2, 'at-least')
            self.kind(construct, e, el, e.args[5] if len(e.args) > 5 else enumc(self.prog, COVER, 'CVGBIN'), cross)
        self.settle(construct)

    def count(self, construct, e, el):
        t = e.args[3] if len(e.args) > 3 else NONE
        for c in leaves(t):
            if not is_count(el, c):
                self.fail('count', construct, 'the count is %s' % show(t)[:160], e, [t])
                return
        self.ctx.ok('count', construct, 'coverageCount of its own contents', where(e))

    def names_of(self, cr_el):
        """Accepted forms of a crossed coverpoint's name, and its loop."""
        def f(c):
            for l in reversed(c.loops):
                ch = self.ad.chain(mk('elem', l))
                if ch and ch[1][-1][1] == 'crossExpr':
                    if len(ch[1]) < 2 or mk('elem', ch[1][-2][0]) is not cr_el:
                        return None, None
                    tx = mk('attr', mk('elem', l), 'text')
                    return (tx, mk('call', tx, 'strip', (), ())), l
            return None, None
        return f


def gname(el):
    return xa(mk('xc', el, 'cgId'), 'cgName')


def c09(ctx, prog):
    ctx.rule('once', 'one create per document item of its kind, under the matching parent, unconditionally')
    ctx.rule('distinct', 'one create per distinct name, with a table of names of its own per parent')
    ctx.rule('own-parent', 'objects are created under the object of their own parent item')
    ctx.rule('every-instance', 'the type level is built from every instance')
    ctx.rule('name', 'the created object has the name in the document')
    ctx.rule('count', 'the count of an instance bin is the coverageCount of its own contents')
    ctx.rule('bin-kind', 'each type code is read as its bin kind')
    ctx.rule('type-count', 'the count of a type bin is the sum over the same-named bins of the same-named items of all its instances')
    ctx.rule('design-unit', 'one design unit per distinct moduleName, to which the instances of that module refer')
    ctx.rule('defaults', 'weights and at-least thresholds the document does not give are 1')
    ctx.rule('cross-link', 'a cross links, in document order, the coverpoints of its own parent by name; an unknown name is rejected')
    I, st = analyse(prog)
    ctx.absorb(I, strict=True)
    path = os.path.join(REPO, xmlw.XSD)
    ad = Adapter(xmlw.Schema(path) if os.path.exists(path) else None)
    dbs = [e for e in I.log if e.kind == 'call' and e.recv is OBS and e.name == 'DB']
    if not dbs:
        ctx.und('once', 'database', 'the reader does not return on any analysed path')
        return
    db = dbs[-1].args[0]
    if db.op != 'new' or db.a[0] != MEM:
        ctx.und('once', 'database', 'the reader returns %s' % show(db)[:100])
        return
    x = X(ctx, I, db, ad, prog)
    x.conds = {}
    namespaces(ctx, prog, I, ad)
    walk(x)
    from . import report
    report.reordered(ctx, I, 'import')
    for e in I.log:
        if e.kind == 'call' and e.name.startswith('create') and any(c.op == 'uniq' and c.a[1].op == 'ref' and c.a[1].a[0].kind == 'set' for c, t in e.guards):
            ctx.viol('once', 'order', '%s is driven by the iteration of a set' % e.name, where(e))


def namespaces(ctx, prog, I, ad):
    ctx.rule('namespace', 'documents are accepted and read whether or not elements carry a namespace, and whatever comments they hold')
    isdoc = lambda t: ad.doc(t) is not None
    look = [e for e in I.log if e.kind == 'call' and e.recv is not None and e.name in STEPS + ('find',) and e.args and e.args[0].op == 'const' and steptag(cval(e.args[0]))
            and cval(e.args[0]) != '*']
    if look and all('{*}' in cval(e.args[0]) for e in look):
        ctx.ok('namespace', 'reader', 'every lookup accepts any namespace', where(look[0]))
    else:
        nstag.check(ctx, 'namespace', 'reader', I, isdoc, look, FILE, needroot=False)
    v = 'ucis.xml.validate_ucis_xml'
    if prog.func(v) is None:
        ctx.und('namespace', 'validation', '%s is gone' % v, '')
        return
    J = Interp(prog)
    J.callq(v, [FILEARG], st=State())
    sinks = [e for e in J.log if e.kind == 'call' and e.name in ('assertValid', 'validate', 'assert_', '__call__') and any(isdoc(a) for a in e.args or ())]
    docs = {ad.doc(a) for e in sinks for a in e.args or () if isdoc(a)}
    nstag.check(ctx, 'namespace', 'validation', J, lambda t: ad.doc(t) in docs, sinks, 'src/ucis/xml/__init__.py')


def walk(x):
    ctx = x.ctx
    P1 = ('instanceCoverages',)
    P2 = P1 + ('covergroupCoverage',)
    P3 = P2 + ('cgInstance',)
    nm = lambda el: xa(el, 'name')
    insts = x.creates('createInstance', None, 'instance')
    for e in insts:
        r = x.distinct('instance', e, None, P1, nm, [()], {})
        if r is None:
            continue
        el, loops, bad = r
        x.name('instance', e, 0, nm(el))
        x.one('instance', e, 2, 'weight')
        unit(x, e, el)
        groups(x, e, loops, P2, P3, nm)
    x.settle('instance', 'distinct')
    module = lambda el: mk('ite', has(el, 'moduleName'), xa(el, 'moduleName'), const('default'))
    for e in x.creates('createScope', None, 'design unit', 'design-unit'):
        t = e.args[0]
        it = x.item(e, P1)
        alt = lambda el: module(el)
        if it is not None and t.op == 'ite' and t.a[0] is has(it[0], 'moduleName') and t.a[2].op == 'const':
            alt = lambda el: mk('ite', has(el, 'moduleName'), xa(el, 'moduleName'), t.a[2])
        elif it is not None and t is xa(it[0], 'moduleName'):
            alt = lambda el: xa(el, 'moduleName')
        r = x.distinct('design unit', e, None, P1, alt, [()], {}, 'design-unit')
        if r is None:
            continue
        x.name('design unit', e, 0, x.canon(alt(r[0])))
        x.one('design unit', e, 2, 'weight')
    x.settle('design unit', 'design-unit')
    lost = [e for e in x.ev if e not in x.used and e.name in ('createCovergroup', 'createCoverInstance', 'createCoverpoint', 'createCross', 'createBin', 'createInstance')]
    for e in lost:
        x.fail('own-parent', e.name, 'performed on %s, which is not the object the document item belongs to' % show(e.recv)[:100], e, [e.recv])


def has(el, k):
    return mk('in', const(k), mk('attr', el, 'attrib'), None)


def unit(x, e, el):
    """The instance refers to the design unit of its own element."""
    t = e.args[5] if len(e.args) > 5 else dict(e.kw or ()).get('du_scope', NONE)
    made = [d for d in x.ev if d.name == 'createScope']
    for v in leaves(t):
        hit = [d for d in made if d.result.a[:2] == v.a[:2]] if v.op == 'new' else []
        if v.op == 'lookup' and v.a[1].op == 'const':
            x.fail('design-unit', 'instance', 'the instance refers to the design unit filed under %s whatever its module' % show(v.a[1]), e)
            return
        if not hit and el not in subterms(v) and not any(z.op in ('mu', 'top', 'rec') for z in subterms(v)):
            x.ctx.viol('design-unit', 'instance', 'the instance refers to %s whatever its module' % show(v)[:120], where(e))
            return
        if not hit:
            x.fail('design-unit', 'instance', 'the instance refers to %s instead of the design unit of its module' % show(t)[:120], e, [t])
            return
        if el.a[0] not in v.a[2]:
            x.fail('design-unit', 'instance', 'the instance refers to the design unit of another element', e, [t])
            return
    x.ctx.ok('design-unit', 'instance', 'the design unit of its own moduleName', where(e))


def groups(x, inst, il, P2, P3, nm):
    for g in x.creates('createCovergroup', inst, 'covergroup', 'distinct'):
        # the covergroups of a later element of the same instance name belong to the same instance
        ip = Fake(inst, [c for c in inst.guards if c[0].op != 'fresh'])
        lif = [tuple(il)]
        it = x.item(g, P3)
        if it:
            lif.append(tuple(it[1][:2]))
        r = x.distinct('covergroup', g, ip, P3, gname, lif, {1: 'any'})
        if r is None:
            continue
        el, loops, bad = r
        x.name('covergroup', g, 0, gname(el))
        x.one('covergroup', g, 2, 'weight')
        for ci in x.creates('createCoverInstance', g, 'covergroup instance'):
            gp = Fake(g, [c for c in g.guards if c[0].op != 'fresh'])
            it = x.item(ci, P3)
            if it is None:
                x.placed('covergroup instance', ci, P3)
                continue
            ie, iloops = it
            drop = []
            if ie is not el:
                c = eq(x.canon(gname(el)), x.canon(gname(ie)))
                if c not in {q for q, t in ci.guards} and c is not TRUE:
                    x.fail('own-parent', 'covergroup instance', 'created under a covergroup of another type', ci, [q for q, t in ci.guards])
                drop = [c] + [q for q, t in g.guards if q.op == 'fresh']
            shared = list(g.loops)
            x.exact('covergroup instance', ci, gp, P3, shared, drop)
            x.name('covergroup instance', ci, 0, nm(ie))
            x.one('covergroup instance', ci, 2, 'weight')
            inst_items(x, ci, ie, iloops, P3, nm)
        x.settle('covergroup instance')
        type_items(x, g, el, loops, P3, nm)
    x.settle('covergroup', 'distinct')


class Fake(object):
    def __init__(self, e, guards):
        self.__dict__.update(e.__dict__)
        self.guards = guards


def inst_items(x, ci, ie, il, P3, nm):
    cps = x.creates('createCoverpoint', ci, 'instance coverpoint')
    for e in cps:
        r = x.exact('instance coverpoint', e, ci, P3 + ('coverpoint',), il)
        if r is None:
            continue
        el, loops = r
        x.name('instance coverpoint', e, 0, nm(el))
        x.one('instance coverpoint', e, 2, 'weight')
        x.bins('instance coverpoint/bin', x.creates('createBin', e, 'instance coverpoint/bin'), e, P3 + ('coverpoint', 'coverpointBin'), loops, False)
    x.settle('instance coverpoint')
    for e in x.creates('createCross', ci, 'instance cross'):
        r = x.exact('instance cross', e, ci, P3 + ('cross',), il)
        if r is None:
            continue
        el, loops = r
        x.name('instance cross', e, 0, nm(el))
        x.one('instance cross', e, 2, 'weight')
        if len(e.args) < 5:
            x.fail('cross-link', 'instance cross', 'created without coverpoints', e)
        else:
            x.link('instance cross', e, e.args[4], x.names_of(el), ci, [ci.loops, il], lambda cp, k: k is cp.args[0], ci)
        x.bins('instance cross/bin', x.creates('createBin', e, 'instance cross/bin'), e, P3 + ('cross', 'crossBin'), loops, True)
    x.settle('instance cross')


def type_items(x, g, gel, gl, P3, nm):
    gk = x.canon(gname(gel))
    for tag, meth, bt in (('coverpoint', 'createCoverpoint', 'coverpointBin'), ('cross', 'createCross', 'crossBin')):
        c = 'type ' + tag
        for e in x.creates(meth, g, c, 'distinct'):
            r = x.distinct(c, e, g, P3 + (tag,), nm, [g.loops], {2: (gname, gk)})
            if r is None:
                continue
            el, loops, bad = r
            x.name(c, e, 0, nm(el))
            x.one(c, e, 2, 'weight')
            if tag == 'cross':
                if len(e.args) < 5:
                    x.fail('cross-link', c, 'created without coverpoints', e)
                else:
                    x.link(c, e, e.args[4], x.names_of(el), g, [g.loops], lambda cp, k: k is cp.args[0], g)
            cb = c + '/bin'
            for b in x.creates('createBin', e, cb, 'distinct'):
                lev = {2: (gname, gk), 3: (nm, x.canon(nm(el)))}
                # the table of bins lives as long as the coverpoint it belongs to
                r = x.distinct(cb, b, e, P3 + (tag, bt), nm, [e.loops], lev)
                if r is None:
                    continue
                bel, bl, bad = r
                x.name(cb, b, 0, nm(bel))
                x.one(cb, b, 2, 'at-least')
                lev[4] = (nm, x.canon(nm(bel)))
                x.sumcount(cb, b.args[3] if len(b.args) > 3 else NONE, b, P3 + (tag, bt), is_count, gl[:2], lev)
                x.kind(cb, b, bel, b.args[5] if len(b.args) > 5 else enumc(x.prog, COVER, 'CVGBIN'), tag == 'cross')
            x.settle(cb, 'distinct')
        x.settle(c, 'distinct')
