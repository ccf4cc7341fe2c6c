"""C08, C10 and the XML part of C03: the XML exporter.  The exporter runs abstractly on an opaque
database; the element tree it builds is read back from the analysis log."""
import re
import xml.etree.ElementTree as ET
from .base import *
from .mirror import *
from . import report
from .report import call

DB, OUT = mk('sym', 'db'), mk('sym', 'out')
FILE = 'src/ucis/xml/xml_writer.py'
XSD = 'src/ucis/xml/schema/ucis.xsd'
SRC = '''
from ucis.xml.xml_writer import XmlWriter
def observe(obs, db, out):
    w = XmlWriter()
    w.write(out, db)
'''
SUB = ('lxml.etree.SubElement', 'xml.etree.ElementTree.SubElement')
ELEM = ('lxml.etree.Element', 'xml.etree.ElementTree.Element')
_cache = {}


def analyse(prog):
    if prog not in _cache:
        if prog.cls('ucis.xml.xml_writer.XmlWriter') is None:
            raise AnchorError('XmlWriter')
        I, st, ev, r = observe(prog, 'xmlw', SRC, [DB, OUT])
        _cache[prog] = (I, st, Doc(I))
    return _cache[prog]


def tag_of(t):
    if t.op == 'call' and t.a[1].endswith('QName'):
        t = t.a[2][-1]
    if t.op == 'new' and t.a[0].endswith('QName'):
        return None
    v = cval(t) if t.op == 'const' else None
    if not isinstance(v, str):
        return None
    return v.split('}')[-1]


TABLES = ('sourceFiles', 'historyNodes')       # written for every database, even an empty one
XSI = '{http://www.w3.org/2001/XMLSchema-instance}'


def name_of(t):
    """Name of an attribute, with its namespace; '' for those any schema allows."""
    if t.op == 'call' and t.a[1].endswith('QName') and len(t.a[2]) == 2 and all(x.op == 'const' for x in t.a[2]):
        v = '{%s}%s' % (cval(t.a[2][0]), cval(t.a[2][1]))
    elif t.op == 'const' and isinstance(cval(t), str):
        v = cval(t)
    else:
        return tag_of(t)
    if v.startswith(XSI) and v[len(XSI):] in ('schemaLocation', 'noNamespaceSchemaLocation', 'type', 'nil'):
        return ''
    return v


def qualified(t):
    return t.op == 'call' and t.a[1].endswith('QName') or t.op == 'const' and str(cval(t)).startswith('{')


def cnorm(c):
    """Conditions on whether a collection has elements, in one form."""
    if c.op in ('and', 'or'):
        return (and_ if c.op == 'and' else or_)([cnorm(x) for x in c.a])
    if c.op == 'not':
        return not_(cnorm(c.a[0]))
    if c.op == 'isnone' and c.a[0].op == 'nextv' and c.a[0].a[1] in (0, ZERO) and c.a[0].a[2] is NONE:
        return not_(mk('nonempty', strip_it(c.a[0].a[0])))
    if c.op == 'exists' and len(c.a[0]) == 1 and not conj(list(c.a[1]) + list(c.a[2:])) or \
            c.op == 'exists' and len(c.a[0]) == 1 and all(x is TRUE for x in conj(list(c.a[1]) + list(c.a[2:]))):
        return mk('nonempty', strip_it(c.a[0][0].domain))
    if c.op == 'truth' and c.a[0].op == 'last' and c.a[0].a[-1] is TRUE and all(len(x) <= 1 for x in c.a[0].a[:1]):
        return TRUE        # only meaningful when the collection has elements; guarded by exists
    if c.op in ('nonempty', 'truth') and c.a[0].op == 'listof':
        return cnorm(mk('nonempty', c.a[0].a[0]))
    if c.op in ('nonempty', 'truth') and c.a[0].op in ('call', 'it'):
        return mk('nonempty', strip_it(c.a[0]))
    return c


class Ev(object):
    """An event with normalised conditions."""

    def __init__(self, e, loops=None, guards=None):
        self.e = e
        self.kind, self.name, self.site, self.stack, self.args, self.value = e.kind, e.name, e.site, e.stack, e.args, getattr(e, 'value', None)
        self.loops = e.loops if loops is None else loops
        self.guards = [(cnorm(c), t) for c, t in (e.guards if guards is None else guards)]


class El(object):
    def __init__(self, term, tag, parent, e, pos):
        self.term, self.tag, self.parent, self.e, self.pos = term, tag, parent, e, pos
        self.attrs = []       # (name, value, Ev)
        self.text = []
        self.el = None        # the database item it stands for
        self.kids = []


class Doc(object):
    def __init__(self, I):
        self.I = I
        self.elems = {}
        self.free = {}
        self.odd = []
        self.root = None
        self.writes = []
        made = set()
        for pos, e in enumerate(I.log):
            if e.kind == 'call' and e.name in SUB:
                tag = tag_of(e.args[1]) if len(e.args) > 1 else None
                if tag is None or e.args[0].op != 'new':
                    self.odd.append((e, 'element with unresolved name or parent'))
                    continue
                x = El(e.result, tag, e.args[0], Ev(e), pos)
                self.put(x, e)
            elif e.kind == 'call' and e.name in ELEM:
                tag = tag_of(e.args[0]) if e.args else None
                if tag is None:
                    self.odd.append((e, 'element with unresolved name'))
                    continue
                x = El(e.result, tag, None, Ev(e), pos)
                self.put(x, e)
            elif e.kind == 'call' and e.recv is not None and e.recv in self.elems:
                x = self.elems[e.recv]
                if e.name == 'set' and len(e.args) == 2:
                    n = name_of(e.args[0])
                    if n is None:
                        self.odd.append((e, 'attribute with unresolved name'))
                    elif n:
                        x.attrs.append((n, e.args[1], Ev(e)))
                elif e.name == 'append' and e.args and e.args[0] in self.elems:
                    k = self.elems[e.args[0]]
                    if k.parent is not None:
                        self.odd.append((e, 'element added twice'))
                    k.parent, k.e, k.pos = e.recv, Ev(e), pos
                elif e.name in ('insert', 'remove', 'clear', 'replace', 'addnext', 'addprevious', 'extend', 'append'):
                    self.odd.append((e, 'element operation %s' % e.name))
            elif e.kind == 'call' and e.name == '__setitem__' and e.recv.op == 'attr' and e.recv.a[1] == 'attrib' and e.recv.a[0] in self.elems:
                n = name_of(e.args[0])
                if n is None:
                    self.odd.append((e, 'attribute with unresolved name'))
                elif n:
                    self.elems[e.recv.a[0]].attrs.append((n, e.args[1], Ev(e)))
            elif e.kind == 'call' and e.recv is not None and e.recv.op == 'attr' and e.recv.a[1] == 'attrib' and e.recv.a[0] in self.elems and not e.pure:
                self.odd.append((e, 'attribute operation %s' % e.name))
            elif e.kind == 'setattr' and e.recv is not None and e.recv in self.elems:
                if e.name == 'text':
                    self.elems[e.recv].text.append((e.args[0], Ev(e)))
            elif e.kind in ('cont',) and e.recv is not None and e.recv.op == 'attr' and e.recv.a[0] in self.elems and e.recv.a[1] == 'attrib':
                n = cval(e.key) if getattr(e, 'key', None) is not None and e.key.op == 'const' else None
                if e.name in ('store', 'storeidx') and isinstance(n, str):
                    self.elems[e.recv.a[0]].attrs.append((n, e.value, Ev(e)))
                else:
                    self.odd.append((e, 'attribute operation %s' % e.name))
            elif e.kind == 'call' and e.name == 'set' and e.recv is not None and any(x in self.elems for x in subterms(e.recv)):
                self.odd.append((e, 'attribute of an unresolved element'))
            if e.kind == 'call' and e.recv is OUT:
                self.writes.append((e, e.args))
            elif e.kind == 'call' and e.name == 'write' and OUT in e.args:
                self.writes.append((e, (e.recv,)))
        for x in self.elems.values():
            p = self.elems.get(x.parent)
            if p is not None:
                p.kids.append(x)
        for x in self.elems.values():
            x.kids.sort(key=lambda k: k.pos)

    def put(self, x, e):
        self.elems[x.term] = x
        for n, v in dict(e.kw or {}).items():
            if n in ('nsmap',):
                continue
            if n in ('attrib', '**'):
                self.odd.append((e, 'attributes passed as a dictionary'))
            else:
                x.attrs.append((n, v, Ev(e)))
        extra = e.args[2:] if e.name in SUB else e.args[1:]
        if extra:
            self.odd.append((e, 'attributes passed as a dictionary'))

    def tagged(self, tag, kids=None):
        return sorted([x for x in (self.elems.values() if kids is None else kids) if x.tag == tag], key=lambda x: x.pos)


def beyond(I, e, base):
    """Condition of an event relative to the event that made its element: (extra loops, condition)."""
    have = set()
    for c, t in base.guards:
        have.update(conj([c]))
    rz = {cnorm(c) for c in raising(I) if not isinstance(c, tuple)}
    cs = [c for g, t in e.guards if t != 'raise' and g not in rz and g not in have for c in conj([g]) if c not in have and not implied(c, e.loops)]
    return [l for l in e.loops if l not in base.loops], and_(cs)


UNSET = mk('sym', '<unset>')


def value(I, x, sets):
    """(value of a slot of element x in terms of conditions, problem) -- the last assignment wins."""
    v = UNSET
    for val, e in sets:
        more, c = beyond(I, e, x.e)
        if more:
            return None, (e, 'set repeatedly, so the last of several values stays')
        v = ite(c, val, v)
    return v, None


def attr(I, x, name):
    return value(I, x, [(v, e) for n, v, e in x.attrs if n == name])


def text(I, x):
    return value(I, x, x.text)


def unstr(t):
    """x for str(x)"""
    if t.op == 'str' and t.a[1] in ('s', 'd', None, ''):
        return t.a[0]
    if t.op == 'cat' and len(t.a) == 1:
        return unstr(t.a[0])
    if t.op == 'ite':
        return ite(t.a[0], unstr(t.a[1]), unstr(t.a[2]))
    return t


class W(object):
    """The exported tree matched against the database."""

    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.I, self.st, self.doc = analyse(prog)
        self.k = lambda n: cval(enumc(prog, report.SCOPE, n))
        self.c = lambda n: cval(enumc(prog, report.COVER, n))
        self.m = Mirror(ctx, self.I, 'XML document', DB)
        self.mask = self.c('CVGBIN') | self.c('IGNOREBIN') | self.c('ILLEGALBIN')

        def alias(p):
            return tuple((m, (self.mask,)) if m == 'coverItems' and len(a) == 1 and isinstance(a[0], int) and a[0] & self.mask == self.mask else
                         (m, (self.mask,)) if m == 'coverItems' and a == (-1,) else (m, a) for m, a in p)
        self.m.alias = alias
        self.pairs = []      # (construct, element, db item)

    def document(self):
        ctx, doc = self.ctx, self.doc
        for e, why in doc.odd:
            ctx.und('once', 'document', why, where(e))
        roots = [x for x in doc.elems.values() if x.parent is None and x.tag == 'UCIS']
        if len(roots) != 1:
            ctx.und('once', 'document', '%d root elements' % len(roots))
            return None
        root = roots[0]
        for x in doc.elems.values():
            if x.parent is None and x is not root:
                # an element that is never attached is not part of the document
                ctx.und('once', x.tag, 'element not attached to the document', where(x.e))
        ws = [e for e, args in doc.writes if e.name != 'close' and any(root.term in set(subterms(a)) or self.serialised(a, root.term) for a in args)]
        if len(ws) != 1:
            if not doc.writes:
                ctx.viol('once', 'document', 'the document is never written to the output', FILE)
            else:
                ctx.und('once', 'document', 'the write of the document is not recognised', FILE)
        else:
            e = ws[0]
            x = and_(extras(self.I, Ev(e)))
            if e.loops:
                ctx.viol('once', 'document', 'the document is written repeatedly', where(e))
            elif x is not TRUE:
                (ctx.und if unknown(x) else ctx.viol)('once', 'document', 'the document is written only if %s' % show(x)[:120], where(e))
            else:
                late = [y for y in doc.elems.values() if y.pos > self.I.log.index(e)]
                ctx.decide('once', 'document', not late, 'elements are added after the document was written', where(e))
        return root

    def serialised(self, a, root):
        for t in subterms(a):
            if t.op == 'new':
                for e in self.I.log:
                    if e.kind == 'call' and e.result is t and (e.recv is root or root in e.args):
                        return True
        return False

    def level(self, construct, parents, tag, path, facts=None):
        """Elements `tag` below the given parents, one per database item on path."""
        ctx = self.ctx
        terms = {p.term: p for p in parents}
        xs = [x for x in self.doc.tagged(tag) if x.parent in terms]
        alien = [x for x in self.doc.tagged(tag) if x.parent not in terms and x.parent not in {q for q in self.known(tag)}]
        for x in alien:
            ctx.viol('own-parent', construct, '%s element placed under %s' % (tag, self.doc.elems[x.parent].tag if x.parent in self.doc.elems else 'an unknown element'), where(x.e))
        bye = {x.e: x for x in xs}

        def cond(c):
            return c if not facts else assume(c, facts)
        res = self.m.match('once', construct, [x.e for x in xs], path, FILE, cond=cond)
        out = []
        for e, el in res:
            x = bye[e]
            x.el = el
            p = terms[x.parent]
            ch = chain(el)
            up = [L for L, m, a in ch[1]]
            if p.el is not None and len(up) > 1 and mk('elem', up[-2]) is not p.el and mk('elem', up[-1]) is not p.el:
                ctx.viol('own-parent', construct, '%s of %s is placed under the element of %s' % (tag, show(mk('elem', up[-2]))[:60], show(p.el)[:60]), where(e))
            elif set(p.e.loops) - set(e.loops):
                ctx.viol('own-parent', construct, 'placed under only the last of several %s elements' % p.tag, where(e))
            elif set(p.e.loops) != set(e.loops) & {l for l in e.loops if l in up[:-1] or p.el is el} and p.el is not None and p.el is not el and len(p.e.loops) < len(up) - 1:
                ctx.viol('own-parent', construct, 'items of several parents are placed under one %s element' % p.tag, where(e))
            else:
                ctx.ok('own-parent', construct, p.tag, where(e))
            out.append(x)
        return out

    def known(self, tag):
        return self._parents.get(tag, ())

    _parents = {}

    def name(self, construct, x, want, slot='name'):
        v, bad = attr(self.I, x, slot)
        c = '%s@%s' % (construct, slot)
        if bad:
            self.ctx.viol('own-value', c, bad[1], where(bad[0]))
        elif v is UNSET:
            self.ctx.viol('own-value', c, 'never set', where(x.e))
        else:
            self.fieldv(c, v, want, where([e for n, _, e in x.attrs if n == slot][-1]))

    def fieldv(self, c, v, want, at):
        if UNSET in subterms(v):
            (self.ctx.und if unknown(v) else self.ctx.viol)('own-value', c, 'not always set: %s' % show(v)[:160], at)
            return
        self.m.field('own-value', c, unstr(v), want, at)

    def walk(self, fields=True):
        ctx, doc, k = self.ctx, self.doc, self.k
        root = self.document()
        if root is None:
            return
        inst = (('scopes', (k('INSTANCE'),)),)
        cgp = inst + (('scopes', (k('COVERGROUP'),)),)
        insts = self.level('instance', [root], 'instanceCoverages', inst)
        for x in insts:
            self.name('instance', x, call(x.el, 'getScopeName'))
        cgs = self.level('covergroup', insts, 'covergroupCoverage', cgp)
        for x in doc.tagged('cgInstance'):
            if x.parent not in {c.term for c in cgs}:
                ctx.viol('own-parent', 'covergroup instance', 'cgInstance placed under %s' % (doc.elems[x.parent].tag if x.parent in doc.elems else '?'), where(x.e))
        for g in cgs:
            has = mk('nonempty', call(g.el, 'scopes', enumc(self.prog, report.SCOPE, 'COVERINSTANCE')))
            xs = [x for x in doc.tagged('cgInstance') if x.parent is g.term]
            byt = [x for x in xs if not self.follows(x, 'COVERINSTANCE')]
            byi = [x for x in xs if x not in byt]
            for c, sel, path, val in (('type-only covergroup', byt, cgp, False), ('covergroup instance', byi, cgp + (('scopes', (k('COVERINSTANCE'),)),), True)):
                if not sel:
                    ctx.viol('once', c, 'no cgInstance element is ever written for a covergroup %s instances' % ('with' if val else 'without'), FILE)
                    continue
                bye = {x.e: x for x in sel}
                for e, el in self.m.match('once', c, [x.e for x in sel], path, FILE, cond=lambda q, h=has, v=val: assume(q, {h: v})):
                    x = bye[e]
                    x.el = el
                    # a type is written as an instance only when it has none
                    if not val:
                        q = assume(and_(extras(self.I, e)), {has: True})
                        if q is not FALSE:
                            (ctx.und if unknown(q) else ctx.viol)('once', c, 'the type itself is also written when it has instances', where(e))
                        else:
                            ctx.ok('once', c + ' only without instances', '', where(e))
                    self.group(c, x, g, el, path)

    def follows(self, x, kind):
        for l in x.e.loops:
            ch = chain(mk('elem', l))
            if ch is not None and ch[1][-1][1].endswith('scopes') and path_of(ch)[-1][1] == (self.k(kind),):
                return True
        return False

    def group(self, c, x, g, el, path):
        ctx, doc, k = self.ctx, self.doc, self.k
        self.name(c, x, call(el, 'getScopeName'))
        ids = [y for y in x.kids if y.tag == 'cgId']
        if len(ids) != 1:
            (ctx.viol if not ids else ctx.und)('own-value', c + ' type name', '%d cgId elements' % len(ids), where(x.e))
        for y in ids[:1]:
            self.single(c + '/cgId', y, x)
            self.name(c + '/cgId', y, call(g.el, 'getScopeName'), 'cgName')
        facts = {mk('nonempty', call(g.el, 'scopes', enumc(self.prog, report.SCOPE, 'COVERINSTANCE'))): c == 'covergroup instance'}
        for tag, kind in (('coverpoint', 'COVERPOINT'), ('cross', 'CROSS')):
            c2 = '%s/%s' % (c, tag)
            p2 = path + (('scopes', (k(kind),)),)
            for y in self.sub(c2, x, tag, p2, facts):
                self.name(c2, y, call(y.el, 'getScopeName'))
                if tag == 'cross':
                    self.crossed(c2, y)
                bt = tag + 'Bin'
                c3 = '%s/%s' % (c2, 'bin')
                for b in self.sub(c3, y, bt, p2 + (('coverItems', (self.mask,)),), facts):
                    self.name(c3, b, call(b.el, 'getName'))
                    self.count(c3, b)
                    self.kind(c3, b)

    def sub(self, construct, parent, tag, path, facts):
        ctx = self.ctx
        xs = [x for x in parent.kids if x.tag == tag]
        bye = {x.e: x for x in xs}
        if not xs:
            ctx.viol('once', construct, 'no %s element is ever written' % tag, FILE)
            return []
        out = []
        for e, el in self.m.match('once', construct, [x.e for x in xs], path, FILE, cond=lambda q: assume(q, facts)):
            x = bye[e]
            x.el = el
            up = [L for L, m, a in chain(el)[1]]
            if set(parent.e.loops) - set(e.loops):
                ctx.viol('own-parent', construct, 'placed under only the last of several %s elements' % parent.tag, where(e))
            elif not set(up[:-1]) <= set(parent.e.loops):
                ctx.viol('own-parent', construct, 'items of several parents are placed under one %s element' % parent.tag, where(e))
            else:
                ctx.ok('own-parent', construct, parent.tag, where(e))
            out.append(x)
        return out

    def single(self, construct, y, x):
        more, c = beyond(self.I, y.e, x.e)
        if more:
            self.ctx.viol('own-value', construct, 'written repeatedly', where(y.e))
        elif c is not TRUE and not valid(c):
            (self.ctx.und if unknown(c) else self.ctx.viol)('own-value', construct, 'written only if %s' % show(c)[:120], where(y.e))
        else:
            self.ctx.ok('own-value', construct, 'exactly one', where(y.e))

    def count(self, c, b):
        ctx = self.ctx
        slots = []
        todo = list(b.kids)
        while todo:
            y = todo.pop(0)
            if y.tag == 'contents':
                slots.append(y)
            todo += y.kids
        if len(slots) != 1:
            (ctx.viol if not slots else ctx.und)('own-value', c + ' count', '%d contents elements' % len(slots), where(b.e))
        for y in slots[:1]:
            self.single(c + '/contents', y, b)
            self.name(c, y, mk('attr', call(b.el, 'getCoverData'), 'data'), 'coverageCount')

    def kind(self, c, b):
        ctx = self.ctx
        v, bad = attr(self.I, b, 'type')
        at = where(b.e)
        if bad:
            ctx.viol('kind-code', c, bad[1], where(bad[0]))
            return
        for kn, codes in (('CVGBIN', ('bins', 'default')), ('IGNOREBIN', ('ignore',)), ('ILLEGALBIN', ('illegal',))):
            got = self.code(b, v, kn)
            if got is UNSET and b.tag == 'crossBin' and kn == 'CVGBIN':
                ctx.ok('kind-code', '%s %s' % (c, kn), 'left to the schema default', at)
            elif got.op == 'const':
                ctx.decide('kind-code', '%s %s' % (c, kn), cval(got) in codes, 'bins of kind %s are written with type %r instead of %r' % (kn, cval(got), codes[0]), at)
            elif got is UNSET:
                ctx.viol('kind-code', '%s %s' % (c, kn), 'bins of kind %s are written without type' % kn, at)
            elif unknown(got) or not [x for x in subterms(got) if x.op in ('sym', 'elem')]:
                ctx.und('kind-code', '%s %s' % (c, kn), 'type is %s' % show(got)[:160], at)
            else:
                ctx.viol('kind-code', '%s %s' % (c, kn), 'the type of bins of kind %s is %s' % (kn, show(got)[:160]), at)

    def code(self, b, v, kn):
        kc = enumc(self.prog, report.COVER, kn)
        return kinded(self.I, v, mk('attr', call(b.el, 'getCoverData'), 'type'), kc)

    def crossed(self, c, y):
        """The names of the crossed coverpoints, in order."""
        ctx = self.ctx
        xs = [z for z in y.kids if z.tag == 'crossExpr']
        if not xs:
            ctx.viol('once', c + '/crossExpr', 'no crossExpr element is ever written', FILE)
        if len(xs) > 1:
            fixed = [z for z in xs if not beyond(self.I, z.e, y.e)[0]]
            if len(fixed) == len(xs) and all(text(self.I, z)[0] is not None and not unknown(text(self.I, z)[0]) for z in xs):
                ctx.viol('once', c + '/crossExpr', 'written for a fixed number of crossed coverpoints', where(xs[0].e))
                return
            ctx.und('once', c + '/crossExpr', 'written in several places')
            return
        for z in xs:
            more, q = beyond(self.I, z.e, y.e)
            n = call(y.el, 'getNumCrossedCoverpoints')
            if len(more) != 1:
                ctx.viol('once', c + '/crossExpr', 'not written once per crossed coverpoint', where(z.e))
                continue
            L = more[0]
            d = strip_it(L.domain)
            full = (d.op == 'range' and d.a[-1] is n and (len(d.a) == 1 or d.a[0] is ZERO and (len(d.a) == 2 or d.a[2] is const(1))))
            if d.op == 'range' and len(d.a) == 3 and not full:
                full = d.a[0] is ZERO and d.a[1] is n and d.a[2] is const(1)
            if not full:
                (ctx.und if d.op != 'range' or unknown(d) else ctx.viol)('once', c + '/crossExpr', 'follows %s instead of all crossed coverpoints' % show(d)[:120], where(z.e))
                continue
            tr = truncs(L)
            if tr:
                (ctx.und if any(unknown(t) for t in tr) else ctx.viol)('once', c + '/crossExpr', 'stops early when %s' % show(or_(tr))[:120], where(z.e))
            elif q is not TRUE and not valid(q):
                (ctx.und if unknown(q) else ctx.viol)('once', c + '/crossExpr', 'written only if %s' % show(q)[:140], where(z.e))
            else:
                ctx.ok('once', c + '/crossExpr', 'one per crossed coverpoint', where(z.e))
            v, bad = text(self.I, z)
            if bad:
                ctx.viol('own-value', c + '/crossExpr', bad[1], where(bad[0]))
            elif v is UNSET:
                ctx.viol('own-value', c + '/crossExpr', 'without text', where(z.e))
            else:
                ith = [mk('call', y.el, 'getIthCrossedCoverpoint', (i,), ()) for i in (mk('elem', L), mk('idx', L))]
                wants = [call(i, nm) for i in ith for nm in ('getScopeName', 'getName')]
                if v in wants:
                    ctx.ok('own-value', c + '/crossExpr', show(v)[:80], where(z.e))
                else:
                    self.fieldv(c + '/crossExpr', v, wants[0], where(z.e))


def kinded(I, v, typ, kc):
    """A value when the bin kind is known."""
    v = subst(v, {typ: kc})
    v = subst(v, {x: truth(x.a[0]) for x in subterms(v) if x.op == 'truth'})
    out = {}
    for x in subterms(v):
        if x.op == 'in' and x.a[1].op == 'ref' and x.a[1].a[0].kind == 'dict' and x.a[0].op == 'const':
            ks = [e.key for e in x.a[1].a[0].events]
            if all(e.name == 'store' for e in x.a[1].a[0].events) and all(q is not None and q.op == 'const' for q in ks):
                out[x] = TRUE if any(cval(q) == cval(x.a[0]) for q in ks) else FALSE
        if x.op in ('lookup', 'index') and x.a[0].op == 'ref' and x.a[0].a[0].kind == 'dict' and x.a[1].op == 'const':
            d = {}
            for e in x.a[0].a[0].events:
                if e.name != 'store' or e.key is None or e.key.op != 'const' or e.loops != x.a[0].a[0].loops:
                    d = None
                    break
                d[cval(e.key)] = e.value
            if d is not None and cval(x.a[1]) in d:
                out[x] = d[cval(x.a[1])]
    return subst(v, out) if out else v


def c08(ctx, prog):
    ctx.rule('once', 'one element per database item of its kind, in database order, unconditionally; the type is written as an instance exactly when it has none')
    ctx.rule('own-parent', "an item's element is placed under the element of the item's own parent")
    ctx.rule('own-value', 'names, counts, type names and crossed-coverpoint names are those of the item itself')
    ctx.rule('kind-code', 'the type attribute of a bin element is the code of that bin kind')
    w = W(ctx, prog)
    w.walk()
    report.reordered(ctx, w.I, 'document')
    ctx.absorb(w.I)


def c03(ctx, prog):
    I, st, doc = analyse(prog)
    report.pure(ctx, I, DB, 'XML export')
    ctx.absorb(I, strict=True)


# ------------------------------------------------------------------ C10
X = '{http://www.w3.org/2001/XMLSchema}'


class Decl(object):
    def __init__(self):
        self.attrs = {}       # name -> (required, type, enumeration)
        self.kids = {}        # name -> (position, type, min, max, choice)
        self.any = False


class Schema(object):
    def __init__(self, path):
        self.root = ET.parse(path).getroot()
        self.types = {t.get('name'): t for t in self.root.findall(X + 'complexType')}
        self.groups = {t.get('name'): t for t in self.root.findall(X + 'attributeGroup')}
        self.elems = {t.get('name'): t for t in self.root.findall(X + 'element')}
        self.memo = {}

    def decl(self, ty):
        """ty: name of a complex type, or an xsd element with an inline type."""
        key = ty
        if key in self.memo:
            return self.memo[key]
        d = Decl()
        self.memo[key] = d
        t = self.types.get(ty) if isinstance(ty, str) else (ty if ty.tag == X + 'complexType' else ty.find(X + 'complexType'))
        if t is None:
            return None
        self.fill(d, t)
        return d

    def fill(self, d, t):
        pos = [len(d.kids)]

        def part(p, opt, choice):
            lo = int(p.get('minOccurs', '1'))
            hi = p.get('maxOccurs', '1')
            if p.tag == X + 'element':
                ty = p.get('type') or p
                if p.get('ref'):
                    ty = self.elems[p.get('ref')].get('type') or self.elems[p.get('ref')]
                d.kids[p.get('name') or p.get('ref')] = (pos[0], ty, 0 if opt else lo, hi, choice)
                pos[0] += 0 if choice else 1
            elif p.tag in (X + 'sequence', X + 'choice', X + 'all'):
                ch = p.tag == X + 'choice'
                rep = hi != '1'
                for q in p:
                    part(q, opt or lo == 0 or ch, choice or (id(p) if ch or rep or p.tag == X + 'all' else None))
                if ch or rep or p.tag == X + 'all':
                    pos[0] += 1
            elif p.tag == X + 'any':
                d.any = True
        for c in t:
            if c.tag in (X + 'sequence', X + 'choice', X + 'all'):
                part(c, False, None)
            elif c.tag == X + 'attribute':
                self.attr(d, c)
            elif c.tag == X + 'attributeGroup':
                for a in self.groups[c.get('ref')].findall(X + 'attribute'):
                    self.attr(d, a)
            elif c.tag in (X + 'complexContent', X + 'simpleContent'):
                for x in c:
                    b = x.get('base')
                    if b in self.types:
                        self.fill(d, self.types[b])
                    self.fill(d, x)

    def attr(self, d, a):
        en = [v.get('value') for v in a.iter(X + 'enumeration')]
        base = a.get('type')
        r = a.find('.//' + X + 'restriction')
        if base is None and r is not None:
            base = r.get('base')
        d.attrs[a.get('name')] = (a.get('use') == 'required', base, en or None)


def lexical(ty, v):
    """Is the fixed text v a value of the simple type?"""
    ty = (ty or '').split(':')[-1]
    if not isinstance(v, str):
        return False
    if ty in ('integer', 'int', 'long'):
        return re.match(r'^[+-]?\d+$', v) is not None
    if ty == 'nonNegativeInteger':
        return re.match(r'^\+?\d+$', v) is not None
    if ty == 'positiveInteger':
        return re.match(r'^\+?\d+$', v) is not None and int(v) > 0
    if ty == 'boolean':
        return v in ('true', 'false', '0', '1')
    if ty in ('double', 'decimal', 'float'):
        try:
            float(v)
            return True
        except ValueError:
            return False
    if ty == 'dateTime':
        return re.match(r'^-?\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\d', v) is not None
    return True


def together(a, b):
    """Can both events happen in one run for the same parent?"""
    return not table(and_([c for c, t in a.guards] + [c for c, t in b.guards]))[1]


def c10(ctx, prog):
    ctx.rule('declared', 'every element and attribute is declared by the schema at the place where it is written')
    ctx.rule('order', 'sibling elements are written in the order of the schema sequence')
    ctx.rule('required', 'required attributes are always set, required single child elements always written, exactly once')
    ctx.rule('value', 'fixed attribute values and texts belong to the enumeration or simple type the schema declares')
    path = os.path.join(REPO, XSD)
    if not os.path.exists(path):
        raise AnchorError(XSD)
    try:
        S = Schema(path)
    except ET.ParseError as e:
        ctx.viol('declared', 'schema', 'the shipped schema is not well-formed: %s' % e, XSD)
        return
    I, st, doc = analyse(prog)
    ctx.absorb(I, strict=True)
    for e, why in doc.odd:
        ctx.und('declared', 'document', why, where(e))
    unqualified(ctx, I, doc)
    roots = [x for x in doc.elems.values() if x.parent is None]
    for x in roots:
        if x.tag not in S.elems:
            ctx.viol('declared', x.tag, 'the schema has no root element %s' % x.tag, where(x.e))
        else:
            place(ctx, I, doc, S, x, S.elems[x.tag], x.tag)


def unqualified(ctx, I, doc):
    ctx.rule('namespace', 'elements are written without a namespace, as the schema declares them')
    from . import nstag
    ev = {e.result: e for e in I.log if e.kind == 'call' and (e.name in SUB or e.name in ELEM)}
    qs = [x for x in doc.elems.values() if x.term in ev and any(qualified(a) for a in ev[x.term].args[:2])]
    fixed = {e.recv for e in I.log if e.kind == 'setattr' and e.name == 'tag' and e.args and e.args[0].op == 'const' and not str(cval(e.args[0])).startswith('{')}
    qs = [x for x in qs if x.term not in fixed]
    if not qs:
        ctx.ok('namespace', 'document', 'no element is given a namespace', '')
        return
    roots = {x.term for x in doc.elems.values() if x.parent is None}

    def isdoc(t):
        while t.op == 'call' and t.a[1] in ('getroot', 'getroottree') and t.a[0] is not None:
            t = t.a[0]
        if t.op == 'new' and t.a[0].endswith('ElementTree'):
            return True
        return t in roots
    sinks = [e for e in I.log if e.kind == 'call' and e.name.split('.')[-1] in ('tounicode', 'tostring', 'tostringlist', 'ElementTree', 'dump')
             and e.args and e.args[0] in roots and not e.name.endswith('ElementTree')]
    sinks += [e for e, a in doc.writes]
    nstag.check(ctx, 'namespace', 'document', I, isdoc, sinks, where(qs[0].e), comments=False,
                needroot=any(x.parent is None for x in qs))


def place(ctx, I, doc, S, x, ty, path):
    simple = isinstance(ty, str) and ty.startswith('xsd:')
    d = None if simple else S.decl(ty)
    at = where(x.e)
    if simple:
        if x.attrs or x.kids:
            ctx.viol('declared', path, 'the schema declares plain %s content here' % ty, at)
        v, bad = text(I, x)
        for l in leaves(v) if v is not None else ():
            if l is UNSET:
                ctx.decide('value', path, lexical(ty, ''), 'empty, but the schema declares %s' % ty, at)
            elif l.op == 'const':
                ctx.decide('value', path, lexical(ty, cval(l)), 'text %r is not %s' % (cval(l), ty), at)
        return
    if d is None:
        ctx.und('declared', path, 'type %s is not defined in the schema' % ty, at)
        return
    for n in {n for n, v, e in x.attrs}:
        e = [e for m, v, e in x.attrs if m == n][0]
        if n not in d.attrs:
            ctx.viol('declared', '%s@%s' % (path, n), 'the schema declares no attribute %s for %s' % (n, x.tag), where(e))
            continue
        ctx.ok('declared', '%s@%s' % (path, n), '', where(e))
        req, base, enum = d.attrs[n]
        v, bad = attr(I, x, n)
        for l in leaves(v) if v is not None else ():
            if l is UNSET:
                continue
            if l.op == 'const':
                if enum:
                    ctx.decide('value', '%s@%s=%r' % (path, n, cval(l)), cval(l) in enum, '%r is not one of %s' % (cval(l), ', '.join(enum)), where(e))
                else:
                    ctx.decide('value', '%s@%s=%r' % (path, n, cval(l)), lexical(base, cval(l)), '%r is not of type %s' % (cval(l), base), where(e))
            elif base == 'xsd:dateTime' and l.op == 'call' and l.a[1] == 'strftime' and l.a[2] and l.a[2][0].op == 'const':
                f = cval(l.a[2][0])
                ctx.decide('value', '%s@%s format' % (path, n), isinstance(f, str) and re.match(r'^%Y-%m-%dT%H:%M:%S', f) is not None, 'format %r is not an XML dateTime' % (f,), where(e))
    for n, (req, base, enum) in sorted(d.attrs.items()):
        if not req:
            continue
        v, bad = attr(I, x, n)
        c = '%s@%s' % (path, n)
        if v is UNSET:
            ctx.viol('required', c, 'required by the schema, never set', at)
        elif bad is None and UNSET in subterms(v):
            cs = or_([beyond(I, e, x.e)[1] for m, vv, e in x.attrs if m == n])
            if cs is TRUE or valid(cs):
                ctx.ok('required', c, '', at)
            else:
                (ctx.und if unknown(cs) else ctx.viol)('required', c, 'required by the schema, set only if %s' % show(cs)[:140], at)
        else:
            ctx.ok('required', c, '', at)
    # children
    for y in x.kids:
        p = '%s/%s' % (path, y.tag)
        if y.tag not in d.kids:
            if not d.any:
                ctx.viol('declared', p, 'the schema allows no element %s in %s' % (y.tag, x.tag), where(y.e))
            continue
        ctx.ok('declared', p, '', where(y.e))
        ps, yt, lo, hi, ch = d.kids[y.tag]
        more, c = beyond(I, y.e, x.e)
        if hi == '1' and more:
            ctx.viol('required', p, 'may be written more than once, the schema allows one', where(y.e))
        place(ctx, I, doc, S, y, yt, p)
    base = set(x.e.loops)
    for i, a in enumerate(x.kids):
        for b in x.kids[i + 1:]:
            if a.tag not in d.kids or b.tag not in d.kids:
                continue
            pa, pb = d.kids[a.tag][0], d.kids[b.tag][0]
            c = '%s: %s before %s' % (path, a.tag, b.tag)
            la, lb = [l for l in a.e.loops if l not in base], [l for l in b.e.loops if l not in base]
            shared = la and lb and la[0] is lb[0]
            if pa > pb or (shared and pa != pb):
                if a.e.guards and b.e.guards and not together(a.e, b.e):
                    continue
                ctx.viol('order', c, '%s is written before %s%s, the schema sequence has it the other way round' % (
                    (a.tag, b.tag, '') if pa > pb else (b.tag, a.tag, ' of the next item')), where(b.e))
            else:
                ctx.ok('order', c)
            if a.tag == b.tag and d.kids[a.tag][3] == '1' and together(a.e, b.e):
                ctx.viol('required', '%s/%s' % (path, a.tag), 'may be written twice, the schema allows one', where(b.e))
    for n, (ps, ty, lo, hi, ch) in sorted(d.kids.items()):
        if lo < 1:
            continue
        ks = [y for y in x.kids if y.tag == n]
        p = '%s/%s' % (path, n)
        if not ks:
            ctx.viol('required', p, 'required by the schema, never written', at)
        elif hi == '1' or path == 'UCIS' and n in TABLES or any(not beyond(I, y.e, x.e)[0] for y in ks):
            cs = []
            for y in ks:
                more, c = beyond(I, y.e, x.e)
                if len(more) > 1 or more and c is not TRUE:
                    continue       # for some elements only
                for l in more:
                    c = and_([c, mk('nonempty', strip_it(l.domain))])
                cs.append(c)
            c = cnorm(or_(cs))
            if c is TRUE or valid(c):
                ctx.ok('required', p, '', at)
            elif hi == '1' or not unknown(c):
                (ctx.und if unknown(c) else ctx.viol)('required', p, 'required by the schema, written only if %s' % show(c)[:140] if cs else
                                                      'required by the schema, not written for every database', at)
    chs = {}
    for n, v in d.kids.items():
        if v[4] is not None:
            chs.setdefault(v[4], []).append(n)
    for ns in chs.values():
        ks = [y for y in x.kids if y.tag in ns]
        ctx.decide('required', '%s: one of %s' % (path, ', '.join(sorted(ns))), bool(ks), 'none of the alternatives is written', at)
