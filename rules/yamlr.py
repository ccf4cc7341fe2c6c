"""C12: the YAML importer."""
import json
from .base import *
from .mirror import *
from . import importer
from .importer import Importer, SCOPE, COVER, rewrite

FILEARG = mk('sym', 'file')
FILE = 'src/ucis/yaml/yaml_reader.py'
SCHEMA = 'src/ucis/schema/coverage.json'
MEM = 'ucis.mem.mem_ucis.MemUCIS'
SRC = '''
from ucis.yaml.yaml_reader import YamlReader
def observe(obs, file):
    r = YamlReader()
    obs.DB(r.load(file))
'''
_cache = {}


def stubs(schema):
    """Stand-ins for the classes generated from the schema: every property starts out as None."""
    out = ['import verif_ext']
    names = {}
    todo = [schema] + list((schema.get('defs') or schema.get('definitions') or schema.get('$defs') or {}).values())
    for d in todo:
        t = d.get('title', '')
        n = ''.join(w[:1].upper() + w[1:] for w in t.split())
        if not n:
            continue
        names[n] = 'verif_yaml_ns.' + n
        out.append('class %s(object):' % n)
        out.append('    def __init__(self, **kw):')
        for p in d.get('properties', {}):
            out.append('        self.%s = kw.get(%r)' % (p, p) if False else '        self.%s = None' % p)
        out.append('        pass')
        out.append('    def from_json(self, text):')
        out.append('        return verif_ext.get_document(text)')
    return '\n'.join(out) + '\n', names


def defs(schema):
    out = []
    todo = defs_(schema)
    while todo:
        d = todo.pop(0)
        out.append(d)
        todo += [p for p in (d.get('properties') or {}).values() if isinstance(p, dict) and isinstance(p.get('properties'), dict)]
    return out


def defs_(schema):
    return [d for d in [schema] + list((schema.get('defs') or schema.get('definitions') or schema.get('$defs') or {}).values()) if isinstance(d, dict)]


def types(schema):
    """Attribute names that are always strings / integers (and *lists of strings)."""
    seen = {}
    for d in defs(schema):
        for n, p in (d.get('properties') or {}).items():
            seen.setdefault(n, set()).add(p.get('type'))
            if p.get('type') == 'array':
                seen.setdefault('*' + n, set()).add((p.get('items') or {}).get('type', 'object'))
    out = {'str': set(), 'int': set()}
    for n, ts in seen.items():
        if ts == {'string'} or n[0] == '*' and 'string' in ts:
            out['str'].add(n)
        if ts == {'integer'}:
            out['int'].add(n)
    return out


def analyse(prog):
    if prog not in _cache:
        if prog.cls('ucis.yaml.yaml_reader.YamlReader') is None:
            raise AnchorError('YamlReader')
        if prog.cls(MEM) is None:
            raise AnchorError(MEM)
        p = os.path.join(REPO, SCHEMA)
        if not os.path.exists(p):
            raise AnchorError(SCHEMA)
        schema = json.load(open(p))
        src, names = stubs(schema)
        prog.add_source('verif_yaml_ns', src)
        prog.add_source('verif_obs_yamlr', SRC)
        I = Interp(prog, opaque_classes=(MEM,))
        I.ctors = names
        I.typed_attrs = types(schema)
        st = State()
        I.callq('verif_obs_yamlr.observe', [OBS, FILEARG], st=st)
        _cache[prog] = (I, st, schema)
    return _cache[prog]


KINDS = (('bins', 'CVGBIN'), ('ignorebins', 'IGNOREBIN'), ('illegalbins', 'ILLEGALBIN'))


class Adapter(object):
    """Schema-valid documents: required fields are there, typed fields have their types."""

    def __init__(self, schema):
        self.cc = {}
        self.opt = set()
        self.known = set()
        self.kinds = {}
        for d in defs(schema):
            for n in d.get('properties', {}):
                self.known.add(n)
                if n not in d.get('required', ()):
                    self.opt.add(n)
                r = (d['properties'][n].get('items') or {}).get('$ref') if isinstance(d['properties'][n], dict) else None
                if r:
                    self.kinds.setdefault(n, set()).add(r.split('/')[-1])
        self.named = {k: v for s in ('defs', 'definitions', '$defs') for k, v in (schema.get(s) or {}).items()}

    def left_out(self, x):
        """Can the document leave out this property of this kind of entry?"""
        el, k = x.a
        if k not in self.opt:
            return False
        ch = self.chain(el) if el.op == 'elem' else None
        ks = self.kinds.get(ch[1][-1][1]) if ch else None
        if not ks:
            return True
        return any(k not in self.named.get(n, {}).get('required', ()) for n in ks)

    def doc(self, t):
        if t.op == 'call' and str(t.a[1]).endswith('get_document'):
            return t
        if t.op == 'new' and t.a[0].endswith(('yaml.load', 'yaml.safe_load', 'yaml.full_load', 'json.loads', 'json.load')):
            return t
        return None

    def chain(self, el):
        if el in self.cc:
            return self.cc[el]
        self.cc[el] = None
        r = None
        if el.op == 'elem':
            L = el.a[0]
            d = strip_it(L.domain)
            while d.op == 'listof':
                d = strip_it(d.a[0])
            d = rewrite(d, self.rule)
            if d.op == 'attr':
                up, tag = d.a
                if up.op == 'elem':
                    u = self.chain(up)
                    if u is not None:
                        r = (u[0], u[1] + [(L, tag)])
                elif up.op == 'attr' and up.a[1] == 'coverage' and self.doc(up.a[0]):
                    r = (up.a[0], [(L, tag)])
        self.cc[el] = r
        return r

    def rule(self, t):
        op = t.op
        if op == 'exc':
            return FALSE
        if op == 'index' and t.a[1].op == 'const' and isinstance(cval(t.a[1]), str) and t.a[0].op in ('elem', 'attr', 'call', 'new'):
            return mk('attr', t.a[0], cval(t.a[1]))
        if op == 'call' and t.a[1] == 'get' and t.a[0] is not None and t.a[2] and t.a[2][0].op == 'const' and cval(t.a[2][0]) in self.known:
            x = mk('attr', t.a[0], cval(t.a[2][0]))
            d = t.a[2][1] if len(t.a[2]) > 1 else NONE
            return x if d is NONE else ite(self.rule(mk('isnone', x)), d, x)
        if op == 'in' and t.a[0].op == 'const' and cval(t.a[0]) in self.known and t.a[1].op in ('elem', 'attr', 'call', 'new'):
            return not_(self.rule(mk('isnone', mk('attr', t.a[1], cval(t.a[0])))))
        if op == 'op' and t.a[0] == 'int' and len(t.a) == 2 and t.a[1].op == 'attr':
            return t.a[1]
        if op == 'str' and t.a[0].op == 'attr' and t.a[0].a[1] == 'name':
            return t.a[0]
        if op == 'isnone' and t.a[0].op == 'attr' and t.a[0].a[1] in self.known and t.a[0].a[1] not in self.opt:
            return FALSE
        return t


def at(el, k):
    return mk('attr', el, k)


class Y(Importer):
    def name(self, construct, e, i, want):
        t = e.args[i] if len(e.args) > i else NONE
        if t is want:
            self.ctx.ok('name', construct, '', where(e))
        else:
            self.fail('name', construct, 'named %s instead of the name in the document' % show(t)[:120], e, [t])

    def atleast(self, construct, e, el):
        t = e.args[2] if len(e.args) > 2 else NONE
        x = at(el, 'atleast')
        want = ite(isnone(x), const(1), x)
        if t is want or t is ite(isnone(x), const(1), mk('op', 'int', x)):
            self.ctx.ok('at-least', construct, '1 when absent', where(e))
        elif t.op == 'ite' and t.a[0] is mk('truth', x) and t.a[1] is x and t.a[2] is const(1):
            self.fail('at-least', construct, 'a threshold of 0 is read as 1', e)
        else:
            self.fail('at-least', construct, 'the threshold is %s instead of the at-least value of its entry (1 when absent)' % show(t)[:160], e, [t])

    def weight(self, construct, e, el):
        x = at(el, 'weight')
        forms = [ite(isnone(x), const(1), x), ite(isnone(x), const(1), mk('op', 'int', x))]
        t = e.args[2] if len(e.args) > 2 else NONE
        if t in forms:
            self.ctx.ok('weight', construct, 'of its entry, 1 when absent', where(e))
        elif t.op == 'ite' and t.a[0] is mk('truth', x) and t.a[2] is const(1):
            self.fail('weight', construct, 'a weight of 0 is read as 1', e)
        else:
            self.fail('weight', construct, 'the weight is %s instead of that of the entry (1 when absent)' % show(t)[:140], e, [t])

    def kindof(self, e):
        k = e.args[5] if len(e.args) > 5 else enumc(self.prog, COVER, 'CVGBIN')
        return k

    def split(self, construct, evs, path, kinds):
        """createBin events by the document list that drives them."""
        out = {k: [] for k, n in kinds}
        for e in evs:
            hit = False
            for l in reversed(e.loops):
                ch = self.ad.chain(mk('elem', l))
                p = tuple(t for L, t in ch[1]) if ch is not None else None
                if p is not None and p[:-1] == path and p[-1] in out:
                    out[p[-1]].append(e)
                    hit = True
                    break
            if not hit:
                self.placed(construct, e, path + ('bins',))
        for k, n in kinds:
            if not out[k] and all(not unknown(l.domain) for e in evs for l in e.loops):
                self.fail('once', '%s %s' % (construct, k), 'the %s of an entry are never created' % k, evs[0] if evs else None)
        return out

    def kind(self, construct, e, kn):
        v = self.kindof(e)
        want = enumc(self.prog, COVER, kn)
        if v.op == 'const':
            self.ctx.decide('bin-kind', construct, same_val(v, want), 'created as %s instead of %s' % (show(v), kn), where(e))
        else:
            self.fail('bin-kind', construct, 'kind is %s' % show(v)[:140], e, [v])

    def names_of(self, cr_el):
        def f(c):
            for l in reversed(c.loops):
                d = rewrite(strip_it(l.domain), self.ad.rule)
                if d is at(cr_el, 'coverpoints'):
                    x = mk('elem', l)
                    return (x, mk('str', x, 's')), l
            return None, None
        return f


def c12(ctx, prog):
    ctx.rule('once', 'one create per document entry of its kind, under the matching parent, unconditionally')
    ctx.rule('distinct', 'the covergroup type gets each name of each category once, with a table of names of its own per parent')
    ctx.rule('own-parent', 'objects are created under the object of their own parent entry')
    ctx.rule('every-instance', 'the type level is built from every instance')
    ctx.rule('name', 'the created object has the name of its entry')
    ctx.rule('count', 'the count of an instance bin is the count of its own entry')
    ctx.rule('at-least', 'the threshold is the at-least value of the owning coverpoint or cross, 1 when absent')
    ctx.rule('weight', 'a covergroup and its instances have the weight of the entry, 1 when absent; instances, coverpoints and crosses without one have weight 1')
    ctx.rule('optional', 'lists the schema does not require are iterated only if the document has them')
    ctx.rule('bin-kind', 'bins, ignorebins and illegalbins become regular, ignore and illegal bins')
    ctx.rule('type-count', 'the count of a type bin is the sum over the same-named bins of the same-named entries of all instances')
    ctx.rule('cross-link', 'a cross links, in order, the coverpoints of its own parent by name; an unknown name is rejected')
    I, st, schema = analyse(prog)
    ctx.absorb(I, strict=True)
    dbs = [e for e in I.log if e.kind == 'call' and e.recv is OBS and e.name == 'DB']
    if not dbs:
        ctx.und('once', 'database', 'the reader does not return on any analysed path')
        return
    db = dbs[-1].args[0]
    if db.op != 'new' or db.a[0] != MEM:
        ctx.und('once', 'database', 'the reader returns %s' % show(db)[:100])
        return
    y = Y(ctx, I, db, Adapter(schema), prog)
    y.conds = {}
    optional(y)
    walk(y)
    from . import report
    report.reordered(ctx, I, 'import')
    for e in I.log:
        if e.kind == 'call' and e.name.startswith('create') and any(c.op == 'uniq' and c.a[1].op == 'ref' and c.a[1].a[0].kind == 'set' for c, t in e.guards):
            ctx.viol('once', 'order', '%s is driven by the iteration of a set' % e.name, where(e))


def optional(y):
    """What a document may leave out is not iterated or entered without looking whether it is there."""
    ctx, ad = y.ctx, y.ad
    done, bad = {}, {}
    for e in y.I.log:
        if any(h for h in (e.intry or ()) if len(h) > 2 and h[2]):
            continue
        cs = None
        for l in e.loops:
            x = rewrite(strip_it(l.domain), ad.rule)
            while x.op == 'attr' and x.a[1] in ad.known:
                if ad.left_out(x):
                    if cs is None:
                        cs = [d for c, t in e.guards for d in conj([rewrite(c, ad.rule)])]
                    facts = {isnone(x): True, mk('truth', x): False, mk('nonempty', x): False}
                    if any(assume(d, facts) is FALSE for d in cs):
                        done.setdefault(x, e)
                    else:
                        bad.setdefault((x, l), (e, [d for d in cs if any(z.op != 'attr' and x in z.a for z in subterms(d))]))
                x = x.a[0]
    for (x, l), (e, odd) in bad.items():
        c = 'optional %s' % (x.a[1])
        if odd:
            ctx.und('optional', c, 'guarded by %s' % show(odd[0])[:120], where(e))
        else:
            ctx.viol('optional', c, 'iterated although a document may leave it out', l.where if isinstance(l.where, str) else where(e))
    for x, e in done.items():
        ctx.ok('optional', show(x)[-60:], 'only if it is there', where(e))


def nm(el):
    return at(el, 'name')


G = ('covergroups',)
GI = G + ('instances',)


def walk(y):
    groups = [e for e in y.ev if e.name == 'createCovergroup']
    if not groups:
        y.fail('once', 'covergroup', 'no covergroup is ever created', None)
    for g in groups:
        y.used.add(g)
        rec = leaves(g.recv)
        if len(rec) != 1 or rec[0].op != 'new' or not any(x.result is rec[0] for x in y.ev):
            y.fail('own-parent', 'covergroup', 'created on %s' % show(g.recv)[:100], g, [g.recv])
        r = y.exact('covergroup', g, None, G, ())
        if r is None:
            continue
        el, loops = r
        y.name('covergroup', g, 0, nm(el))
        y.weight('covergroup', g, el)
        for ci in y.creates('createCoverInstance', g, 'covergroup instance'):
            r = y.exact('covergroup instance', ci, g, GI, loops)
            if r is None:
                continue
            ie, il = r
            y.name('covergroup instance', ci, 0, nm(ie))
            y.weight('covergroup instance', ci, el)
            items(y, ci, il)
        y.settle('covergroup instance')
        types_(y, g, el, loops)
    y.settle('covergroup')
    lost = [e for e in y.ev if e not in y.used and e.name in ('createCoverInstance', 'createCoverpoint', 'createCross', 'createBin')]
    for e in lost:
        y.fail('own-parent', e.name, 'performed on %s, which is not the object the entry belongs to' % show(e.recv)[:100], e, [e.recv])


LEVEL = (('coverpoint', 'coverpoints', 'createCoverpoint', KINDS), ('cross', 'crosses', 'createCross', KINDS[:1]))


def items(y, ci, il):
    for tag, lst, meth, kinds in LEVEL:
        c = 'instance ' + tag
        for e in y.creates(meth, ci, c):
            r = y.exact(c, e, ci, GI + (lst,), il)
            if r is None:
                continue
            el, loops = r
            y.name(c, e, 0, nm(el))
            y.one(c, e, 2, 'weight', rule='weight')
            if tag == 'cross':
                if len(e.args) < 5:
                    y.fail('cross-link', c, 'created without coverpoints', e)
                else:
                    y.link(c, e, e.args[4], y.names_of(el), ci, [ci.loops, il], lambda cp, k: k is cp.args[0], ci)
            for cat, evs in y.split(c + '/bin', y.creates('createBin', e, c + '/bin'), GI + (lst,), kinds).items():
                cb = '%s/%s' % (c, cat)
                for b in evs:
                    r = y.exact(cb, b, e, GI + (lst, cat), loops)
                    if r is None:
                        continue
                    bel, bl = r
                    y.name(cb, b, 0, nm(bel))
                    t = b.args[3] if len(b.args) > 3 else NONE
                    if t is at(bel, 'count'):
                        y.ctx.ok('count', cb, '', where(b))
                    else:
                        y.fail('count', cb, 'the count is %s' % show(t)[:140], b, [t])
                    y.atleast(cb, b, el)
                    y.kind(cb, b, dict(kinds)[cat])
                y.settle(cb)
        y.settle(c)


def types_(y, g, gel, gl):
    for tag, lst, meth, kinds in LEVEL:
        c = 'type ' + tag
        for e in y.creates(meth, g, c, 'distinct'):
            r = y.distinct(c, e, g, GI + (lst,), nm, [g.loops], {1: 'any'})
            if r is None:
                continue
            el, loops, bad = r
            y.name(c, e, 0, nm(el))
            y.one(c, e, 2, 'weight', rule='weight')
            if tag == 'cross':
                if len(e.args) < 5:
                    y.fail('cross-link', c, 'created without coverpoints', e)
                else:
                    y.link(c, e, e.args[4], y.names_of(el), g, [g.loops], lambda cp, k: k is cp.args[0], g)
            for cat, evs in y.split(c + '/bin', y.creates('createBin', e, c + '/bin', 'distinct'), GI + (lst,), kinds).items():
                cb = '%s/%s' % (c, cat)
                for b in evs:
                    lev = {1: 'any', 2: (nm, y.canon(nm(el)))}
                    r = y.distinct(cb, b, e, GI + (lst, cat), nm, [e.loops], lev)
                    if r is None:
                        continue
                    bel, bl, bad = r
                    y.name(cb, b, 0, nm(bel))
                    lev = {2: (nm, y.canon(nm(el))), 3: (nm, y.canon(nm(bel)))}
                    y.sumcount(cb, b.args[3] if len(b.args) > 3 else NONE, b, GI + (lst, cat), lambda x, v: v is at(x, 'count'), gl, lev)
                    y.atleast(cb, b, el)
                    y.kind(cb, b, dict(kinds)[cat])
                y.settle(cb, 'distinct')
        y.settle(c, 'distinct')
