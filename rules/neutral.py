"""C22: merging, reporting and XML export use a database only through what the public object API declares.

The three components run abstractly on opaque databases.  Every value they take from a database is given
the class of the public API that the declarations (annotations, and the scope kind asked for) promise; every
operation, field access and other use of such a value is then checked against that class: the operation is
declared, its argument list is accepted by the declaration and by every implementation of it, fields are
declared data fields, iterators are only iterated, and nothing depends on which implementation it is."""
import ast
from .base import *
from . import mirror

SCOPE = 'ucis.scope_type_t.ScopeTypeT'
PUBLIC = {n: 'ucis.%s.%s' % (m, n) for n, m in (
    ('UCIS', 'ucis'), ('Scope', 'scope'), ('InstanceScope', 'instance_scope'), ('DUScope', 'du_scope'), ('Covergroup', 'covergroup'),
    ('Coverpoint', 'coverpoint'), ('Cross', 'cross'), ('CoverIndex', 'cover_index'), ('CoverData', 'cover_data'), ('SourceInfo', 'source_info'),
    ('FileHandle', 'file_handle'), ('HistoryNode', 'history_node'))}
KINDS = {'INSTANCE': 'InstanceScope', 'COVERGROUP': 'Covergroup', 'COVERINSTANCE': 'Covergroup', 'COVERPOINT': 'Coverpoint', 'CROSS': 'Cross',
         'DU_MODULE': 'DUScope'}
RESULT = {'createScope': 'Scope', 'createInstance': 'InstanceScope', 'createCovergroup': 'Covergroup', 'createCoverInstance': 'Covergroup',
          'createCoverpoint': 'Coverpoint', 'createCross': 'Cross', 'createBin': 'CoverIndex', 'createNextCover': 'CoverIndex',
          'createHistoryNode': 'HistoryNode', 'createFileHandle': 'FileHandle', 'createToggle': 'Scope'}
ITER, LIST, VAL = 'iterator', 'list', 'value'

SRC = '''
from ucis.merge.db_merger import DbMerger
from ucis.report.coverage_report_builder import CoverageReportBuilder
from ucis.xml.xml_writer import XmlWriter
def merge(dst, srcs):
    DbMerger().merge(dst, srcs)
def report(db):
    CoverageReportBuilder.build(db)
def export(db, out):
    XmlWriter().write(out, db)
'''
OPS = (('merge', 'DbMerger.merge', 'ucis.merge.db_merger.DbMerger', ('dst', 'srcs')),
       ('report', 'CoverageReportBuilder.build', 'ucis.report.coverage_report_builder.CoverageReportBuilder', ('db',)),
       ('export', 'XmlWriter.write', 'ucis.xml.xml_writer.XmlWriter', ('db', 'out')))


class Types(object):
    """The class of the public API a value taken from a database belongs to."""

    def __init__(self, prog):
        self.prog = prog
        self.cls = {n: prog.cls(q) for n, q in PUBLIC.items()}
        gone = [n for n, c in self.cls.items() if c is None]
        if gone:
            raise AnchorError('public classes ' + ' '.join(sorted(gone)))
        self.bycls = {c: n for n, c in self.cls.items()}
        self.masks = {}
        for k, n in KINDS.items():
            self.masks[cval(enumc(prog, SCOPE, k))] = n
        self.memo = {}
        self.public = set()
        self.backend = []
        for m in prog.modules.values():
            for b in m.bind.values():
                if b[0] == 'class' and b[1].module is m:
                    c = b[1]
                    if m.name.count('.') <= 1 and m.name.startswith('ucis'):
                        self.public.add(c)
                    elif m.name.startswith('ucis.'):
                        self.backend.append(c)

    # -------------------------------------------------------- declarations
    def declared(self, n, name):
        """Declaration of an operation for class n of the API."""
        for c in self.prog.mro(self.cls[n]):
            if c in self.public and name in c.methods:
                return c.methods[name]
        return None

    def subs(self, n):
        c0 = self.cls[n]
        return [m for m, c in self.cls.items() if c is not c0 and c0 in self.prog.mro(c)]

    def fields(self, n):
        out = set()
        for c in self.prog.mro(self.cls[n]):
            if c not in self.public:
                continue
            out |= set(c.assigns)
            f = c.methods.get('__init__')
            if f is not None:
                for x in ast.walk(f.node):
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) else []
                    for t in ts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.params[0]:
                            out.add(t.attr)
            for mn, mf in c.methods.items():
                if mf.is_property:
                    out.add(mn)
        return out

    def impls(self, n, name):
        c0 = self.cls[n]
        out = []
        for c in self.backend:
            mro = self.prog.mro(c)
            if c0 in mro:
                f = self.prog.find_method(c, name)
                if f is not None and f.cls not in self.public:
                    out.append((c, f))
        seen, res = set(), []
        for c, f in out:
            if f not in seen:
                seen.add(f)
                res.append((c, f))
        return res

    # --------------------------------------------------------------- types
    def ann(self, a):
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(a, ast.Name):
            if a.id in self.cls:
                return a.id
            return VAL
        if isinstance(a, ast.Attribute):
            return a.attr if a.attr in self.cls else VAL
        if isinstance(a, ast.Subscript):
            h = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, 'attr', '')
            inner = self.ann(a.slice)
            if h in ('Iterator', 'Iterable', 'Generator'):
                return (ITER, inner)
            if h in ('List', 'list', 'Sequence'):
                return (LIST, inner)
            if h == 'Optional':
                return inner
            return VAL
        if isinstance(a, ast.List) and len(a.elts) == 1:
            return (LIST, self.ann(a.elts[0]))
        return VAL

    def common(self, ns):
        """Most specific class covering all of ns."""
        ns = list(ns)
        if len(set(ns)) == 1:
            return ns[0]
        for c in self.prog.mro(self.cls[ns[0]]):
            n = self.bycls.get(c)
            if n and all(c in self.prog.mro(self.cls[m]) for m in ns):
                return n
        return None

    def result(self, rt, name, args):
        """Type of the result of an operation of class rt."""
        if name in RESULT:
            return RESULT[name]
        d = self.declared(rt, name)
        if d is None:
            for m in self.subs(rt):
                d = d or self.declared(m, name)
        if d is None:
            return None
        t = self.ann(d.node.returns)
        if name == 'scopes':
            k = None
            if args and args[0].op == 'const':
                try:
                    v = int(cval(args[0]))
                    ks = [n for b, n in self.masks.items() if v & b]
                    rest = v & ~sum(self.masks)
                    if v > 0 and not rest and ks:
                        k = self.common(ks)
                except (TypeError, ValueError):
                    pass
            return (ITER, k or 'Scope')
        if name == 'getInstanceDu':
            return 'DUScope'
        return t if t is not None else VAL

    def of(self, t):
        """Set of types of a term; None in it: not known."""
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = {None}
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        op = t.op
        if op == 'sym':
            return {{'db': 'UCIS', 'dst': 'UCIS', 'srcs': (LIST, 'UCIS')}.get(t.a[0])}
        if op in ('const', 'op', 'isnone', 'truth', 'nonempty', 'not', 'and', 'or', 'sum', 'exists', 'range', 'rangelen', 'cat', 'str', 'ext', 'isinst',
                  'hasattr', 'idx', 'fmt', 'strjoin', 'ordinal', 'posin', 'func', 'cls', 'builtin', 'closure', 'bm', 'undef', 'in', 'strmethod'):
            return {VAL}
        if op == 'elem':
            return self.items(self.of(t.a[0].domain))
        if op in ('it', 'listof', 'tail', 'exhausted', 'slice', 'sorted', 'reversed'):
            out = set()
            for x in self.of(t.a[0]):
                if isinstance(x, tuple) and op in ('listof', 'sorted', 'slice', 'reversed'):
                    x = (LIST, x[1])
                out.add(x)
            return out
        if op == 'nextv':
            out = self.items(self.of(t.a[0]))
            d = t.a[2]
            if isinstance(d, T) and d is not NONE and d.op != 'undef':
                out |= self.of(d)
            return out
        if op == 'index':
            return self.items(self.of(t.a[0]))
        if op == 'ite':
            out = set()
            for x in leaves(t):
                if x.op not in ('const', 'undef'):
                    out |= self.of(x)
            return out or {VAL}
        if op in ('first', 'last'):
            return self.of(t.a[3]) if isinstance(t.a[3], T) else {None}
        if op == 'lastkey':
            return self.of(t.a[2]) if isinstance(t.a[2], T) else {None}
        if op == 'call':
            if t.a[0] is None:
                return {VAL}
            out = set()
            for r in self.of(t.a[0]):
                if r is None:
                    out.add(None)
                elif r == VAL or isinstance(r, tuple):
                    out.add(VAL)
                else:
                    out.add(self.result(r, t.a[1], t.a[2]))
            return out
        if op == 'new':
            return {RESULT.get(t.a[0], VAL)}
        if op == 'attr':
            out = set()
            for r in self.of(t.a[0]):
                if r == VAL or isinstance(r, tuple):
                    out.add(VAL)
                elif r is None:
                    out.add(None)
                else:
                    out.add(self.field_type(r, t.a[1]))
            return out
        if op == 'ref':
            return {VAL}
        return {None}

    def items(self, ts):
        out = set()
        for x in ts:
            out.add(x[1] if isinstance(x, tuple) else VAL if x == VAL else None)
        return out

    def field_type(self, n, name):
        for c in self.prog.mro(self.cls[n]):
            f = c.methods.get('__init__') if c in self.public else None
            if f is None:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr == name:
                    if isinstance(x.value, ast.Name):
                        for a in f.node.args.args:
                            if a.arg == x.value.id:
                                return self.ann(a.annotation) or VAL
                    return VAL
        return None


def name_of(x):
    return x if isinstance(x, str) else '%s of %s' % x if isinstance(x, tuple) else 'value of unknown class'


def accepts(fi, args, kw):
    """None, or why the argument list does not fit the declaration (self excluded)."""
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if not fi.is_static:
        ps = ps[1:]
    if any(x.op == 'star' for x in args) or '**' in kw:
        return ''
    nd = len(a.defaults)
    if len(args) > len(ps) and a.vararg is None:
        return '%d positional arguments, takes %d' % (len(args), len(ps))
    have = set(ps[:len(args)])
    po = {x.arg for x in a.posonlyargs}
    ko = {x.arg for x in a.kwonlyargs}
    for k in kw:
        if k in have:
            return 'argument %s given twice' % k
        if (k not in ps or k in po) and k not in ko and a.kwarg is None:
            return 'no parameter named %s' % k
        have.add(k)
    for p in ps[:len(ps) - nd] if nd else ps:
        if p not in have:
            return 'argument %s is missing' % p
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in have:
            return 'argument %s is missing' % x.arg
    return None


ANY = ('__class__', '__eq__', '__ne__', '__hash__', '__str__', '__repr__', '__iter__', '__next__', '__bool__')


class Check(object):
    def __init__(self, ctx, prog, what, I, ty, roots):
        self.ctx, self.prog, self.what, self.I, self.ty, self.roots = ctx, prog, what, I, ty, roots

    def ours(self, t):
        """Does the value come from a database?"""
        r = root_of(t)
        if r is not None:
            return any(r is x for x in self.roots)
        return any(x.op == 'sym' and x in self.roots for x in subterms(t)) or any(x.op == 'new' and x.a[0] in RESULT for x in subterms(t))

    def narrowed(self, e, t):
        """The event only happens under a condition on this very value (its kind has been looked at)."""
        x = strip_it(t)
        return any(any(strip_it(s) is x for s in subterms(c)) for c, _ in e.guards)

    def verdict(self, rule, what, e, r, good, msg):
        if good:
            self.ctx.ok(rule, what, '', where(e))
        else:
            self.ctx.viol(rule, what, msg, where(e))

    def member(self, e, t, name, call, cases):
        """An operation or field of value t."""
        ty, ctx = self.ty, self.ctx
        for r in cases:
            spot = '%s: %s.%s' % (self.what, name_of(r), name)
            if r == VAL:
                continue
            if r is None:
                if self.ours(t):
                    ctx.und('operations', spot, 'class of %s is not known' % show(t)[:100], where(e))
                continue
            if isinstance(r, tuple):
                if r[0] == ITER and name not in ANY:
                    ctx.viol('results', spot, '%s is declared to be an iterator, which has no %s' % (show(t)[:80], name), where(e))
                continue
            d = ty.declared(r, name)
            if d is None and name in ANY:
                continue
            if d is not None:
                if call is not None:
                    why = accepts(d, *call)
                    if why == '':
                        ctx.und('arguments', spot, 'argument list is not resolved', where(e))
                        continue
                    if why is not None:
                        ctx.viol('arguments', spot, 'called with an argument list its declaration does not accept: %s' % why, where(e))
                        continue
                    bad = None
                    for c, f in ty.impls(r, name):
                        w = accepts(f, *call)
                        if w:
                            bad = (c, w)
                            break
                    if bad:
                        ctx.viol('arguments', spot, '%s does not accept this argument list: %s' % (bad[0].qualname, bad[1]), where(e))
                    else:
                        ctx.ok('arguments', spot, '', where(e))
                ctx.ok('operations', spot, '', where(e))
                continue
            if call is None and name in ty.fields(r):
                ctx.ok('fields', spot, '', where(e))
                continue
            subs = [m for m in ty.subs(r) if ty.declared(m, name) is not None or name in ty.fields(m)]
            if subs and self.narrowed(e, t):
                ctx.ok('operations', spot, 'declared by %s; the kind is tested first' % subs[0], where(e))
                continue
            who = [c.qualname for c in ty.backend if ty.cls[r] in self.prog.mro(c) and (self.prog.find_method(c, name) is not None)]
            msg = '%s is not declared by %s (%s)' % (name, PUBLIC[r], 'only by ' + who[0] if who else 'declared by %s, and the kind of the scope is not tested' % PUBLIC[subs[0]]
                                                   if subs else 'an internal or unknown member')
            ctx.viol('operations' if call is not None else 'fields', spot, msg, where(e))

    def run(self):
        ctx, ty = self.ctx, self.ty
        for e in self.I.log:
            if e.kind == 'call' and e.recv is not None and e.raw is not None:
                rs = self.of(e.recv)
                self.member(e, e.recv, e.name, e.raw, rs)
                if e.recv is not None and any(r not in (VAL, None) and not isinstance(r, tuple) for r in rs):
                    self.given(e)
            elif e.kind == 'use':
                rs = self.of(e.recv)
                if e.name == 'attr':
                    self.member(e, e.recv, e.key, None, rs)
                elif e.name in ('isinstance', 'type', 'hasattr', 'vars', 'getattr'):
                    self.reflect(e, rs)
                else:
                    for r in rs:
                        spot = '%s: %s of %s' % (self.what, e.name, name_of(r))
                        if isinstance(r, tuple) and r[0] == ITER and e.name in ('len', 'index', 'truth', 'reversed'):
                            ctx.viol('results', spot, '%s is declared to be an iterator; %s needs a list' % (show(e.recv)[:80], e.name), where(e))
                        elif isinstance(r, str) and r in ty.cls and e.name in ('len', 'index', 'reversed', 'next'):
                            ctx.viol('operations', spot, '%s is not declared for %s' % (e.name, PUBLIC[r]), where(e))
                        elif r is not None and r != VAL:
                            ctx.ok('results', spot, '', where(e))
            elif e.kind == 'setattr' and e.recv is not None and e.recv.op != 'ref' and isinstance(e.name, str):
                self.member(e, e.recv, e.name, None, self.of(e.recv))
            elif e.kind == 'next' and e.recv is not None:
                for r in self.of(e.recv):
                    spot = '%s: next of %s' % (self.what, name_of(r))
                    if isinstance(r, tuple) and r[0] == LIST:
                        ctx.viol('results', spot, '%s is a list, not an iterator' % show(e.recv)[:80], where(e))
            for l in e.loops:
                d = l.domain
                if (d, 'dom') in self.seen:
                    continue
                self.seen.add((d, 'dom'))
                for r in ty.of(d):
                    if isinstance(r, str) and r in ty.cls:
                        ctx.viol('operations', '%s: iteration over %s' % (self.what, r), '%s is not declared to be iterable' % PUBLIC[r], where(e))
                    elif isinstance(r, tuple):
                        ctx.ok('results', '%s: iteration over %s' % (self.what, name_of(r)), '', where(e))

    seen = None

    def of(self, t):
        if t is None:
            return set()
        return self.ty.of(t)

    def reflect(self, e, rs):
        ctx, ty = self.ctx, self.ty
        own = [r for r in rs if isinstance(r, str) and r in ty.cls]
        if not own:
            return
        spot = '%s: %s of %s' % (self.what, e.name, name_of(own[0]))
        if e.name == 'isinstance':
            cs = []
            for a in e.args:
                cs.extend(a.a if a.op == 'tuple' else [a])
            bad = [c for c in cs if c.op == 'cls' and c.a[0] not in ty.public]
            if bad:
                ctx.viol('implementation', spot, 'the behaviour depends on whether the object is a %s' % bad[0].a[0].qualname, where(e))
            else:
                ctx.decide('implementation', spot, all(c.op == 'cls' for c in cs), 'class tested is not resolved', where(e), und=True)
        elif e.name in ('hasattr', 'getattr'):
            n = cval(e.args[0]) if e.args and e.args[0].op == 'const' else None
            if n is None:
                ctx.und('implementation', spot, 'name of the member is not known', where(e))
            elif all(ty.declared(r, n) or n in ty.fields(r) or any(ty.declared(m, n) for m in ty.subs(r)) for r in own):
                ctx.ok('implementation', spot, '', where(e))
            else:
                ctx.viol('implementation', spot, 'the behaviour depends on the undeclared member %s' % n, where(e))
        elif e.name == 'vars':
            ctx.viol('implementation', spot, 'the internal fields of the object are read', where(e))
        else:
            ctx.und('implementation', spot, 'use of the class of the object is not followed', where(e))

    def given(self, e):
        """No object of one particular implementation is handed to a database."""
        todo = list(e.raw[0]) + list(e.raw[1].values())
        seen = set()
        while todo:
            for x in leaves(todo.pop()):
                if x.op == 'tuple':
                    todo.extend(x.a)
                if x.op != 'ref' or x in seen:
                    continue
                seen.add(x)
                o = x.a[0]
                if o.cls is not None and o.cls in self.ty.backend:
                    self.ctx.viol('implementation', '%s: %s' % (self.what, e.name), 'an object of class %s is handed to the database' % o.cls.qualname, where(e))
                elif o.cls is None:
                    todo.extend(v.value for v in o.events if v.value is not None)


def c22(ctx, prog):
    ctx.rule('operations', 'Every operation performed on a database object is declared by the class of the public API the object is declared to have.')
    ctx.rule('arguments', 'Every argument list is accepted by the declaration of the operation and by every implementation of it.')
    ctx.rule('fields', 'Only declared data fields of bin data and source locations are read or written.')
    ctx.rule('results', 'What is declared to be an iterator is only iterated: no length, index, or truth value is taken.')
    ctx.rule('implementation', 'Nothing depends on which implementation an object belongs to, and no object of a particular one is handed to a database.')
    prog.add_source('verif_neutral', SRC)
    for fn, what, anchor, names in OPS:
        if prog.cls(anchor) is None:
            raise AnchorError(anchor)
        I = Interp(prog)
        I.trace = True
        I.callq('verif_neutral.' + fn, [mk('sym', n) for n in names], st=State())
        ty = Types(prog)
        roots = [mk('sym', n) for n in names if n != 'out']
        c = Check(ctx, prog, what, I, ty, roots)
        c.seen = set()
        n0 = len(ctx.obs)
        c.run()
        if len(ctx.obs) == n0:
            raise AnchorError('%s performs no operation on a database' % what)
        ctx.absorb(I)
