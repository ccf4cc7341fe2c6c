"""C13: nothing is kept between uses.

Each operation is analysed once on a worker; whatever persists afterwards and was changed by it
(fields of the worker, class and module variables, shared default arguments, and the containers and
objects reachable from them) is then replaced by an unknown earlier value and the operation analysed
again on other inputs.  No step and no result of the second use may depend on such a value.
"""
from .base import *
from vflow.engine import deco_names

OPS = [
    # name, class, method, arguments
    ('XML read', 'ucis.xml.xml_reader.XmlReader', 'read', 1),
    ('YAML read', 'ucis.yaml.yaml_reader.YamlReader', 'load', 1),
    ('XML export', 'ucis.xml.xml_writer.XmlWriter', 'write', 2),
    ('merge', 'ucis.merge.db_merger.DbMerger', 'merge', 2),
    ('text report', 'ucis.report.format_rpt_text.FormatRptText', 'report', 3),
    ('JSON report', 'ucis.report.format_rpt_json.FormatRptJson', 'report', 3),
    ('report builder', 'ucis.report.coverage_report_builder.CoverageReportBuilder', '=build', 1),
    ('detailed report', 'ucis.report.text_coverage_report_formatter.TextCoverageReportFormatter', '+report', 2),
    ('XML factory read', 'ucis.xml.xml_factory.XmlFactory', '=read', 1),
    ('XML factory write', 'ucis.xml.xml_factory.XmlFactory', '=write', 2),
    ('XML format read', 'ucis.xml.db_format_if_xml.DbFormatIfXml', 'read', 1),
    ('XML format create', 'ucis.xml.db_format_if_xml.DbFormatIfXml', 'create', 0),
    ('YAML format read', 'ucis.yaml.db_format_if_yaml.DbFormatIfYaml', 'read', 1),
    ('YAML format create', 'ucis.yaml.db_format_if_yaml.DbFormatIfYaml', 'create', 0),
    ('merge command', 'ucis.cmd.cmd_merge', '=merge', 1),
    ('convert command', 'ucis.cmd.cmd_convert', '=convert', 1),
    ('report command', 'ucis.cmd.cmd_report', '=report', 1),
    ('XML database write', 'ucis.xml.xml_ucis.XmlUCIS', 'write', 1),
]
MAKE = '''
from ucis.mem.mem_ucis import MemUCIS
from ucis.scope_type_t import ScopeTypeT
from ucis.cover_type_t import CoverTypeT
from ucis.history_node_kind import HistoryNodeKind
from ucis.cover_data import CoverData
from ucis.source_info import SourceInfo
from ucis.source_t import SourceT
from ucis.test_data import TestData

def build(path, name, amount):
    db = MemUCIS()
    src = SourceInfo(db.createFileHandle(path, path), amount, 0)
    node = db.createHistoryNode(None, name, path, HistoryNodeKind.TEST)
    du = db.createScope(name, src, 1, SourceT.SV, ScopeTypeT.DU_MODULE, 0)
    inst = db.createInstance(name, src, 1, SourceT.SV, ScopeTypeT.INSTANCE, du, 0)
    cg = inst.createCovergroup(name, src, 1, SourceT.SV)
    cp = cg.createCoverpoint(name, src, 1, SourceT.SV)
    item = cp.createBin(name, src, 1, amount, name, CoverTypeT.CVGBIN)
    cr = cg.createCross(name, src, 1, SourceT.SV, [cp])
    item2 = cr.createBin(name, src, 1, amount, name, CoverTypeT.CVGBIN)
    ci = cg.createCoverInstance(name, src, 1, SourceT.SV)
    cp2 = ci.createCoverpoint(name, src, 1, SourceT.SV)
    idx = cp2.createBin(name, src, 1, amount, name, CoverTypeT.CVGBIN)
    seen = [list(db.scopes(ScopeTypeT.ALL)), list(inst.scopes(ScopeTypeT.ALL)), list(cg.scopes(ScopeTypeT.ALL)),
            list(cp.coverItems(CoverTypeT.ALL)), list(db.historyNodes(HistoryNodeKind.TEST))]
    return db, seen, node, item
'''


def walk(t, seen, init=None):
    """All terms a term is made of, domains of its loops included (and what its placeholders start from)."""
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Loop):
            if x not in seen:
                seen.add(x)
                todo.append(x.domain)
            continue
        if isinstance(x, (tuple, list)):
            todo.extend(x)
            continue
        if isinstance(x, dict):
            todo.extend(x.values())
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        if init is not None and x.op == 'mu':
            todo.extend(init.get((x.a[0], x.a[1]), ()))
        todo.extend(x.a)


def parts(e):
    for x in (e.recv, e.args, e.kw, e.key, e.value):
        if x is not None:
            yield x
    for c, t in e.guards:
        yield c
    for l in e.loops:
        yield l


class Uses(object):
    def __init__(self, ctx, prog, name, cls, meth, n):
        self.ctx, self.prog, self.name = ctx, prog, name
        self.cls = prog.cls(cls)
        self.qual, self.meth, self.n = cls, meth, n
        self.I = Interp(prog, opaque_funcs={'ucis.xml.validate_ucis_xml'}, opaque_classes={'ucis.rgy.format_rgy.FormatRgy'} if '.cmd.' in cls else ())

    def run(self, o, st, tag):
        I = self.I
        a = [mk('sym', '%s:%s%d' % (self.name, tag, i)) for i in range(self.n)]
        if self.meth.startswith('='):
            return I.callq('%s.%s' % (self.qual, self.meth[1:]), a, st=st, tag=tag)
        if self.meth.startswith('+'):
            o = I.enter(lambda s, nd: I.instantiate(self.cls, a, {}, s, nd), st, self.cls.module, ('mk', tag))
            return I.invoke(o, self.meth[1:], [], st=st, tag=tag)
        return I.invoke(o, self.meth, a, st=st, tag=tag)

    def check(self):
        I, ctx = self.I, self.ctx
        if self.cls is None and self.qual not in self.prog.modules:
            raise AnchorError(self.qual + ' is gone')
        m = self.prog.find_method(self.cls, self.meth.lstrip('=+')) if self.cls is not None else self.prog.func('%s.%s' % (self.qual, self.meth[1:]))
        if m is None:
            raise AnchorError('%s.%s is gone' % (self.qual, self.meth.lstrip('=+')))
        self.wh = '%s:%d (%s)' % (rel(m.module.path), m.node.lineno, m.short)
        st = State()
        o = None
        if self.meth[0] not in '=+':
            o = I.new(self.qual, [], st=st)
        self.twice(o, st)

    def twice(self, o, st):
        I, ctx = self.I, self.ctx
        mark0 = len(I.log)
        born0 = len(I.heap)
        before = dict(st.m)
        r1 = self.run(o, st, 'first')
        ev1 = I.log[mark0:]
        if st.dead:
            ctx.viol('uses', self.name, 'always fails', self.wh)
            return
        self.before, self.born0, self.ev1 = before, born0, ev1
        # plain second use: which persistent places does it write again?
        changed = self.changed(st)
        s2 = st.fork()
        mark1 = len(I.log)
        nheap = len(I.heap)
        self.run(o, s2, 'second')
        ev2 = I.log[mark1:]
        again = self.touched(ev2, nheap)
        keep = {k for k, v in changed.items() if self.cache(k, v, again, s2, st, ev2)}
        # the second use after an unknown history
        s3 = st.fork()
        undo = {}
        self.stale = {}
        for k in changed:
            if k in keep:
                continue
            t = mk('sym', 'earlier ' + self.show(k))
            self.stale[t] = k
            if k[0] in ('f', 'g'):
                s3.m[k] = t
            else:
                undo[k] = I.globals_[k]
                I.globals_[k] = t
        mark2 = len(I.log)
        r3 = self.run(o, s3, 'later')
        ev3 = I.log[mark2:]
        I.globals_.update(undo)
        self.verdict(ev3, r3, changed, keep)
        self.memoised()
        ctx.absorb(I)

    def show(self, k):
        if k[0] == 'f':
            t = k[1]
            n = t.a[0].cls.name if t.op == 'ref' and t.a[0].cls is not None else t.a[0].name if t.op == 'cls' else str(t)
            return '%s.%s' % (n, k[2])
        if k[0] == 'ca':
            return '%s.%s' % (k[1].name, k[2])
        if k[0] == 'da':
            v = self.I.globals_[k]
            return v.a[0].shared or 'default argument' if v.op == 'ref' else 'default argument'
        return '%s.%s' % (k[1], k[2])

    def persistent(self, ob):
        return ob.n < self.born0 or bool(ob.shared)

    def touched(self, evs, n):
        """Objects older than n (or shared) and places that these events modify."""
        obs, places = set(), set()
        for e in evs:
            if e.kind == 'cont' and e.obj is not None and (e.obj.n < n or e.obj.shared):
                if any(x is e for x in e.obj.events):
                    obs.add(e.obj)
            elif e.kind == 'setattr' and e.recv is not None:
                for t in arms(e.recv):
                    if t.op == 'ref' and (t.a[0].n < n or t.a[0].shared):
                        obs.add(t.a[0])
                        places.add(('f', mk('ref', t.a[0], ()), e.name))
                    elif t.op == 'cls':
                        places.add(('f', t, e.name))
            elif e.kind == 'setglobal':
                places.add(('g', e.recv.a[0], e.name))
        return obs, places

    def changed(self, st):
        """Places that outlive the operation and hold something else, or something modified, after it."""
        I = self.I
        obs, places = self.touched(self.ev1, self.born0)
        out = {}
        drained = {k[1] for k, v in st.m.items() if k[0] in ('pos', 'used') and self.before.get(k) is not v}
        self.drained = drained
        opq = self.mutated(self.ev1)

        def moved(v):
            if v is None or v.op == 'const':
                return False
            if self.holds(v, obs):
                return True
            return bool(drained or opq) and any(t in drained or t in opq for t in walk(v, set()))
        cand = dict(I.gstate.m)
        cand.update(self.before)
        cand.update(st.m)
        for k, v in cand.items():
            if k[0] == 'g':
                old = self.before.get(k)
            elif k[0] == 'f' and k[1].op == 'cls':
                old = self.before.get(k)
            elif k[0] == 'f' and k[1].op == 'ref' and self.persistent(k[1].a[0]):
                old = self.before.get(k, I.gstate.m.get(k))
            else:
                continue
            if (old is not v and k in places) or moved(v):
                out[k] = v
        for k, v in list(I.globals_.items()):
            if isinstance(v, T) and isinstance(k, tuple) and k[0] in ('g', 'ca', 'da'):
                kk = ('f', mk('cls', k[1]), k[2]) if k[0] == 'ca' else k
                if kk not in st.m and moved(v):
                    out[k] = v
        return out

    def mutated(self, evs):
        """Values made by other libraries that are modified by these events."""
        out = set()
        for e in evs:
            if e.kind == 'setattr' or e.kind == 'call' and not e.pure and e.recv is not None and not str(e.name)[:1].isupper() and \
                    e.name not in ('find', 'build_classes', 'parse', 'load', 'loads', 'compile', 'as_dict', 'acquire', 'release', 'log', 'debug', 'info', 'warning', 'error'):
                for t in arms(e.recv):
                    out.update(roots(t))
            if e.kind == 'call' and str(e.name).rsplit('.', 1)[-1] == 'SubElement' and e.args:
                for t in arms(e.args[0]):
                    out.update(roots(t))
        return {t for t in out if t.op == 'new' or t.op == 'call' and (t.a[0] is None or t.a[0].op in ('ext', 'mod', 'const'))}

    def holds(self, v, obs):
        """Is v one of these containers, or does it hold one (objects are looked into by their own fields)?"""
        todo, seen = [v], set()
        while todo:
            for t in walk(todo.pop(), seen):
                if t.op == 'ref' and t.a[0].kind in ('list', 'dict', 'set'):
                    ob = t.a[0]
                    if ob in obs:
                        return True
                    if ('ob', ob) not in seen:
                        seen.add(('ob', ob))
                        for e in ob.events:
                            todo.extend(y for y in (e.key, e.value) if y is not None)
        return False

    def reaches(self, v, obs, st, depth=0, seen=None):
        """Is v, or something it holds, one of these objects?"""
        if not obs:
            return False
        seen = set() if seen is None else seen
        todo = [v]
        while todo:
            x = todo.pop()
            for t in walk(x, seen):
                if t.op == 'ref':
                    ob = t.a[0]
                    if ob in obs:
                        return True
                    if ('ob', ob) in seen:
                        continue
                    seen.add(('ob', ob))
                    for e in ob.events:
                        todo.extend(y for y in (e.key, e.value) if y is not None)
                    for k, y in st.m.items():
                        if k[0] == 'f' and k[1] is mk('ref', ob, ()):
                            todo.append(y)
        return False

    def cache(self, k, v, again, s2, st, ev2):
        """Is this place filled in on first use with something that does not depend on the inputs?"""
        obs, places = again
        if v.op == 'const' or any(t in self.drained for t in walk(v, set())):
            return False
        if k[0] in ('f', 'g') and (k in places):
            return False
        if self.reaches(v, obs, s2):
            return self.memo(v)
        opq = self.mutated(ev2)
        if opq and any(t in opq for t in walk(v, set())):
            return False
        if k[0] == 'f':
            old = self.before.get(k)
            if old is None and k[1].op == 'cls':
                old = self.I.globals_.get(('ca', k[1].a[0], k[2]))
            if old is not None and old is not NONE and old is not v:
                return False
        if v.op == 'ref' and self.memo(v):
            return True
        if self.depends(v, st):
            return False
        # nothing visible may happen in the first use only
        vis1 = {(e.kind, e.name, e.site) for e in self.ev1 if self.visible(e)}
        vis2 = {(e.kind, e.name, e.site) for e in ev2 if self.visible(e)}
        return vis1 <= vis2

    def memoised(self):
        """Functions whose results a decorator keeps, although they make or change objects from their arguments."""
        seen = set()
        for e in self.ev1:
            if e.kind != 'inline' or e.name in seen:
                continue
            fi = self.prog.func(e.name) or getattr(e.raw, 'a', [None])[0]
            if fi is None or not hasattr(fi, 'node') or not set(deco_names(fi.node)) & {'lru_cache', 'cache', 'memoize', 'memoized', 'cached'}:
                continue
            seen.add(e.name)
            wh = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.short)
            dep = any(t.op == 'sym' for a in list(e.args or ()) + list((e.kw or {}).values()) for t in walk(a, set()))
            act = [x for x in self.ev1 if fi.short in x.stack and (x.kind in ('create', 'cont', 'setattr') or x.kind == 'call' and not x.pure)]
            c = '%s: %s' % (self.name, fi.short)
            if dep and act:
                self.ctx.viol('uses', c, 'keeps what it made for an earlier call with the same arguments', wh)
            else:
                self.ctx.ok('uses', c, 'kept results are values', wh)

    def memo(self, v):
        """A table whose entries are functions of their keys."""
        if v.op != 'ref' or v.a[0].kind != 'dict':
            return False
        for e in v.a[0].events:
            if e.name != 'store' or e.key is None or e.value is None:
                return False
            ks = set(walk(e.key, set()))
            for t in walk(e.value, set()):
                if t in ks:
                    continue
                if t.op in ('ref', 'new', 'sym', 'elem', 'rec', 'top') or not t.a:
                    return False
        return True

    def visible(self, e):
        if e.kind == 'call' and not e.pure and e.recv is not None:
            return any(t.op == 'sym' for t in walk(e.recv, set()))
        return False

    def depends(self, v, st):
        """Does v (or what it holds) depend on an input of the first use?"""
        seen = set()
        made = {}
        for e in self.ev1:
            if e.result is not None:
                made.setdefault(e.result, []).append(e)
        todo = [v]
        while todo:
            for t in walk(todo.pop(), seen):
                if t.op == 'sym':
                    return True
                if t.op in ('top', 'rec', 'mu'):
                    return True
                if t.op == 'new':
                    for e in made.get(t, ()):
                        todo.extend(list(e.args or ()) + list((e.kw or {}).values()) + ([e.recv] if e.recv is not None else []))
                if t.op == 'ref' and ('ob', t.a[0]) not in seen:
                    seen.add(('ob', t.a[0]))
                    for e in t.a[0].events:
                        todo.extend(y for y in (e.key, e.value) if y is not None)
                        todo.extend(c for c, tg in e.guards)
                    for k, y in st.m.items():
                        if k[0] == 'f' and k[1] is mk('ref', t.a[0], ()):
                            todo.append(y)
        return False

    def verdict(self, evs, res, changed, keep):
        ctx = self.ctx
        bad = {}
        cleared = set()
        for e in evs:
            if e.kind in ('enter', 'exit', 'inline', 'create'):
                own = [e.recv] if e.kind != 'inline' else []
                ps = list(parts(e)) if e.kind == 'create' else []
            else:
                ps = list(parts(e))
            hit = set()
            for p in ps:
                for t in walk(p, set(), self.I.muinit):
                    if t in self.stale and t not in cleared:
                        hit.add(t)
            for t in hit:
                if e.kind == 'call' and e.recv is t and e.name == 'clear' and t not in bad and not any(t in set(walk(c, set(), self.I.muinit)) for c, g in e.guards):
                    cleared.add(t)
                    continue
                k = self.stale[t]
                if k[0] == 'f' and e.kind == 'setattr' and e.recv is k[1] and e.name == k[2] and \
                        not any(t in set(walk(c, set(), self.I.muinit)) for c, g in e.guards):
                    continue       # a tally of its own
                bad.setdefault(t, e)
        for t in walk(res, set(), self.I.muinit) if res is not None else ():
            if t in self.stale and t not in cleared:
                bad.setdefault(t, None)
        for t, k in sorted(self.stale.items(), key=lambda x: self.show(x[1])):
            c = '%s: %s' % (self.name, self.show(k))
            if t in bad:
                e = bad[t]
                ctx.viol('uses', c, 'its value from an earlier use reaches a later one' + (' (returned)' if e is None else ''), where(e) if e is not None else self.wh)
            else:
                ctx.ok('uses', c, 'set anew before it is used', self.wh)
        for k in sorted(keep, key=self.show):
            ctx.ok('uses', '%s: %s' % (self.name, self.show(k)), 'filled in once, independent of the inputs', self.wh)
        ctx.ok('uses', self.name, '%d places outlive the operation, %d steps of the second use' % (len(changed), len(evs)), self.wh)


class Make(Uses):
    def __init__(self, ctx, prog):
        self.ctx, self.prog, self.name = ctx, prog, 'new database'
        prog.add_source('verif_obs_uses', MAKE)
        self.n = 3
        self.I = Interp(prog)
        self.meth, self.qual = '=build', 'verif_obs_uses'
        self.wh = 'src/ucis/mem/mem_ucis.py'


def roots(t):
    """The objects a value is taken out of by attribute access, indexing and the like."""
    out = set()
    while True:
        out.add(t)
        if t.op in ('attr', 'index', 'lookup', 'item', 'slice', 'elem') and t.a:
            x = t.a[0]
            t = x.domain if isinstance(x, Loop) else x
            if not isinstance(t, T):
                return out
            continue
        return out


def arms(t):
    if t.op == 'ite':
        return arms(t.a[1]) + arms(t.a[2])
    return [t]


def c13(ctx, prog):
    ctx.rule('uses', 'no step and no result of a later use depends on a value an earlier use left behind')
    for name, cls, meth, n in OPS:
        try:
            Uses(ctx, prog, name, cls, meth, n).check()
        except Abort as e:
            ctx.und('uses', name, str(e))
    u = Make(ctx, prog)
    u.twice(None, State())
