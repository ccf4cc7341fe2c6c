"""C07: the JSON report.  The generator runs abstractly on an opaque report; the objects it builds
(schema-derived classes or plain dicts) are read back as a tree and matched against the report and
against the published schema."""
import json
from .base import *
from .mirror import *
from . import gate

OUT, DBS, ARGS = mk('sym', 'out'), mk('sym', 'db'), mk('sym', 'args')
BUILD = 'ucis.report.coverage_report_builder.CoverageReportBuilder.build'
FILE = 'src/ucis/report/format_rpt_json.py'
SCHEMA = 'src/ucis/schema/covreport.json'
SRC = '''
from ucis.report.format_rpt_json import FormatRptJson
def observe(obs, db, out, args):
    f = FormatRptJson()
    f.report(db, out, args)
'''


class Node(object):
    """One JSON object under construction."""

    def __init__(self, term):
        self.t = term


class Tree(object):
    def __init__(self, I, st):
        self.I, self.st = I, st
        self.set_ = {}
        self.calls = {}
        self.assign = {}
        for e in I.log:
            if e.kind == 'setattr' and e.recv is not None and e.recv.op == 'new':
                self.set_.setdefault(e.recv, {}).setdefault(e.name, []).append(e)
            if e.kind == 'call' and e.result is not None and e.result.op == 'new':
                self.calls[e.result] = e

    def is_node(self, t):
        return t.op == 'new' or (t.op == 'ref' and t.a[0].kind == 'dict')

    def cls(self, t):
        return t.a[0] if t.op == 'new' else None

    def loops(self, t):
        return tuple(t.a[2]) if t.op == 'new' else tuple(t.a[0].loops)

    def fields(self, t):
        """{field: [(value, loops, guards, event)]}, or None when not all fields are known."""
        out = {}
        if t.op == 'new':
            for n, es in self.set_.get(t, {}).items():
                out[n] = [(e.args[0], e.loops, e.guards, e) for e in es]
            c = self.calls.get(t)
            if c is not None:
                if c.args:
                    return None
                for n, v in (c.kw or {}).items():
                    if n == '**':
                        return None
                    out.setdefault(n, []).insert(0, (v, c.loops, c.guards, c))
            return out
        for e in t.a[0].events:
            if e.name not in ('store',) or e.key.op != 'const':
                return None
            out.setdefault(cval(e.key), []).append((e.value, e.loops, e.guards, e))
        return out


def unwrap(t):
    """The object whose fields a serialisation call writes."""
    while t.op in ('call', 'new') and t.op == 'call' and t.a[1] in ('as_dict', 'serialize') and t.a[0] is not None:
        t = t.a[0]
    return t


def root_node(I, tree):
    """(root node, events, problem)"""
    found = []
    dumps = {e.result: e.args[0] for e in I.log if e.kind == 'call' and e.name == 'json.dumps' and e.result is not None and e.args}
    for e in I.log:
        if e.kind != 'call':
            continue
        if e.name in ('json.dump',) and len(e.args) >= 2 and e.args[1] is OUT:
            found.append((src_of(I, e.args[0]), e))
        elif e.recv is OUT and e.name == 'write':
            for x in subterms(e.args[0]):
                if x in dumps:
                    found.append((src_of(I, dumps[x]), e))
    return found


def src_of(I, t):
    t = unwrap(t)
    if t.op == 'new' and t.a[0] in ('as_dict', 'serialize'):
        for e in I.log:
            if e.kind == 'call' and e.result is t and e.recv is not None:
                return unwrap(e.recv)
    return t


class Schema(object):
    def __init__(self, d):
        self.d = d
        self.byclass = {}
        self.walk(d)

    def walk(self, x):
        if isinstance(x, dict):
            if isinstance(x.get('title'), str) and 'properties' in x:
                self.byclass[camel(x['title'])] = x
            for v in x.values():
                self.walk(v)

    def deref(self, x):
        n = 0
        while isinstance(x, dict) and '$ref' in x and n < 10:
            n += 1
            p = x['$ref']
            if not p.startswith('#/'):
                return None
            x = self.d
            for k in p[2:].split('/'):
                x = x.get(k) if isinstance(x, dict) else None
        return x if isinstance(x, dict) else None


def camel(t):
    return ''.join(w[:1].upper() + w[1:] for w in t.split())


def c07(ctx, prog):
    ctx.rule('once', 'one object per covergroup, coverpoint, cross and bin of the report, in order and under its own parent')
    ctx.rule('own-value', "name, coverage and count of an object are those of its own report item")
    ctx.rule('declared', 'every field set on an object is declared in the shipped schema for the object at that place, with a type that accepts the value')
    ctx.rule('required', 'every field the schema requires is set unconditionally')
    path = os.path.join(REPO, SCHEMA)
    if not os.path.exists(path):
        raise AnchorError(SCHEMA)
    try:
        sch = Schema(json.load(open(path)))
    except ValueError as e:
        ctx.viol('declared', 'schema', 'the shipped report schema is not valid JSON: %s' % e, SCHEMA)
        return
    if prog.cls('ucis.report.format_rpt_json.FormatRptJson') is None:
        raise AnchorError('FormatRptJson')
    I, st, ev, r = observe(prog, 'json', SRC, [DBS, OUT, ARGS], opaque=[BUILD])
    ctx.absorb(I, strict=True)
    for w, files in gate.builders(ctx, prog, 'ucis.report').items():
        if SCHEMA in files:
            ctx.ok('declared', 'classes of the document', '', w)
        elif None in files:
            ctx.und('declared', 'classes of the document', 'origin of the schema is not resolved', w)
        else:
            ctx.viol('declared', 'classes of the document', 'built from %s, not from the shipped report schema' % sorted(files)[0], w)
    tree = Tree(I, st)
    rts = root_node(I, tree)
    if not rts:
        ctx.und('once', 'document', 'the written document is not recognised')
        return
    if len(rts) > 1:
        ctx.und('once', 'document', 'several documents are written')
        return
    root, we = rts[0]
    if not tree.is_node(root):
        ctx.und('once', 'document', 'the written document is %s' % show(root)[:120])
        return
    if we.loops:
        ctx.viol('once', 'document', 'the document is written repeatedly', where(we))
    x = and_(extras(I, we))
    if x is not TRUE:
        (ctx.und if unknown(x) else ctx.viol)('once', 'document', 'the document is written only if %s' % show(x)[:120], where(we))
    else:
        ctx.ok('once', 'document', '', where(we))
    for e in I.log:
        if e.kind == 'call' and e.recv is OUT and e.name == 'write' and e is not we and e.args and e.args[0].op == 'const':
            ctx.decide('once', 'document only', not str(cval(e.args[0])).strip(), 'also writes %s, so the output is no JSON document' % show(e.args[0])[:60], where(e))
    rp = [e for e in I.log if e.kind == 'call' and e.name == BUILD]
    if len(rp) != 1 or rp[0].result is None:
        ctx.und('once', 'report', 'the report is not obtained by one call of CoverageReportBuilder.build')
        return
    if not (len(rp[0].args) == 1 and rp[0].args[0] is DBS):
        ctx.viol('once', 'report', 'the report is not built from the given database', where(rp[0]))
    rpt = rp[0].result
    m = Mirror(ctx, I, 'JSON report', rpt)
    C = Check(ctx, tree, m, sch, rpt)
    rs = sch.d.get('properties', {}).get('covreport')
    C.node(root, rpt, 'report', (('coverage', 'coverage', 'number'),), rs, 'CoverageReport')
    KIDS = {'report': (('covergroups', '.covergroups', 'covergroup'),),
            'covergroup': (('coverpoints', '.coverpoints', 'coverpoint'), ('crosses', '.crosses', 'cross'), ('covergroups', '.covergroups', 'instance')),
            'instance': (('coverpoints', '.coverpoints', 'coverpoint'), ('crosses', '.crosses', 'cross')),
            'coverpoint': (('bins', '.bins', 'bin'), ('ignorebins', '.ignore_bins', 'bin'), ('illegalbins', '.illegal_bins', 'bin')),
            'cross': (('bins', '.bins', 'bin'),), 'bin': ()}
    VALS = {'covergroup': (('name', 'name', 'string'), ('coverage', 'coverage', 'number')), 'bin': (('name', 'name', 'string'), ('count', 'count', 'integer'))}
    for k in ('instance', 'coverpoint', 'cross'):
        VALS[k] = VALS['covergroup']

    def kids(node, kind, path, schema, tag):
        for field, src, ck in KIDS[kind]:
            p = path + ((src, ()),)
            c = (tag + '/' if tag else '') + (ck if ck != 'bin' else src[1:])
            sub = None
            if schema is not None:
                pr = schema.get('properties', {}).get(field)
                if pr is None:
                    ctx.viol('declared', c, 'the schema has no field %s for a %s' % (field, kind), SCHEMA)
                else:
                    pr = sch.deref(pr)
                    if pr.get('type') != 'array':
                        ctx.viol('declared', c, 'the schema declares %s of a %s as %s, not as an array' % (field, kind, pr.get('type')), SCHEMA)
                    else:
                        sub = sch.deref(pr.get('items', {}))
            evs = C.children(node, field, c)
            if evs is None:
                continue
            for e, el in m.match('once', c, evs, p, FILE):
                if not tree.is_node(e.value):
                    (ctx.viol if e.value.op == 'const' else ctx.und)('once', c, 'adds %s instead of an object' % show(e.value)[:100], where(e))
                    continue
                if set(tree.loops(e.value)) != set(e.loops):
                    ctx.viol('once', c, 'one object is shared by several items', where(e))
                C.node(e.value, el, c, VALS[ck], sub, ck)
                kids(e.value, ck, p, sub, c)
    kids(root, 'report', (), rs, '')


class Check(object):
    def __init__(self, ctx, tree, m, sch, rpt):
        self.ctx, self.tree, self.m, self.sch, self.rpt = ctx, tree, m, sch, rpt

    def node(self, n, el, construct, vals, schema, kind):
        ctx, tree = self.ctx, self.tree
        fs = tree.fields(n)
        if fs is None:
            ctx.und('own-value', construct, 'fields of the object not resolved')
            return
        cls = tree.cls(n)
        cs = None
        if cls is not None:
            cs = self.sch.byclass.get(cls)
            w = where(tree.calls.get(n)) if n in tree.calls else FILE
            if cs is None:
                ctx.viol('declared', construct, 'the schema defines no class %s' % cls, w)
        for f in fs:
            e = fs[f][0][3]
            for what, s in (('', schema), ('class %s: ' % cls, cs)):
                if s is not None and f not in s.get('properties', {}):
                    ctx.viol('declared', '%s.%s' % (construct, f), '%sfield %s is not declared by the schema' % (what, f), where(e))
                elif s is not None:
                    ctx.ok('declared', '%s.%s' % (construct, f))
        base = set(tree.loops(n))
        for out, src, ty in vals:
            c = '%s.%s' % (construct, out)
            if out not in fs:
                ctx.viol('own-value', c, 'never set', FILE)
                continue
            v, loops, guards, e = fs[out][-1]
            extra = [g for g, t in guards if g not in {q for q, t in (tree.calls[n].guards if n in tree.calls else ())} and t != 'raise' and g not in raising(self.m.I) and not implied(g, loops)]
            if set(loops) - base:
                ctx.viol('own-value', c, 'set repeatedly, so the last of several values stays', where(e))
                continue
            if n.op == 'ref':
                extra = [g for g in extra if g not in {q for q, t in n.a[0].guards}]
            if extra and len(fs[out]) == 1:
                x = and_(extra)
                (ctx.und if unknown(x) else ctx.viol)('own-value', c, 'set only if %s' % show(x)[:140], where(e))
                continue
            self.m.field('own-value', c, v, mk('attr', el, src), where(e))
            if schema is not None:
                d = self.sch.deref(schema.get('properties', {}).get(out, {}))
                if d and 'type' in d:
                    okt = {'string': ('string',), 'number': ('number',), 'integer': ('integer', 'number')}[ty]
                    tt = d['type'] if isinstance(d['type'], list) else [d['type']]
                    ctx.decide('declared', c + ' type', any(x in okt for x in tt), 'the schema declares type %s for a %s' % (d['type'], ty), SCHEMA)
                for lim in ('maximum', 'maxLength', 'pattern', 'enum', 'minimum', 'minLength', 'multipleOf', 'exclusiveMinimum'):
                    if d and lim in d and not (lim == 'minimum' and d[lim] == 0) and not (lim == 'minLength' and d[lim] == 0) and not (lim == 'maximum' and out == 'coverage' and d[lim] == 100):
                        ctx.viol('declared', c + ' ' + lim, 'the schema limits %s to %s %s, the report does not' % (out, lim, d[lim]), SCHEMA)
        if schema is not None:
            for f in schema.get('required', []):
                es = fs.get(f)
                if not es:
                    ctx.viol('required', '%s.%s' % (construct, f), 'required by the schema but never set', FILE)
                else:
                    free = [x for x in es if not (set(x[1]) - base) and not [g for g, t in x[2] if g not in {q for q, t in (tree.calls[n].guards if n in tree.calls else ())} and not implied(g, x[1])]]
                    ctx.decide('required', '%s.%s' % (construct, f), bool(free), 'required by the schema but set only under a condition', where(es[0][3]))

    def children(self, n, field, construct):
        """Events that add an element to list `field` of object n."""
        ctx, tree = self.ctx, self.tree
        fs = tree.fields(n)
        if fs is None:
            ctx.und('once', construct, 'fields of the parent object not resolved')
            return None
        if field not in fs:
            ctx.viol('once', construct, 'field %s is never set' % field, FILE)
            return None
        base = set(tree.loops(n))
        out = []
        lists = []
        for v, loops, guards, e in fs[field]:
            alts = [v]
            while any(a.op == 'ite' for a in alts):
                alts = [y for a in alts for y in ((a.a[1], a.a[2]) if a.op == 'ite' else (a,))]
            for a in alts:
                if a.op == 'const' and cval(a) is None:
                    continue
                if a.op != 'ref' or a.a[0].kind != 'list':
                    ctx.und('once', construct, 'field %s is set to %s' % (field, show(a)[:100]), where(e))
                    return None
                lists.append((a, loops, guards, e))
        for a, loops, guards, e in lists:
            ob = a.a[0]
            more = [l for l in loops if l not in base]
            once = any(is_unset(g, n, field) for g, t in guards)
            if more and not once:
                ctx.viol('once', construct, 'the list %s is started anew for each item, so only the last item stays' % field, where(e))
                return None
            if len(lists) > 1 and not once and e is not lists[0][3]:
                ctx.und('once', construct, 'the list %s is set in several places' % field, where(e))
                return None
            for x in ob.events:
                if x.name == 'append':
                    if more or not set(ob.loops) - base:
                        out.append(x)
                    else:
                        out.append(x)
                elif x.name in ('insert', 'sort', 'reverse'):
                    ctx.viol('once', construct, 'the items are reordered (%s)' % x.name, where(x))
                else:
                    ctx.und('once', construct, 'list operation %s' % x.name, where(x))
                    return None
        # the guard that starts the list on first use is not a condition on the items
        return [E(x, [(g, t) for g, t in x.guards if not is_unset(g, n, field)]) for x in out]


class E(object):
    def __init__(self, e, guards):
        self.__dict__.update(e.__dict__ if hasattr(e, '__dict__') else {})
        for k in ('loops', 'site', 'stack', 'value', 'kind', 'name', 'acts'):
            if not hasattr(self, k):
                setattr(self, k, getattr(e, k, None))
        self.guards = guards


def is_unset(g, n, field):
    at = mk('attr', n, field)
    return (g.op == 'isnone' and g.a[0] is at) or (g.op == 'not' and g.a[0].op == 'truth' and g.a[0].a[0] is at) or \
        (g.op == 'not' and g.a[0].op == 'in' and g.a[0].a[0] is const(field))
