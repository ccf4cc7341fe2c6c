"""C04, C05 and the report part of C03: CoverageReportBuilder.build."""
from .base import *
from . import arith
from .mirror import *

BUILD = 'ucis.report.coverage_report_builder.CoverageReportBuilder.build'
FILE = 'src/ucis/report/coverage_report_builder.py'
SCOPE = 'ucis.scope_type_t.ScopeTypeT'
COVER = 'ucis.cover_type_t.CoverTypeT'

SRC = '''
from ucis.report.coverage_report_builder import CoverageReportBuilder

def bins(obs, tag, l):
    for b in l:
        obs.BIN(tag, b.name, b.goal, b.count, b.hit)

def items(obs, tag, cg):
    for cp in cg.coverpoints:
        obs.CP(tag, cp.name, cp.weight, cp.coverage)
        bins(obs, tag + '/coverpoint/bins', cp.bins)
        bins(obs, tag + '/coverpoint/ignore_bins', cp.ignore_bins)
        bins(obs, tag + '/coverpoint/illegal_bins', cp.illegal_bins)
    for cr in cg.crosses:
        obs.CR(tag, cr.name, cr.weight, cr.coverage)
        bins(obs, tag + '/cross/bins', cr.bins)

def observe(obs, db):
    r = CoverageReportBuilder.build(db)
    obs.REPORT(r.coverage)
    for cg in r.covergroups:
        obs.CG('covergroup', cg.name, cg.weight, cg.coverage)
        items(obs, 'covergroup', cg)
        for ci in cg.covergroups:
            obs.CG('instance', ci.name, ci.weight, ci.coverage)
            items(obs, 'instance', ci)
'''
DB = mk('sym', 'db')
_cache = {}


def analyse(prog):
    if prog not in _cache:
        if prog.func(BUILD) is None:
            raise AnchorError(BUILD)
        _cache[prog] = observe(prog, 'report', SRC, [DB])
    return _cache[prog]


def lit(t):
    return cval(t) if t.op == 'const' else None


def call(o, name, *args):
    return mk('call', o, name, tuple(args), ())


def at(I):
    """All functions of the builder, for the report location."""
    return FILE


class R(object):
    def __init__(self, prog):
        self.prog = prog
        self.I, self.st, self.ev, _ = analyse(prog)
        self.k = lambda n: cval(enumc(prog, SCOPE, n))
        self.c = lambda n: cval(enumc(prog, COVER, n))
        inst = (('scopes', (self.k('INSTANCE'),)),)
        self.paths = {'covergroup': inst + (('scopes', (self.k('COVERGROUP'),)),)}
        self.paths['instance'] = self.paths['covergroup'] + (('scopes', (self.k('COVERINSTANCE'),)),)

    def get(self, name, tag):
        return [e for e in self.ev.get(name, []) if lit(e.args[0]) == tag]

    # the formulas, as terms over the database
    def bins(self, x, n):
        return call(x, 'coverItems', enumc(self.prog, COVER, n))

    def item_cov(self, x):
        d = self.bins(x, 'CVGBIN')
        L = Loop(d)
        cd = call(mk('elem', L), 'getCoverData')
        hits = mk('sum', (L,), (mk('op', '>=', mk('attr', cd, 'data'), mk('attr', cd, 'at_least')),), const(1))
        return ite(mk('nonempty', d), mk('op', '/', mk('op', '*', const(100), hits), mk('op', 'len', d)), ZERO)

    def mean(self, parts):
        """parts: [(loops, weight, cov)]"""
        w = [mk('sum', tuple(l), (), wt) for l, wt, cv in parts]
        s = [mk('sum', tuple(l), (), mk('op', '*', wt, cv)) for l, wt, cv in parts]
        W = w[0] if len(w) == 1 else mk('op', '+', *w)
        S = s[0] if len(s) == 1 else mk('op', '+', *s)
        return ite(mk('op', '>', W, ZERO), mk('op', '/', S, W), ZERO)

    def cg_cov(self, x):
        parts = []
        for k in ('COVERPOINT', 'CROSS'):
            L = Loop(call(x, 'scopes', enumc(self.prog, SCOPE, k)))
            el = mk('elem', L)
            parts.append(([L], call(el, 'getWeight'), self.item_cov(el)))
        return self.mean(parts)

    def total(self):
        L1 = Loop(call(DB, 'scopes', enumc(self.prog, SCOPE, 'INSTANCE')))
        L2 = Loop(call(mk('elem', L1), 'scopes', enumc(self.prog, SCOPE, 'COVERGROUP')))
        el = mk('elem', L2)
        return self.mean([([L1, L2], call(el, 'getWeight'), self.cg_cov(el))])


def structure(ctx, prog, fields):
    """Walk the observations; yields (kind, construct, event, element)."""
    r = R(prog)
    m = Mirror(ctx, r.I, 'report', DB)
    out = []
    if 'REPORT' not in r.ev:
        ctx.und('analysis', 'report', 'the builder does not return on any analysed path')
        return r, m, out
    for tag in ('covergroup', 'instance'):
        p = r.paths[tag]
        for e, el in m.match('once', tag, r.get('CG', tag), p, FILE):
            out.append(('cg', tag, e, el))
        for nm, o, kind in (('coverpoint', 'CP', 'COVERPOINT'), ('cross', 'CR', 'CROSS')):
            p2 = p + (('scopes', (r.k(kind),)),)
            c2 = '%s/%s' % (tag, nm)
            for e, el in m.match('once', c2, r.get(o, tag), p2, FILE):
                out.append((nm, c2, e, el))
            for lst, bk in (('bins', 'CVGBIN'), ('ignore_bins', 'IGNOREBIN'), ('illegal_bins', 'ILLEGALBIN')):
                if nm == 'cross' and lst != 'bins':
                    continue
                c3 = '%s/%s' % (c2, lst)
                for e, el in m.match('once', c3, r.get('BIN', c3), p2 + (('coverItems', (r.c(bk),)),), FILE):
                    out.append(('bin', c3, e, el))
    return r, m, out


def c05(ctx, prog):
    ctx.rule('once', 'each reported list has exactly one entry per database item of its kind under its own parent, in database order, unconditionally')
    ctx.rule('own-value', 'name, weight, goal and count of an entry are those of its own database item')
    ctx.rule('hit-flag', 'a bin is flagged hit exactly when count >= goal')
    r, m, obs = structure(ctx, prog, True)
    for kind, c, e, el in obs:
        if kind == 'bin':
            cd = call(el, 'getCoverData')
            m.field('own-value', c + '.name', e.args[1], call(el, 'getName'), FILE)
            m.field('own-value', c + '.goal', e.args[2], mk('attr', cd, 'at_least'), FILE)
            m.field('own-value', c + '.count', e.args[3], mk('attr', cd, 'data'), FILE)
            want = mk('op', '>=', mk('attr', cd, 'data'), mk('attr', cd, 'at_least'))
            if arith.same_cond(e.args[4], want):
                ctx.ok('hit-flag', c, '', 'src/ucis/report/coverage_report.py')
            else:
                arith.compare(ctx, 'hit-flag', c, e.args[4], want, 'hit', 'src/ucis/report/coverage_report.py')
        else:
            m.field('own-value', c + '.name', e.args[1], call(el, 'getScopeName'), FILE)
            m.field('own-value', c + '.weight', e.args[2], call(el, 'getWeight'), FILE)
    reordered(ctx, r.I, 'report')
    ctx.absorb(r.I)


def reordered(ctx, I, what):
    bad = False
    for e in I.log:
        if (e.kind == 'reorder' or e.kind == 'cont' and e.name in ('sort', 'reverse')) and order_used(I, e) or (e.kind == 'cont' and (e.name == 'insert' and e.obj is not None and len(e.loops) > len(e.obj.loops) and e.key is not None and e.key.op == 'const')):
            bad = True
            ctx.viol('once', what + ' order', 'items are reordered (%s)' % e.name, where(e))
    if not bad:
        ctx.ok('once', what + ' order')


def c04(ctx, prog):
    ctx.rule('item-coverage', 'coverage of a coverpoint or cross = 100 * #(regular bins with count >= at_least) / #(regular bins), 0 if none')
    ctx.rule('group-coverage', 'coverage of a covergroup = weight-weighted mean over its own coverpoints and crosses, 0 if the total weight is 0')
    ctx.rule('overall-coverage', 'overall coverage = weight-weighted mean over all type covergroups of all instances, 0 if none')
    r = R(prog)
    if 'REPORT' not in r.ev:
        ctx.und('analysis', 'report', 'the builder does not return on any analysed path')
        return
    for e in r.ev['REPORT']:
        arith.compare(ctx, 'overall-coverage', 'report', e.args[0], r.total(), 'coverage', FILE)
    for tag in ('covergroup', 'instance'):
        p = r.paths[tag]
        for name, o, suffix, f in ((tag, 'CG', (), r.cg_cov), (tag + '/coverpoint', 'CP', (('scopes', (r.k('COVERPOINT'),)),), r.item_cov),
                                   (tag + '/cross', 'CR', (('scopes', (r.k('CROSS'),)),), r.item_cov)):
            evs = r.get(o, tag)
            if not evs:
                ctx.und('item-coverage', name, 'never reported')     # C05 decides this
            for e in evs:
                el = own(e, p + suffix)
                if el is None:
                    ctx.und('item-coverage', name, 'reported item not resolved')
                    continue
                arith.compare(ctx, 'group-coverage' if o == 'CG' else 'item-coverage', name, e.args[3], f(el), 'coverage', FILE)
    ctx.absorb(r.I)


def own(e, path):
    for l in reversed(e.loops):
        ch = chain(mk('elem', l))
        if ch is not None and path_of(ch) == path:
            return mk('elem', l)
    return None


def pure(ctx, I, root, what):
    n, bad = 0, False
    for e in I.log:
        if e.kind == 'call' and e.recv is not None and root_of(e.recv) is root:
            n += 1
            if not e.pure:
                bad = True
                ctx.viol('source-unmodified', '%s: %s' % (what, e.name), 'calls %s on the database object %s' % (e.name, show(e.recv)[:80]), where(e))
        elif e.kind == 'setattr' and e.recv is not None and root_of(e.recv) is root:
            bad = True
            ctx.viol('source-unmodified', '%s: .%s' % (what, e.name), 'assigns field %s of the database object %s' % (e.name, show(e.recv)[:80]), where(e))
        elif e.kind == 'cont' and e.recv is not None and e.recv.op != 'ref' and root_of(e.recv) is root:
            bad = True
            ctx.viol('source-unmodified', '%s: %s' % (what, e.name), 'changes the container %s of the database' % show(e.recv)[:80], where(e))
    if not bad:
        ctx.ok('source-unmodified', what, '%d operations on database objects, all reads' % n)


def c03(ctx, prog):
    r = R(prog)
    pure(ctx, r.I, DB, 'report')
    ctx.absorb(r.I)
