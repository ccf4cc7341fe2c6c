"""C01/C02/C03: value flow of DbMerger.merge.

The whole merge is analysed once from its public entry point with an arbitrary
destination and an arbitrary list of sources.  Every create call on the merged tree
is matched against the source tree it must mirror.
"""
from .base import *

MERGER = 'ucis.merge.db_merger.DbMerger'
SCOPE = 'ucis.scope_type_t.ScopeTypeT'
COVER = 'ucis.cover_type_t.CoverTypeT'
KINDS = ('CVGBIN', 'IGNOREBIN', 'ILLEGALBIN')
CHILDREN = {
    'createInstance': [('createCovergroup', 'COVERGROUP')],
    'createCovergroup': [('createCoverpoint', 'COVERPOINT'), ('createCross', 'CROSS'), ('createCoverInstance', 'COVERINSTANCE')],
    'createCoverInstance': [('createCoverpoint', 'COVERPOINT'), ('createCross', 'CROSS')],
}
WEIGHTED = ('createCovergroup', 'createCoverpoint', 'createCross', 'createCoverInstance', 'createInstance')
_cache = {}


def analyse(prog):
    if prog not in _cache:
        I = Interp(prog)
        I.distinct = True
        st = State()
        m = I.new(MERGER, st=st)
        dst, srcs = mk('sym', 'dst'), mk('sym', 'srcs')
        I.invoke(m, 'merge', [dst, srcs], st=st)
        _cache[prog] = (I, dst, srcs)
    return _cache[prog]


def news(t):
    return [x for x in leaves(t) if x.op == 'new']


class Node(object):
    def __init__(self, ev, label, key, keys, path):
        self.ev, self.label, self.key, self.keys, self.path = ev, label, key, keys, path


class Merge(object):
    def __init__(self, ctx, prog, want):
        self.ctx, self.prog, self.want = ctx, prog, want
        self.I, self.dst, self.srcs = analyse(prog)
        self.creates = [e for e in self.I.log if e.kind == 'call' and not e.pure and e.name.startswith('create')]
        self.used = set()

    # verdict helpers -----------------------------------------------------
    def fail(self, prop, rule, construct, msg, e, terms=()):
        if self.want != prop:
            return
        u = [x for t in terms for x in unknown(t)]
        if u:
            self.ctx.und(rule, construct, '%s (not resolved: %s)' % (msg, show(u[0])[:120]), where(e))
        else:
            self.ctx.viol(rule, construct, msg, where(e))

    def good(self, prop, rule, construct, e, msg=''):
        if self.want == prop:
            self.ctx.ok(rule, construct, msg, where(e))

    # ----------------------------------------------------------------------
    def on(self, e, parent):
        """Is e performed on the object parent created (or on the destination database)?"""
        if parent is None:
            return any(x is self.dst for x in leaves(e.recv))
        r = parent.ev.result
        return any(x.a[0] == r.a[0] and x.a[1] == r.a[1] for x in news(e.recv))

    def run(self):
        sc = lambda n: cval(enumc(self.prog, SCOPE, n))
        root_path = (('', ()),)
        lost = [e for e in self.creates if not any(x is self.dst for x in leaves(e.recv)) and not news(e.recv)]
        for e in lost:
            r = root_of(e.recv)
            if r is self.srcs:
                continue      # C03 reports it
            self.fail('C02', 'placement', e.name, 'created on %s, which is no object of the merged tree' % show(e.recv)[:80], e, [e.recv])
        self.level(None, 'merged database', [], root_path, [('createInstance', 'INSTANCE')])

    def level(self, parent, label, keys, path, kids):
        for meth, kind in kids:
            k = cval(enumc(self.prog, SCOPE, kind))
            p2 = path + (('scopes', (k,)),)
            evs = [e for e in self.creates if e.name == meth and self.on(e, parent)]
            lab = '%s/%s' % (label, kind) if parent is not None else kind
            if not evs:
                loose = [e for e in self.creates if e.name == meth and (unknown(e.recv))]
                if loose:
                    self.ctx.und('union', lab, 'receiver of %s is not resolved' % meth, where(loose[0]))
                else:
                    for p in ('C01', 'C02'):
                        self.fail(p, 'union', lab, 'no %s is ever performed on the merged %s' % (meth, label), parent.ev if parent else None)
                continue
            extras = []
            nodes = []
            for e in evs:
                self.used.add(e)
                r = self.create(e, parent, lab, keys, p2)
                if r is None:
                    extras.append(None)
                    continue
                key, extra = r
                extras.append(and_(extra))
                nodes.append(Node(e, lab, key, keys + [key], p2))
            self.alternatives(lab, evs, extras)
            for n in nodes:
                e = n.ev
                self.fields(e, meth, n, parent)
                if meth in CHILDREN:
                    self.level(n, lab, n.keys, p2, CHILDREN[meth])
                if meth in ('createCoverpoint', 'createCross'):
                    self.bins(n, lab, p2)
                if meth == 'createCross':
                    self.link(n, parent, lab)

    def alternatives(self, lab, evs, extras):
        """The create calls of one construct must together cover every case, exactly once."""
        if any(x is None for x in extras):
            return
        if len(extras) == 1 and extras[0] is TRUE:
            for p in ('C01', 'C02'):
                self.good(p, 'unconditional', lab, evs[0])
            return
        if or_(extras) is TRUE and len(extras) > 1 and TRUE not in extras:
            for p in ('C01', 'C02'):
                self.good(p, 'unconditional', lab, evs[0], 'alternatives cover every case')
            return
        if TRUE in extras and len(extras) > 1:
            for p in ('C01', 'C02'):
                self.fail(p, 'unconditional', lab, 'created more than once: %s' % ', '.join(where(e) for e in evs), evs[0], extras)
            return
        for p in ('C01', 'C02'):
            self.fail(p, 'unconditional', lab, 'created only if %s' % show(or_(extras))[:300], evs[0], extras)

    def create(self, e, parent, lab, keys, path):
        """Check the loops and guards of one create; returns (own key, extra guards) or None."""
        pl = parent.ev.loops if parent else ()
        pg = {c for c, t in parent.ev.guards} if parent else set()
        rl = [l for l in e.loops if l not in pl]
        rg = [(c, t) for c, t in e.guards if c not in pg]
        key, guard = None, None
        wrong = None
        for c, t in rg:
            b = c.a[0] if c.op == 'not' else c
            if (c.op == 'not' and b.op == 'in') or c.op == 'uniq':
                k = b.a[0]
                el = name_el(k)
                ch = chain(el) if el is not None else None
                if ch is not None and path_of(ch) == path:
                    key, guard = k, c
                    break
                wrong = (k, ch)
        if key is None:
            nm = e.args[0] if e.args else NONE
            el = name_el(nm)
            ch = chain(el) if el is not None else None
            if ch is not None and path_of(ch) == path and not wrong:
                for p in ('C01', 'C02'):
                    self.fail(p, 'one-per-name', lab, 'created once per occurrence in a source, not once per name', e, [nm])
            elif ch is not None or (wrong and wrong[1] is not None):
                q = ch or wrong[1]
                for p in ('C01', 'C02'):
                    self.fail(p, 'union', lab, 'driven by source items %s instead of %s' % (pretty_path(path_of(q)), pretty_path(path)), e, [nm])
            else:
                for p in ('C01', 'C02'):
                    self.fail(p, 'union', lab, 'not driven by all source items %s of every source: the name is %s over %s' % (
                        pretty_path(path), show(nm)[:100], '; '.join(show(d)[:80] for d in all_domains(nm)[:3])), e, [nm] + all_domains(nm))
            return None
        ch = chain(name_el(key))
        if ch[0] is not self.srcs:
            for p in ('C01', 'C02'):
                self.fail(p, 'union', lab, 'names come from %s, not from the sources' % show(ch[0]), e)
            return None
        loops = [L for L, m, a in ch[1]]
        okc = True
        for L in loops:
            if L not in e.loops:
                for p in ('C01', 'C02'):
                    self.fail(p, 'union', lab, 'not performed for each source item', e)
                return None
        for j, L in enumerate(loops):
            if parent is not None and L in pl:
                okc = False
                for p in ('C01', 'C02'):
                    self.fail(p, 'every-source', lab, 'only the first source that has the parent contributes (the other members of its group are not visited)', e)
                break
        trunc = [c for l in rl for c in truncs(l)]
        if trunc:
            okc = False
            for p in ('C01', 'C02'):
                self.fail(p, 'every-source', lab, 'the iteration over the sources stops early when %s' % show(or_(trunc))[:200], e, trunc)
        used = {guard}
        for j, (L, m, a) in enumerate(ch[1][1:-1]):
            mine = [k for k in (mk('call', mk('elem', L), 'getScopeName', (), ()), mk('call', mk('elem', L), 'getName', (), ()))]
            want = keys[j]
            if want in mine:
                continue
            g = [eq(x, want) for x in mine]
            hit = [x for x in g if x in {c for c, t in rg}]
            if hit:
                used.update(hit)
            else:
                okc = False
                for p in ('C01', 'C02'):
                    self.fail(p, 'same-parent', lab, 'items of differently named parents (%s) are merged together' % pretty_path(path[:j + 2]), e)
        # the name table must live as long as the parent it names the children of
        ref = (guard.a[0] if guard.op == 'not' else guard).a[1]
        if ref.op == 'ref':
            ob = ref.a[0]
            if set(ob.loops) != set(pl) or ob.shared:
                okc = False
                for p in ('C01', 'C02'):
                    self.fail(p, 'one-per-name', lab, 'the table of names already seen is %s' % (
                        'shared with other parents, so an equal name under another parent is dropped' if ob.shared or set(ob.loops) < set(pl)
                        else 'renewed before all sources are seen, so a name can be created twice'), e)
            elif any(self.key_of(x) is not None and not self.same_shape(self.key_of(x), key) for x in ob.events if x.name in ('store', 'add', 'append', 'aug')):
                okc = False
                for p in ('C01', 'C02'):
                    self.fail(p, 'one-per-name', lab, 'the table of names already seen also holds names of other items', e)
            elif guard.op == 'not':
                b = guard.a[0]
                st = [x for x in ob.events if x.name in ('store', 'add', 'append', 'aug') and
                      self.key_of(x).op == b.a[0].op and self.same_shape(self.key_of(x), b.a[0])]
                if not st:
                    okc = False
                    for p in ('C01', 'C02'):
                        self.fail(p, 'one-per-name', lab, 'the name is never entered in the table it is looked up in', e,
                                  [self.key_of(x) for x in ob.events if self.key_of(x) is not None])
        rz = raising(self.I)
        ext = [c for c, t in rg if c not in used and t != 'raise' and c not in rz and not self.first_only(c, ref)]
        other = [l for l in rl if l not in loops and not self.replay(l, rl, loops)]
        if other:
            okc = False
            for p in ('C01', 'C02'):
                self.fail(p, 'one-per-name', lab, 'repeated for each element of %s' % show(other[0].domain)[:120], e, [l.domain for l in other])
        if okc:
            for p in ('C01', 'C02'):
                self.good(p, 'union', lab, e, 'one per name of %s' % pretty_path(path))
        return key, ext

    def key_of(self, x):
        return x.key if x.name in ('store', 'aug') else x.value

    def same_shape(self, a, b):
        el, el2 = name_el(a), name_el(b)
        if a is b:
            return True
        if el is None or el2 is None or el.op != 'elem' or el2.op != 'elem':
            return False
        return el.a[0].root() is el2.a[0].root()

    def first_only(self, c, ref):
        b = c.a[0] if c.op == 'not' else c
        return b.op in ('in', 'uniq') and b.a[1] is ref

    def replay(self, l, rl, loops):
        return False

    def member(self, x, keys, path):
        """x: source object used for a field.  'ok' | message"""
        el = x
        if el.op == 'elem':
            ch = chain(el)
            if ch is None or path_of(ch) != path:
                return 'taken from another object'
            kel = name_el(keys[-1])
            if el is kel:
                return 'ok'
            return 'taken from some other member of the group'
        if el.op in ('first', 'last'):
            loops, conds, c, v = el.a
            ch = chain(v)
            if ch is None or path_of(ch) != path:
                return 'taken from another object'
            if el.op == 'last':
                return 'taken from the last source instead of the first'
            cs = conj(list(conds) + [c])
            for j, (L, m, a) in enumerate(ch[1][1:]):
                k = mk('call', mk('elem', L), 'getScopeName', (), ())
                k2 = mk('call', mk('elem', L), 'getName', (), ())
                g = [y for y in (eq(k, keys[j]), eq(k2, keys[j])) if y is TRUE or y in cs]
                if not g:
                    return 'taken from an object that need not have the same name path'
                cs = [y for y in cs if y not in g]
            cs = [y for y in cs if y is not TRUE]
            if cs:
                return 'taken from the first source for which %s' % show(and_(cs))[:120]
            return 'ok'
        return 'unresolved'

    def field(self, prop, rule, lab, what, t, getters, keys, path, e):
        """t must be getter(first member)"""
        x = None
        g = t
        for gt in reversed(getters):
            if gt.startswith('.'):
                if g.op == 'attr' and g.a[1] == gt[1:]:
                    g = g.a[0]
                else:
                    g = None
            else:
                names = gt.split('|')
                if g is not None and g.op == 'call' and g.a[1] in names and not g.a[2]:
                    g = g.a[0]
                else:
                    g = None
            if g is None:
                break
        if g is None:
            # field of a gated/first value
            if t.op in ('first', 'last') :
                inner = t.a[3]
                return self.field(prop, rule, lab, what, self.push(t), getters, keys, path, e) if self.push(t) is not t else self.fail(
                    prop, rule, '%s.%s' % (lab, what), '%s is %s' % (what, show(t)[:160]), e, [t])
            self.fail(prop, rule, '%s.%s' % (lab, what), '%s is %s, not the source value' % (what, show(t)[:160]), e, [t])
            return
        r = self.member(g, keys, path)
        if r == 'ok':
            self.good(prop, rule, '%s.%s' % (lab, what), e)
        elif r == 'unresolved':
            self.fail(prop, rule, '%s.%s' % (lab, what), '%s comes from %s' % (what, show(g)[:160]), e, [g])
        else:
            self.fail(prop, rule, '%s.%s' % (lab, what), '%s is %s' % (what, r), e, [g])

    def push(self, t):
        """first{..; f(x)} -> f(first{..; x}) for getter chains"""
        v = t.a[3]
        if v.op == 'call' and v.a[0] is not None:
            return mk('call', self.push(mk(t.op, t.a[0], t.a[1], t.a[2], v.a[0])), v.a[1], v.a[2], v.a[3])
        if v.op == 'attr':
            return mk('attr', self.push(mk(t.op, t.a[0], t.a[1], t.a[2], v.a[0])), v.a[1])
        return t

    def is_name(self, t, key, keys, path):
        if t is key:
            return True
        el = name_el(t)
        return el is not None and self.member(el, keys, path) == 'ok'

    def fields(self, e, meth, n, parent):
        a = list(e.args)
        lab = n.label
        if not a or not self.is_name(a[0], n.key, n.keys, n.path):
            for p in ('C01', 'C02'):
                self.fail(p, 'name', lab, 'named %s instead of the source name' % (show(a[0])[:120] if a else '?'), e, a[:1])
        else:
            for p in ('C01', 'C02'):
                self.good(p, 'name', lab, e)
        if len(a) > 1:
            self.field('C02', 'source-field', lab, 'location', a[1], ['getSourceInfo'], n.keys, n.path, e)
        if meth in WEIGHTED and len(a) > 2:
            self.field('C02', 'source-field', lab, 'weight', a[2], ['getWeight'], n.keys, n.path, e)
        if meth == 'createInstance':
            self.instance(e, n)

    def instance(self, e, n):
        a = e.args
        lab = n.label
        if len(a) < 6:
            self.fail('C02', 'design-unit', lab, 'created without its design unit', e)
            return
        inst = enumc(self.prog, SCOPE, 'INSTANCE')
        self.ctx_decide('C02', 'design-unit', lab + '.type', same_val(a[4], inst), 'created as %s' % show(a[4]), e, [a[4]])
        du = a[5]
        evs = [c for c in self.creates if c.result is du]
        if not evs:
            self.fail('C02', 'design-unit', lab, 'design unit is %s' % show(du)[:100], e, [du])
            return
        d = evs[0]
        if not any(x is self.dst for x in leaves(d.recv)) or d.name != 'createScope':
            self.fail('C02', 'design-unit', lab, 'design unit not created in the merged database', d)
            return
        self.field('C02', 'design-unit', lab, 'du name', d.args[0], ['getInstanceDu', 'getScopeName'], n.keys, n.path, d)
        if len(d.args) > 2:
            self.field('C02', 'design-unit', lab, 'du location', d.args[1], ['getInstanceDu', 'getSourceInfo'], n.keys, n.path, d)
            self.field('C02', 'design-unit', lab, 'du weight', d.args[2], ['getInstanceDu', 'getWeight'], n.keys, n.path, d)
        if len(d.args) > 4:
            t = d.args[4]
            masks = [cval(enumc(self.prog, SCOPE, m)) for m in ('DU_MODULE', 'DU_ARCH', 'DU_PACKAGE', 'DU_PROGRAM', 'DU_INTERFACE')]
            ok = (t.op == 'const' and cval(t) in masks) or (t.op == 'call' and t.a[1] == 'getScopeType')
            self.ctx_decide('C02', 'design-unit', lab + '.du type', ok, 'design unit created as %s' % show(t), d, [t])

    def ctx_decide(self, prop, rule, construct, ok, msg, e, terms=()):
        if ok:
            self.good(prop, rule, construct, e)
        else:
            self.fail(prop, rule, construct, msg, e, terms)

    # bins -------------------------------------------------------------------
    def bins(self, n, lab, path):
        evs = [e for e in self.creates if e.name == 'createBin' and self.on(e, n)]
        kinds = {cval(enumc(self.prog, COVER, k)): k for k in KINDS}
        by = {k: [] for k in kinds.values()}
        for e in evs:
            self.used.add(e)
            t = e.args[5] if len(e.args) > 5 else enumc(self.prog, COVER, 'CVGBIN')
            if t.op == 'const' and cval(t) in kinds:
                by[kinds[cval(t)]].append(e)
            elif t.op == 'const':
                for p in ('C01',):
                    self.fail(p, 'bin-kind', lab, 'bin created with kind %s' % show(t), e)
            else:
                self.ctx.und('bin-kind', lab, 'kind of the created bin is %s' % show(t)[:100], where(e))
                return
        for kv, k in kinds.items():
            lk = '%s/%s' % (lab, k)
            p2 = path + (('coverItems', (kv,)),)
            if not by[k]:
                if any(unknown(e.recv) for e in self.creates if e.name == 'createBin'):
                    self.ctx.und('union', lk, 'receiver of createBin not resolved')
                else:
                    self.fail('C01', 'union', lk, 'no %s bins are ever created in the merged %s' % (k, lab), n.ev)
                continue
            extras = []
            for e in by[k]:
                r = self.create(e, n, lk, n.keys, p2)
                if r is None:
                    extras.append(None)
                    continue
                key, ext = r
                extras.append(and_(ext))
                keys = n.keys + [key]
                a = e.args
                if not self.is_name(a[0], key, keys, p2):
                    self.fail('C01', 'name', lk, 'bin named %s' % show(a[0])[:120], e, a[:1])
                else:
                    self.good('C01', 'name', lk, e)
                if len(a) > 3:
                    self.field('C01', 'at-least', lk, 'at_least', a[2], ['getCoverData', '.at_least'], keys, p2, e)
                    self.count(lk, a[3], keys, p2, e)
                else:
                    self.fail('C01', 'bin-count', lk, 'bin created without a count', e)
            w = self.want
            if w == 'C01':
                self.alternatives(lk, by[k], extras)

    def count(self, lab, t, keys, path, e):
        ts = [t]
        if t.op == 'op' and t.a[0] == '+':
            ts = list(t.a[1:])
        sums = [x for x in ts if x.op == 'sum']
        rest = [x for x in ts if x.op != 'sum']
        if len(sums) != 1 or rest:
            if not sums and t.op in ('first', 'last', 'lastkey', 'lastcell'):
                self.fail('C01', 'bin-count', lab, 'count is the value of a single source, not the sum over the sources', e, [t])
            else:
                self.fail('C01', 'bin-count', lab, 'count is %s, not the sum over the sources' % show(t)[:200], e, [t])
            return
        loops, conds, v = sums[0].a
        cs = conj(conds)
        if not (v.op == 'attr' and v.a[1] == 'data' and call_of(v.a[0], 'getCoverData')):
            self.fail('C01', 'bin-count', lab, 'sums %s instead of the hit counts' % show(v)[:120], e, [v])
            return
        ch = chain(v.a[0].a[0])
        if ch is None:
            self.fail('C01', 'bin-count', lab, 'sums counts of %s' % show(v.a[0].a[0])[:120], e, [v, mk('tuple', *[l.domain for l in loops])])
            return
        if ch[0] is not self.srcs or path_of(ch) != path:
            self.fail('C01', 'bin-count', lab, 'sums counts over %s instead of %s' % (pretty_path(path_of(ch)), pretty_path(path)), e)
            return
        cl = [L for L, m, a in ch[1]]
        for L in cl:
            if L not in loops:
                self.fail('C01', 'bin-count', lab, 'the sum does not range over all sources', e)
                return
        ext = [l for l in loops if l not in cl]
        if ext:
            self.fail('C01', 'bin-count', lab, 'each count is added once per element of %s' % show(ext[0].domain)[:100], e, [l.domain for l in ext])
            return
        tr = [c for l in cl for c in truncs(l)]
        if tr:
            self.fail('C01', 'bin-count', lab, 'the accumulation stops early when %s' % show(or_(tr))[:160], e, tr)
            return
        for j, (L, m, a) in enumerate(ch[1][1:]):
            c1 = [eq(mk('call', mk('elem', L), nm, (), ()), keys[j]) for nm in ('getScopeName', 'getName')]
            hit = [c for c in cs if c in c1]
            if not hit:
                self.fail('C01', 'bin-count', lab, 'counts of differently named items (%s) are added together' % pretty_path(path[:j + 2]), e, cs)
                return
            cs = [c for c in cs if c not in hit]
        if cs:
            self.fail('C01', 'bin-count', lab, 'a count is added only if %s' % show(and_(cs))[:200], e, cs)
            return
        self.good('C01', 'bin-count', lab, e, 'sum over %s of .data' % pretty_path(path))

    # crosses ------------------------------------------------------------------
    def link(self, n, parent, lab):
        e = n.ev
        if len(e.args) < 5:
            self.fail('C02', 'cross-link', lab, 'cross created without coverpoints', e)
            return
        t = e.args[4]
        if t.op != 'ref' or t.a[0].kind != 'list':
            self.fail('C02', 'cross-link', lab, 'coverpoint list is %s' % show(t)[:120], e, [t])
            return
        ob = t.a[0]
        cs = self.I.contents(t, State(None, e.guards))
        if cs is None:
            self.ctx.und('cross-link', lab, 'contents of the coverpoint list not resolved', where(e))
            return
        if any(x.name in ('sort', 'reverse', 'insert') for x in ob.events):
            self.fail('C02', 'cross-link', lab, 'the coverpoint list is reordered', e)
            return
        cs = [c for c in cs if not c.fill]
        if not cs:
            self.fail('C02', 'cross-link', lab, 'no coverpoints are linked to the merged cross', e)
            return
        if len(cs) > 1:
            self.fail('C02', 'cross-link', lab, 'several sources of crossed coverpoints', e, [c.value for c in cs])
            return
        c = cs[0]
        v = c.value
        if v.op == 'ite' and v.a[0].op == 'in' and v.a[2] is NONE:
            v = v.a[1]           # m.get(name)
        # dictionary of merged coverpoints looked up by the crossed coverpoint's name
        if v.op != 'lookup' or v.a[0].op != 'ref':
            nw = news(v)
            self.fail('C02', 'cross-link', lab, 'links %s instead of the merged coverpoint of the same name' % show(v)[:160], e, [v])
            return
        dref, key = v.a
        x = name_el(key)
        if x is None or not call_of(x, 'getIthCrossedCoverpoint'):
            self.fail('C02', 'cross-link', lab, 'looks up %s instead of the name of a crossed coverpoint' % show(key)[:120], e, [key])
            return
        i = x.a[2][0]
        r = self.member(x.a[0], n.keys, n.path)
        if r != 'ok':
            self.fail('C02', 'cross-link', lab, 'list of crossed coverpoints is %s' % r, e, [x.a[0]])
            return
        if not (i.op == 'idx' and i.a[0].domain.op == 'range' and i.a[0].domain.a[0] is ZERO and
                call_of(i.a[0].domain.a[1], 'getNumCrossedCoverpoints') and i.a[0].domain.a[1].a[0] is x.a[0]):
            self.fail('C02', 'cross-link', lab, 'does not visit coverpoints 0..n-1 in order (index %s)' % show(i)[:160], e, [i] + [l.domain for l in c.loops])
            return
        if i.a[0].trunc:
            self.fail('C02', 'cross-link', lab, 'stops before all crossed coverpoints are linked', e, i.a[0].trunc)
            return
        pg = {q for q, tag in e.guards}
        rz = raising(self.I)
        extra = [q for q, tag in c.guards if q not in pg and tag != 'raise' and q not in rz and q is not not_(isnone(v))]
        if extra:
            self.fail('C02', 'cross-link', lab, 'a crossed coverpoint is linked only if %s' % show(and_(extra))[:200], e, extra)
            return
        # the table
        dob = dref.a[0]
        if set(dob.loops) != set(parent.ev.loops):
            self.fail('C02', 'cross-link', lab, 'the table of merged coverpoints is not the one of this covergroup', e)
            return
        stores = [s for s in dob.events if s.name == 'store']
        okc = bool(stores)
        for s in stores:
            cp = [c for c in self.creates if c.result is s.value and c.name == 'createCoverpoint']
            if not cp or not self.on(cp[0], parent):
                okc = False
                self.fail('C02', 'cross-link', lab, 'the coverpoint table holds %s' % show(s.value)[:100], s, [s.value])
                continue
            xg = [q for q in s.guards if q not in cp[0].guards and q[1] != 'raise' and q[0] not in rz]
            if xg:
                okc = False
                self.fail('C02', 'cross-link', lab, 'a merged coverpoint is entered in the table only if %s' % show(and_([q for q, t in xg]))[:160], s)
            k2 = cp[0].args[0]
            nk = name_el(s.key)
            same = s.key is k2 or (nk is not None and name_el(k2) is not None and (chain(nk) is not None and path_of(chain(nk))[-1] == path_of_any(name_el(k2))))
            if not same:
                okc = False
                self.fail('C02', 'cross-link', lab, 'a merged coverpoint is filed under %s' % show(s.key)[:100], s, [s.key])
        if okc:
            self.good('C02', 'cross-link', lab, e, 'i-th coverpoint by name, in order')

    # C03 ------------------------------------------------------------------------
    def purity(self):
        ctx = self.ctx
        n = 0
        bad = False
        for e in self.I.log:
            if e.kind == 'call' and e.recv is not None and root_of(e.recv) is self.srcs:
                n += 1
                if not e.pure:
                    bad = True
                    ctx.viol('source-unmodified', 'merge: %s' % e.name, 'calls %s on the source object %s' % (e.name, show(e.recv)[:80]), where(e))
            elif e.kind == 'setattr' and root_of(e.recv) is self.srcs:
                bad = True
                ctx.viol('source-unmodified', 'merge: .%s' % e.name, 'assigns field %s of the source object %s' % (e.name, show(e.recv)[:80]), where(e))
        if not bad:
            ctx.ok('source-unmodified', 'merge', '%d operations on source objects, all reads' % n)
        for e in self.creates:
            for i, a in enumerate(e.args):
                sh = self.shared(a)
                if sh:
                    ctx.viol('no-sharing', 'merge: %s argument %d' % (e.name, i), 'source object %s is put into the merged tree' % show(sh)[:100], where(e))
                else:
                    ctx.ok('no-sharing', 'merge: %s argument %d' % (e.name, i), '', where(e))
        for e in self.I.log:
            if e.kind == 'setattr' and e.recv.op in ('new', 'sym') and root_of(e.recv) is not self.srcs:
                sh = self.shared(e.value)
                if sh:
                    ctx.viol('no-sharing', 'merge: .%s' % e.name, 'source object %s is stored in the merged tree' % show(sh)[:100], where(e))
            if e.kind == 'call' and not e.pure and not e.name.startswith('create') and e.recv is not None and (news(e.recv) or e.recv is self.dst):
                for a in e.args:
                    sh = self.shared(a)
                    if sh:
                        ctx.viol('no-sharing', 'merge: %s' % e.name, 'source object %s is passed to the merged tree' % show(sh)[:100], where(e))

    VALUES = ('getScopeName', 'getName', 'getWeight', 'getSourceInfo', 'getGoal', 'getComment', 'getFlags', 'getSourceType', 'getScopeType',
              'getNumCrossedCoverpoints', 'getAtLeast', 'getStrobe', 'getMergeInstances', 'getPerInstance', 'getGetInstCoverage',
              'getIntProperty', 'getStringProperty', 'getRealProperty')

    def shared(self, t, d=0):
        """A scope, bin or bin-data object of a source inside the term."""
        if t.op == 'ite':
            return self.shared(t.a[1]) or self.shared(t.a[2])
        if t.op in ('first', 'last'):
            return self.shared(t.a[3])
        if t.op == 'elem' and root_of(t) is self.srcs:
            return t
        if t.op == 'call' and root_of(t) is self.srcs and t.a[1] not in self.VALUES:
            return t
        if t.op == 'ref' and t.a[0].kind == 'list' and d < 3:
            for ev in t.a[0].events:
                if ev.value is not None and ev.name in ('append', 'storeidx', 'insert'):
                    r = self.shared(ev.value, d + 1)
                    if r:
                        return r
        return None


def path_of_any(el):
    if el.op in ('first', 'last'):
        el = el.a[3]
    ch = chain(el)
    return path_of(ch)[-1] if ch else None


def rules(ctx):
    ctx.rule('union', 'each create call on the merged tree is driven by the union over all sources of the same kind of source item')
    ctx.rule('one-per-name', 'each create call is performed once per distinct name, with a name table of its own per parent')
    ctx.rule('every-source', 'the iteration feeding a create call visits every source of the group and never stops early')
    ctx.rule('same-parent', 'only items of parents with the same name path are merged')
    ctx.rule('unconditional', 'no data-dependent condition other than first-occurrence guards a create call; alternatives cover every case')
    ctx.rule('name', 'the created object has the source name')


def c01(ctx, prog):
    rules(ctx)
    ctx.rule('bin-count', 'count argument = sum over all sources, same name path and kind, of the bin data count')
    ctx.rule('at-least', 'at_least argument = at_least of the first source that has the bin')
    m = Merge(ctx, prog, 'C01')
    m.run()
    ctx.absorb(m.I)


def c02(ctx, prog):
    rules(ctx)
    ctx.rule('source-field', 'weight and location come from the first source that has the object')
    ctx.rule('design-unit', 'instances refer to a merged design unit with the name, weight and location of the source design unit')
    ctx.rule('cross-link', 'crosses link, in order, the merged coverpoints of their own parent by name')
    ctx.rule('order', 'nothing is sorted, reversed or taken from an unordered container')
    m = Merge(ctx, prog, 'C02')
    m.run()
    bad = False
    for e in m.I.log:
        if (e.kind == 'reorder' or (e.kind == 'cont' and e.name in ('sort', 'reverse'))) and order_used(m.I, e):
            bad = True
            ctx.viol('order', 'merge', 'the source order is changed (%s)' % e.name, where(e))
    for e in m.creates:
        for c, t in e.guards:
            if c.op == 'uniq' and c.a[1].op == 'ref' and c.a[1].a[0].kind == 'set':
                bad = True
                ctx.viol('order', 'merge: ' + e.name, 'driven by the iteration of a set', where(e))
    if not bad:
        ctx.ok('order', 'merge')
    ctx.absorb(m.I)


def c03(ctx, prog):
    ctx.rule('source-unmodified', 'no operation other than a read is performed on an object reachable from a source')
    ctx.rule('no-sharing', 'no scope, bin or bin-data object of a source is stored in the result')
    m = Merge(ctx, prog, 'C03')
    m.purity()
    ctx.absorb(m.I)
