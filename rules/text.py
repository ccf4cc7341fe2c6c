"""C06: text reports.  The renderers run abstractly on an opaque report object and an opaque output
stream; what they write is read back as lines (constant text and typed holes) and each line is
matched against the report item it shows."""
from .base import *
from .mirror import *

RPT, OUT, OPT, DBS = mk('sym', 'report'), mk('sym', 'out'), mk('sym', 'opt'), mk('sym', 'db')
BUILD = 'ucis.report.coverage_report_builder.CoverageReportBuilder.build'

TARGETS = {
    'TextCoverageReportFormatter': ('ucis.report.text_coverage_report_formatter', 'src/ucis/report/text_coverage_report_formatter.py', '''
from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
def observe(obs, rpt, db, out, opt):
    f = TextCoverageReportFormatter(rpt, out)
    f.details = opt.details
    f.order_bins_by_hit = opt.order
    f.report()
'''),
    'FormatRptText': ('ucis.report.format_rpt_text', 'src/ucis/report/format_rpt_text.py', '''
from ucis.report.format_rpt_text import FormatRptText
def observe(obs, rpt, db, out, opt):
    f = FormatRptText()
    f.details = opt.details
    f.order_bins_by_hit = opt.order
    f.report(db, out, opt.args)
'''),
}
DETAILS = mk('truth', mk('attr', OPT, 'details'))
ORDER = mk('truth', mk('attr', OPT, 'order'))


def build_result(prog, I):
    """The opaque report object a renderer gets from the builder."""
    for e in I.log:
        if e.kind == 'call' and e.name == BUILD and e.ret is not None:
            return e
    return None


class Line(object):
    """One written line: parts are strings and holes (term, format)."""

    def __init__(self, ev, parts, loops=None, guards=None):
        self.e, self.parts = ev, parts
        self.loops, self.guards = (ev.loops, ev.guards) if loops is None else (loops, guards)
        self.site, self.stack = ev.site, ev.stack
        self.kind = 'line'

    def holes(self):
        return [p for p in self.parts if not isinstance(p, str)]

    def indent(self):
        """Number of leading blanks, or the term in front of the text."""
        s = ''
        for p in self.parts:
            if isinstance(p, str):
                s += p
                if p.strip(' \t'):
                    break
            elif p[0].op in ('mu', 'catfold', 'fold', 'top', 'sum'):
                return p[0]
            else:
                break
        return len(s) - len(s.lstrip(' \t'))

    def text(self):
        return ''.join(p if isinstance(p, str) else '{%s}' % show(p[0])[:40] for p in self.parts)


def flat(t):
    if t.op == 'cat':
        return [x for p in t.a for x in flat(p)]
    if t.op == 'const':
        v = cval(t)
        return [v if isinstance(v, str) else str(v)]
    if t.op == 'str':
        if t.a[0].op == 'const' and isinstance(cval(t.a[0]), str) and (len(t.a) < 2 or t.a[1] in ('s', '', None) or (isinstance(t.a[1], T) and cval(t.a[1]) in ('s', ''))):
            return [cval(t.a[0])]
        f = t.a[1] if len(t.a) > 1 else ''
        if t.a[0].op in ('cat', 'str') and (not f or f == 's'):
            return flat(t.a[0])
        if isinstance(f, T):
            f = cval(f) if f.op == 'const' else None
        return [(t.a[0], f if f is not None else '?')]
    if t.op == 'op' and t.a[0] == '+':
        return [x for p in t.a[1:] for x in flat(p)]
    return [(t, '')]


def joined(t):
    """(separator, list) of a write of a joined list of lines."""
    if t.op == 'strjoin' and t.a[0].op == 'const' and t.a[1].op == 'ref':
        return cval(t.a[0]), t.a[1]
    if t.op == 'cat' and len(t.a) == 2 and t.a[0].op in ('strjoin', 'str') and t.a[1].op == 'const' and cval(t.a[1]) == '\n':
        x = t.a[0] if t.a[0].op == 'strjoin' else t.a[0].a[0]
        return joined(x) if x.op == 'strjoin' else None
    return None


def written(I, st, out):
    """Lines written to the stream, in program order."""
    lines, cur, curkey = [], [], None
    odd = []
    for e in I.log:
        if e.kind != 'call':
            continue
        if e.recv is out and e.name == 'write' and len(e.args) == 1 and joined(e.args[0]) is not None:
            sep, ref = joined(e.args[0])
            comps = I.contents(ref, st)
            if comps is None or cur or not set(sep) <= {'\n'}:
                odd.append(e)
                continue
            for c in comps:
                parts = flat(c.value)
                if any(not isinstance(p, str) and unknown(p[0]) for p in parts) or (not sep and not (parts and isinstance(parts[-1], str) and parts[-1].endswith('\n'))):
                    odd.append(e)
                    continue
                if parts and isinstance(parts[-1], str) and parts[-1].endswith('\n'):
                    parts[-1] = parts[-1][:-1]
                ev = c.event
                lines.append(Line(ev, [p for p in parts if p], tuple(e.loops) + tuple(c.loops), list(e.guards) + list(c.guards)))
            continue
        if e.recv is out and e.name == 'write' and len(e.args) == 1:
            parts = flat(e.args[0])
        elif e.name == 'print' and e.recv is None and dict(e.kw or ()).get('file') is out:
            parts = []
            for i, a in enumerate(e.args):
                if i:
                    parts.append(' ')
                parts += flat(mk('str', a, ''))
            end = dict(e.kw).get('end')
            parts += flat(end) if end is not None else ['\n']
        elif e.recv is out and e.name in ('flush', 'close', 'isatty'):
            continue
        elif e.recv is out or any(a is out for a in e.args or ()):
            odd.append(e)
            continue
        else:
            continue
        k = (tuple(e.loops), tuple(c for c, t in e.guards))
        if cur and k != curkey:
            lines.append(Line(cur[0][0], [p for ev, ps in cur for p in ps]))
            cur = []
        curkey = k
        seg = []
        for p in parts:
            if isinstance(p, str) and '\n' in p:
                bits = p.split('\n')
                for b in bits[:-1]:
                    if b:
                        seg.append(b)
                    lines.append(Line(cur[0][0] if cur else e, [q for ev, ps in cur for q in ps] + seg))
                    cur, seg = [], []
                if bits[-1]:
                    seg.append(bits[-1])
            else:
                seg.append(p)
        if seg:
            cur.append((e, seg))
    if cur:
        lines.append(Line(cur[0][0], [p for ev, ps in cur for p in ps]))
    return lines, odd


def c06(ctx, prog):
    ctx.rule('once', 'one line per covergroup, coverpoint, cross (and per bin with details), in report order, under its parent')
    ctx.rule('own-value', "a line shows the item's own name and its own coverage or count")
    ctx.rule('heading', 'bins stand under the heading of their own category')
    ctx.rule('indent', "a line is indented below its parent's and the indentation does not depend on what was written before")
    for name, (mod, file, src) in TARGETS.items():
        if prog.cls('%s.%s' % (mod, name)) is None:
            raise AnchorError('%s.%s' % (mod, name))
        I, st, ev, r = observe(prog, 'text_' + name.lower(), src, [RPT, DBS, OUT, OPT], opaque=[BUILD])
        root = RPT
        if name == 'FormatRptText':
            roots = {x for e in I.log for l in e.loops for x in subterms(l.domain) if x.op == 'new' and x.a[0] == BUILD}
            if len(roots) != 1:
                ctx.und('analysis', name, 'the report is not obtained from CoverageReportBuilder.build')
                continue
            root = roots.pop()
            b = [e for e in I.log if e.kind == 'call' and e.name == BUILD]
            if not all(len(e.args) == 1 and e.args[0] is DBS for e in b):
                ctx.viol('once', name, 'the report is not built from the given database', file)
        render(ctx, I, st, name, root, file)
        ctx.absorb(I, strict=True)


def render(ctx, I, st, name, root, file):
    lines, odd = written(I, st, OUT)
    for e in odd:
        ctx.und('once', name, 'output through %s is not modelled' % e.name, where(e))
    if odd:
        return
    m = Mirror(ctx, I, 'text report', root)
    for e in I.log:
        if e.kind == 'call' and e.recv is not None and e.name in ('pop', 'remove', 'clear', 'sort', 'reverse', 'insert', 'append', 'extend', '__setitem__', '__delitem__') and \
                e.recv.op == 'attr' and root in subterms(e.recv):
            ctx.viol('once', name + ': ' + show(e.recv)[:40], 'the report itself is changed by %s while it is rendered' % e.name, where(e))
    pos = {id(l): i for i, l in enumerate(lines)}
    used = set()
    inds = {}
    paths = [('covergroup', (('.covergroups', ()),)), ('instance', (('.covergroups', ()), ('.covergroups', ())))]

    def ordered(p):
        """bins may come from a sorted copy of their list (the order of bins is judged separately)"""
        return p[:-1] + ((p[-1][0][len('sorted of '):], p[-1][1]),) if p and p[-1][0] in ('sorted of .bins', 'sorted of .ignore_bins', 'sorted of .illegal_bins') else p

    def at_path(path):
        out = []
        for l in lines:
            if not l.loops or not l.holes():
                continue
            chs = [(x, chain(mk('elem', x))) for x in l.loops]
            chs = [(x, c) for x, c in chs if c is not None and c[0] is root]
            # the line belongs to the item whose name it shows; lines without a name belong to their innermost item
            own = [c for x, c in chs if any(mk('attr', mk('elem', x), 'name') in subterms(h[0]) for h in l.holes())]
            pick = own[-1] if own else (chs[-1][1] if chs and l.holes() else None)
            if pick is not None and m.alias(path_of(pick)) == path:
                out.append(l)
        return out

    def item(construct, path, value, cond=None, several=False):
        m.alias = ordered
        ls = at_path(path)
        for l in ls:
            used.add(id(l))
        res = m.match('once', construct, ls, path, file, cond=cond, several=several)
        for l, el in res:
            fields(ctx, construct, l, el, value)
            if not several and el.a[0].domain.op == 'sorted':
                ctx.viol('once', construct, 'the bins are sorted', where(l))
        return res

    for tag, p in paths:
        top_ = None
        for d in (False, True):
            r = item(tag, p, 'coverage', cond=lambda c: assume(c, {DETAILS: d}))
            top_ = r or top_
        for kind, f in (('coverpoint', '.coverpoints'), ('cross', '.crosses')):
            p2 = p + ((f, ()),)
            c2 = '%s/%s' % (tag, kind)
            par = None
            for d in (False, True):
                r = item(c2, p2, 'coverage', cond=lambda c: assume(c, {DETAILS: d}))
                par = r or par
            below(ctx, c2, par, top_, pos, file)
            for lst in ('.bins', '.ignore_bins', '.illegal_bins'):
                if kind == 'cross' and lst != '.bins':
                    continue
                p3 = p2 + ((lst, ()),)
                c3 = c2 + '/' + lst[1:]
                for o in (False, True):
                    r = item(c3 + (' (ordered by hit)' if o else ''), p3, 'count',
                             cond=lambda c: assume(c, {DETAILS: True, ORDER: o}), several=o)
                    for l, el in r:
                        heading(ctx, c3, l, lst, lines, pos, par, file)
                below(ctx, c3, r, par, pos, file)
        if tag == 'instance':
            below(ctx, tag, top_, type_, pos, file)
        else:
            type_ = top_


def below(ctx, construct, lines, parents, pos, file):
    if not lines or not parents:
        return
    pa = parents[0][0]
    pi = pa.indent()
    for l, el in lines:
        i = l.indent()
        if isinstance(i, T) or isinstance(pi, T):
            t = i if isinstance(i, T) else pi
            if t.op == 'top':
                ctx.und('indent', construct, 'indentation is %s' % show(t)[:120], where(l))
            else:
                ctx.viol('indent', construct, 'the indentation is not restored: it depends on the items written before (%s)' % show(t)[:120], where(l))
            continue
        ctx.decide('indent', construct, i > pi, 'indented by %d, its parent by %d' % (i, pi), where(l))
        if pos[id(l)] < pos[id(pa)]:
            ctx.viol('once', construct, 'written before the line of its parent', where(l))


def heading(ctx, construct, line, lst, lines, pos, par, file):
    """Nearest heading line before the bins, in the same parent."""
    i = pos[id(line)]
    parent = None
    for l in reversed(line.loops):
        ch = chain(mk('elem', l))
        if ch is not None and path_of(ch)[-1][0].split()[-1] not in ('.bins', '.ignore_bins', '.illegal_bins'):
            parent = l
            break
    best = None
    for j in range(i - 1, -1, -1):
        h = lines[j]
        if h.loops and h.loops[-1] is parent and not h.holes() and h.text().strip():
            # a heading that is written whenever these bins are
            g = [c for c, t in h.guards]
            mine = [c for c, t in line.guards]
            extra = [c for c in g if c not in mine and not implied(c, line.loops) and c is not DETAILS]
            if not extra:
                best = h
                break
            if any(not_(c) in mine for c in extra):
                continue
            best = h
            ctx.viol('heading', construct, 'the heading %r is written only if %s' % (h.text().strip(), show(and_(extra))[:120]), where(h))
            return
        if h.holes() and (not h.loops or h.loops[-1] is parent):
            break
    if best is None:
        ctx.viol('heading', construct, 'no heading above the bins', where(line))
        return
    t = best.text().lower()
    want = {'.bins': None, '.ignore_bins': 'ignore', '.illegal_bins': 'illegal'}[lst]
    ok = ('ignore' not in t and 'illegal' not in t) if want is None else want in t
    ctx.decide('heading', construct, ok, 'listed under %r' % best.text().strip(), where(best))
    bi, li = best.indent(), line.indent()
    if isinstance(bi, int) and isinstance(li, int):
        ctx.decide('indent', construct + ' heading', li > bi, 'indented by %d under a heading indented by %d' % (li, bi), where(line))


def plain(t):
    """Strip rounding for display."""
    while True:
        if t.op == 'op' and t.a[0] in ('round', 'float'):
            t = t.a[1]
        elif t.op == 'call' and t.a[0] is None and t.a[1] in ('round', 'float'):
            t = t.a[2][0]
        elif t.op == 'str':
            t = t.a[0]
        else:
            return t


def fields(ctx, construct, l, el, value):
    hs = l.holes()
    nm, val = mk('attr', el, 'name'), mk('attr', el, value)
    got = [h for h in hs if plain(h[0]) is nm]
    w = where(l)
    unk = [h for h in hs if unknown(h[0])]
    tmpl = [x for h in hs for x in subterms(h[0]) if x.op == 'fmt' and x.a[0].op in ('cat', 'attr', 'str') and nm in set(subterms(x.a[0]))]
    if not got and tmpl and all(y.op in ('attr', 'const', 'cat', 'str', 'el', 'sym', 'ref', 'tuple', 'fmt') or y in set(subterms(el)) for y in subterms(tmpl[0].a[0])):
        ctx.viol('own-value', construct + '.name', 'the name is part of the format string, so a name with a percent sign is not shown as it is', w)
    elif got:
        f = got[0][1]
        if f and f[-1] in 'dioxXeEfFgGc%bn':
            ctx.viol('own-value', construct + '.name', 'the name is formatted with the numeric format %%%s: the operation fails' % f, w)
        elif '.' in f:
            ctx.viol('own-value', construct + '.name', 'the name is cut short by the format %%%s' % f, w)
        else:
            ctx.ok('own-value', construct + '.name', '', w)
    elif unk:
        ctx.und('own-value', construct + '.name', 'shows %s' % l.text()[:160], w)
    else:
        ctx.viol('own-value', construct + '.name', 'shows %s' % l.text()[:160], w)
    got = [h for h in hs if plain(h[0]) is val]
    if got:
        f = got[0][1]
        if value == 'coverage' and f.endswith('d'):
            ctx.viol('own-value', construct + '.' + value, 'the percentage is cut to an integer by the format %%%s' % f, w)
        elif value == 'count' and f.endswith(('e', 'g')):
            ctx.viol('own-value', construct + '.' + value, 'the count loses digits through the format %%%s' % f, w)
        else:
            ctx.ok('own-value', construct + '.' + value, '', w)
    elif unk:
        ctx.und('own-value', construct + '.' + value, 'shows %s' % l.text()[:160], w)
    else:
        ctx.viol('own-value', construct + '.' + value, 'shows %s' % l.text()[:160], w)
    for h in hs:
        p = plain(h[0])
        if p.op == 'attr' and p.a[1] == value and p.a[0] is not el:
            ctx.viol('own-value', construct + '.' + value, 'also shows %s' % show(p)[:80], w)
