"""C23: format names map to their own readers, writers and report generators."""
from .base import *
from . import cmds
from vflow.paths import Paths, NONE as PNONE, is_const as pconst

RGY = 'ucis.rgy.format_rgy.FormatRgy'
READERS = {'xml': 'ucis.xml.xml_reader.XmlReader.read', 'yaml': 'ucis.yaml.yaml_reader.YamlReader.load', 'libucis': 'ucis.lib.lib_ucis.LibUCIS.__init__'}
WRITERS = {'xml': 'ucis.xml.xml_writer.XmlWriter.write'}
DB = {'xml', 'yaml', 'libucis'}
RPT = {'txt', 'json'}


def interp(prog):
    opq = set(READERS.values()) - {'ucis.lib.lib_ucis.LibUCIS.__init__'} | set(WRITERS.values()) | {'ucis.xml.validate_ucis_xml', 'ucis.report.coverage_report_builder.CoverageReportBuilder.build'}
    return Interp(prog, opaque_funcs=opq, opaque_classes={'ucis.lib.lib_ucis.LibUCIS'})


def c23(ctx, prog):
    ctx.rule('own-name', 'the descriptor found under a name is the one registered with that name')
    ctx.rule('own-format', 'a database format reads and writes with the reader and writer of that format')
    ctx.rule('own-report', 'a report format produces its own kind of report on a stream')
    ctx.rule('unknown-names', 'exactly the registered names are known; looking up any other name yields no descriptor')
    ctx.rule('listed', 'the format lists hold every registered name of their category and no other')
    ctx.rule('list-commands', 'the list commands print every registered format of their category with its own description, and nothing else')
    ctx.rule('defaults', 'the format used when none is given is a registered one')
    f = prog.func(RGY + '.inst')
    if f is None:
        raise AnchorError(RGY + '.inst is gone')
    I = interp(prog)
    st = State()
    reg = I.callq(RGY + '.inst', [], st=st)
    w0 = '%s:%d (FormatRgy.inst)' % (rel(f.module.path), f.node.lineno)
    if st.dead:
        ctx.viol('own-name', 'registry', 'the registry cannot be obtained', w0)
        return
    again = I.callq(RGY + '.inst', [], st=st, tag='again')
    ctx.decide('own-name', 'registry', again == reg, 'a second request yields another registry', w0)
    known = {}
    for kind, has, get, lst, dflt, want in (('db', 'hasDatabaseFormat', 'getDatabaseDesc', 'getDatabaseFormats', 'getDefaultDatabase', DB),
                                            ('rpt', 'hasReportFormat', 'getReportDesc', 'getReportFormats', 'getDefaultReport', RPT)):
        x = mk('sym', 'fmt_' + kind)
        wh = at(prog, has)
        t = I.invoke(reg, has, [x], st=st.fork(), tag=('has', kind))
        names = disjuncts(t, x)
        if t.op == 'const':
            ctx.viol('unknown-names', has, 'answers %s for every name' % t, wh)
        elif names is None:
            ctx.und('unknown-names', has, 'known names: %s' % str(t)[:80], wh)
        else:
            ctx.decide('unknown-names', has, names == want, 'known names are %s, registered are %s' % (sorted(names), sorted(want)), wh)
        s = st.fork()
        mark = len(I.log)
        d = I.invoke(reg, get, [x], st=s, tag=('get', kind))
        m = {}
        rest = spread(d, x, m)
        wg = at(prog, get)
        known[kind] = m
        if s.dead and not m:
            ctx.viol('own-name', get, 'never yields a descriptor', wg)
        miss = want - set(m)
        for n in sorted(miss):
            ctx.viol('own-name', '%s %r' % (get, n), 'no descriptor under this name', wg)
        for n in sorted(set(m) - want):
            ctx.und('own-name', '%s %r' % (get, n), 'a format the analysis has no expectation for', wg)
        if rest is None or rest.op == 'keyerror' or rest == NONE or guarded(I, mark, x, set(m)):
            ctx.ok('unknown-names', get, 'other names: %s' % ('KeyError' if rest is not None and rest.op == 'keyerror' else 'nothing'), wg)
        elif rest.op == 'ref' or any(rest == v for v in m.values()):
            ctx.viol('unknown-names', get, 'an unregistered name yields a descriptor', wg)
        else:
            ctx.und('unknown-names', get, 'other names yield %s' % str(rest)[:60], wg)
        for n, dd in sorted(m.items()):
            nm = I.getattr_(dd, 'name', st.fork(), None)
            ctx.decide('own-name', '%s %r' % (get, n), nm == const(n), 'the descriptor is that of %s' % nm, wg)
            if n in want:
                (database if kind == 'db' else report)(ctx, prog, I, st, n, dd)
        dv = I.invoke(reg, dflt, [], st=st.fork(), tag=('dflt', kind))
        if dv.op == 'const':
            ctx.decide('defaults', dflt, dv.a[0] in m, 'the default %s is not a registered format' % dv, at(prog, dflt))
        else:
            ctx.und('defaults', dflt, 'default is %s' % str(dv)[:60], at(prog, dflt))
        l = I.invoke(reg, lst, [], st=(s2 := st.fork()), tag=('lst', kind))
        got = elements(I, l, s2)
        if l == NONE:
            ctx.viol('listed', lst, 'lists nothing', at(prog, lst))
        elif got is None:
            ctx.und('listed', lst, 'list is %s' % str(l)[:60], at(prog, lst))
        else:
            ctx.decide('listed', lst, sorted(map(str, got)) == sorted("'%s'" % n for n in want), 'lists %s' % ', '.join(sorted(map(str, got))), at(prog, lst))
    ctx.rule('descriptor', 'each property of a format descriptor is the value it was registered with')
    for q in ('ucis.rgy.format_if_db.FormatDescDb', 'ucis.rgy.format_if_rpt.FormatDescRpt'):
        descriptor(ctx, prog, q)
    listing(ctx, prog, known)
    defaults(ctx, prog)
    ctx.absorb(I)


def descriptor(ctx, prog, qual):
    """Each property of a descriptor yields the constructor argument of its name."""
    cls = prog.cls(qual)
    if cls is None:
        raise AnchorError('%s is gone' % qual)
    init = prog.find_method(cls, '__init__')
    if init is None:
        return
    I = interp(prog)
    st = State()
    ps = init.params[1:]
    o = I.new(qual, [mk('sym', p) for p in ps], st=st)
    for p in ps:
        if prog.find_method(cls, p) is None:
            continue
        v = I.getattr_(o, p, st, None)
        wh = '%s:%d (%s)' % (rel(cls.module.path), cls.node.lineno, cls.name)
        if v == mk('sym', p):
            ctx.ok('descriptor', '%s.%s' % (cls.name, p), '', wh)
        elif v.op in ('sym', 'const'):
            ctx.viol('descriptor', '%s.%s' % (cls.name, p), 'yields %s' % v, wh)
        else:
            ctx.und('descriptor', '%s.%s' % (cls.name, p), 'yields %s' % str(v)[:60], wh)
    ctx.absorb(I)


def at(prog, name):
    f = prog.func(RGY + '.' + name)
    if f is None:
        raise AnchorError('%s.%s is gone' % (RGY, name))
    return '%s:%d (%s)' % (rel(f.module.path), f.node.lineno, f.short)


def disjuncts(t, x):
    if t.op == 'ite' and t.a[1] == TRUE:
        l, r = disjuncts(t.a[0], x), disjuncts(t.a[2], x)
        return None if l is None or r is None else l | r
    if t == FALSE:
        return set()
    parts = t.a[0] if t.op == 'or' and isinstance(t.a[0], tuple) else t.a if t.op == 'or' else [t]
    out = set()
    for p in parts:
        if t is not p and p.op in ('or', 'ite'):
            r = disjuncts(p, x)
            if r is None:
                return None
            out |= r
            continue
        s = eq_sides(p)
        if not s or x not in s:
            return None
        o = s[1] if s[0] == x else s[0]
        if o.op != 'const':
            return None
        out.add(o.a[0])
    return out


def spread(d, x, m):
    """Split a chain of (x == name) ? value : rest."""
    while d is not None and d.op == 'ite':
        s = eq_sides(d.a[0])
        if s and x in s:
            o = s[1] if s[0] == x else s[0]
            if o.op == 'const':
                if d.a[1].op != 'keyerror':
                    m[o.a[0]] = d.a[1]
                d = d.a[2]
                continue
        ds = disjuncts(d.a[0], x)
        if ds is not None:
            inner = {}
            spread(d.a[1], x, inner)
            m.update({k: v for k, v in inner.items() if k in ds})
            d = d.a[2]
            continue
        nd = d.a[0]
        if nd.op == 'not' and disjuncts(nd.a[0], x) is not None:
            inner = {}
            spread(d.a[2], x, inner)
            m.update({k: v for k, v in inner.items() if k in disjuncts(nd.a[0], x)})
            d = d.a[1]
            continue
        break
    return d


def guarded(I, mark, x, names):
    """A raise under the condition that x is none of the names."""
    for e in I.log[mark:]:
        if e.kind == 'raise':
            for c, t in e.guards:
                n = c.a[0] if c.op == 'not' else None
                if n is not None and (disjuncts(n, x) or set()) == names:
                    return True
    return False


def elements(I, l, st):
    if l.op != 'ref':
        if l.op == 'tuple':
            return list(l.a)
        return None
    out = []
    for e in I.contents(l, st):
        v = getattr(e, 'value', None)
        if v is None or v.op != 'const' or getattr(e, 'loops', ()):
            return None
        out.append(v)
    return out


def database(ctx, prog, I, st, n, d):
    s = st.fork()
    fi = I.getattr_(d, 'fmt_if', s, None)
    if fi.op != 'cls':
        ctx.und('own-format', n, 'interface is %s' % str(fi)[:60])
        return
    cls = fi.a[0]
    wh = '%s:%d (%s)' % (rel(cls.module.path), cls.node.lineno, cls.name)
    for opn in ('read', 'create'):
        s = st.fork()
        mark = len(I.log)
        try:
            o = I.new(cls.qualname, [], st=s)
            r = I.invoke(o, opn, [mk('sym', 'file')] if opn == 'read' else [], st=s, tag=('op', n, opn))
        except Abort as e:
            ctx.und('own-format', '%s %s' % (n, opn), str(e), wh)
            continue
        ev = I.log[mark:]
        used = {k for k, q in READERS.items() for e in ev if e.kind in ('call', 'inline', 'create') and (e.name == q or e.name == q.rsplit('.', 2)[-2] or str(e.name) == q.rsplit('.', 1)[0] or calls(I, e, q))}
        other = used - {n}
        if other:
            ctx.viol('own-format', '%s %s' % (n, opn), 'uses the reader of %s' % ', '.join(sorted(other)), wh)
            continue
        if opn == 'read':
            ctx.decide('own-format', '%s read' % n, s.dead or n in used, 'does not use the reader of this format', wh)
            if not s.dead and n in used:
                yielded(ctx, I, n, r, ev, wh)
            continue
        if s.dead:
            ctx.ok('own-format', '%s create' % n, 'never yields a database', wh)
            continue
        k = I.class_of(r)
        if r.op == 'const':
            ctx.viol('own-format', '%s create' % n, 'yields %s instead of a database' % r, wh)
            continue
        if k is None:
            ctx.und('own-format', '%s create' % n, 'database is %s' % str(r)[:60], wh)
            continue
        mark = len(I.log)
        I.invoke(r, 'write', [mk('sym', 'file')], st=s, tag=('write', n))
        ev = I.log[mark:]
        wu = {f for f, q in WRITERS.items() for e in ev if calls(I, e, q)}
        if wu - {n}:
            ctx.viol('own-format', '%s write' % n, 'writes %s' % ', '.join(sorted(wu)), wh)
        elif n in WRITERS:
            ctx.decide('own-format', '%s write' % n, n in wu or s.dead and n not in WRITERS, 'does not use the writer of this format', wh)
            for e in ev:
                if calls(I, e, WRITERS[n]):
                    ctx.decide('own-format', '%s written database' % n, r in tuple(e.args) + tuple((e.kw or {}).values()), 'another database is written', where(e))
        else:
            ctx.ok('own-format', '%s write' % n, '', wh)


def yielded(ctx, I, n, r, ev, wh):
    """What read gives back is what the reader of the format made."""
    q = READERS[n]
    con = '%s read result' % n
    if q.endswith('__init__'):
        k = I.class_of(r)
        got = k is not None and k.qualname == q.rsplit('.', 1)[0] or r.op == 'new' and r.a[0] == q.rsplit('.', 1)[0]
    else:
        got = any(x.op == 'call' and x.a[1] in (q, q.rsplit('.', 1)[1]) or x.op == 'new' and x.a[0] in (q, q.rsplit('.', 1)[1]) for x in leaves(r))
    bad = [x for x in leaves(r) if x.op == 'const' or x.op == 'ref' and not got]
    if bad:
        ctx.viol('own-format', con, 'yields %s instead of the database read' % ', '.join(show(x)[:50] for x in bad), wh)
    elif got:
        ctx.ok('own-format', con, '', wh)
    else:
        ctx.und('own-format', con, 'yields %s' % show(r)[:60], wh)


def calls(I, e, q):
    """Is the event a call of the function q?"""
    if e.kind not in ('call', 'inline'):
        return False
    if e.name == q:
        return True
    k = I.class_of(e.recv) if e.recv is not None else None
    if k is not None and e.name == q.rsplit('.', 1)[1]:
        m = I.prog.find_method(k, e.name)
        if getattr(m, 'qualname', None) == q:
            return True
    fi = getattr(e, 'raw', None)
    return getattr(fi, 'qualname', None) == q


def report(ctx, prog, I, st, n, d):
    s = st.fork()
    fi = I.getattr_(d, 'fmt_if', s, None)
    if fi.op != 'cls':
        ctx.und('own-report', n, 'interface is %s' % str(fi)[:60])
        return
    cls = fi.a[0]
    wh = '%s:%d (%s)' % (rel(cls.module.path), cls.node.lineno, cls.name)
    fl = I.getattr_(d, 'out_flags', s, None)
    en = prog.enum_members(prog.cls('ucis.rgy.format_if_rpt.FormatRptOutFlags'))
    v = fl.a[0] if fl.op == 'const' else None
    v = getattr(v, 'value', v)
    if isinstance(v, int):
        ctx.decide('own-report', '%s output' % n, v & en['Stream'].value, 'not registered for output to a stream', wh)
    else:
        ctx.und('own-report', '%s output' % n, 'flags are %s' % str(fl)[:50], wh)
    out = mk('sym', 'out')
    mark = len(I.log)
    try:
        o = I.new(cls.qualname, [], st=s)
        I.invoke(o, 'report', [mk('sym', 'db'), out, mk('sym', 'rargs')], st=s, tag=('rpt', n))
    except Abort as e:
        ctx.und('own-report', n, str(e), wh)
        return
    ev = I.log[mark:]
    js = [e for e in ev if e.kind == 'call' and e.name in ('json.dump', 'json.dumps')]
    wr = [e for e in ev if e.kind == 'call' and e.recv == out and e.name in ('write', 'writelines')]
    pr = [e for e in ev if e.kind == 'call' and e.name == 'print' and (e.kw or {}).get('file') == out]
    if n == 'json':
        ctx.decide('own-report', n, bool(js), 'does not produce JSON', wh)
    else:
        ctx.decide('own-report', n, not js and (wr or pr), 'produces JSON' if js else 'writes nothing', wh)
    b = [e for e in ev if calls(I, e, 'ucis.report.coverage_report_builder.CoverageReportBuilder.build') or e.kind == 'call' and e.name == 'build']
    ctx.decide('own-report', '%s source' % n, any(mk('sym', 'db') in e.args for e in b), 'the report is not built from the database given', wh) if b else ctx.und('own-report', '%s source' % n, 'where the report comes from is not seen', wh)


def listing(ctx, prog, known):
    subs = cmds.parsers(prog, ctx)
    for cmd, kind, want in (('list-db-formats', 'db', DB), ('list-rpt-formats', 'rpt', RPT)):
        s = subs.get(cmd)
        fi = s['func'] if s else None
        if fi is None or not hasattr(fi, 'qualname'):
            ctx.viol('list-commands', cmd, 'there is no such sub-command' if s is None else 'no function is set')
            continue
        I = interp(prog)
        st = State()
        reg = I.callq(RGY + '.inst', [], st=st)
        desc = {}
        for n in want:
            d = I.invoke(reg, 'getDatabaseDesc' if kind == 'db' else 'getReportDesc', [const(n)], st=st, tag=n)
            if d.op == 'ref':
                t = I.getattr_(d, 'description', st, None)
                if t.op == 'const':
                    desc[n] = t.a[0]
        mark = len(I.log)
        w0 = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.short)
        try:
            I.callq(fi.qualname, [mk('sym', 'args')], st=st, tag='list')
        except Abort as e:
            ctx.und('list-commands', cmd, str(e), w0)
            continue
        ctx.absorb(I)
        lines = []
        vague = False
        for e in I.log[mark:]:
            if e.kind == 'call' and (e.name == 'print' or e.name == 'sys.stdout.write' or e.name == 'write'):
                t = plain(e.args[0]) if e.args else ''
                if t is None or e.loops or e.guards:
                    vague = True
                else:
                    lines += [x for x in t.split('\n') if x.strip()]
        if vague:
            ctx.und('list-commands', cmd, 'what is printed is not resolved', w0)
            continue
        if st.dead:
            ctx.viol('list-commands', cmd, 'always fails', w0)
            continue
        got = [l.split()[0].rstrip(':') for l in lines]
        for n in sorted(want):
            mine = [l for l, g in zip(lines, got) if g == n]
            if not mine:
                ctx.viol('list-commands', '%s %s' % (cmd, n), 'the format is not shown', w0)
            elif len(mine) > 1:
                ctx.viol('list-commands', '%s %s' % (cmd, n), 'the format is shown %d times' % len(mine), w0)
            else:
                ctx.decide('list-commands', '%s %s' % (cmd, n), n not in desc or desc[n] in mine[0], 'shown with another description', w0)
        anyformat(ctx, prog, cmd, kind, fi, w0)
        others = (DB | RPT) - want
        extra = [g for g in got if g not in want]
        bad = [g for g in extra if g in others]
        ctx.decide('list-commands', '%s others' % cmd, not bad, 'also shows %s' % ', '.join(bad), w0)


def anyformat(ctx, prog, cmd, kind, fi, w0):
    """The same for whatever formats are registered: the list of names and the descriptors are left open."""
    lst, get = ('getDatabaseFormats', 'getDatabaseDesc') if kind == 'db' else ('getReportFormats', 'getReportDesc')
    I = Interp(prog, opaque_funcs={RGY + '.' + lst, RGY + '.' + get, RGY + '.inst'})
    st = State()
    try:
        I.callq(fi.qualname, [mk('sym', 'args')], st=st, tag='any')
    except Abort as e:
        return
    shown = []
    for e in I.log:
        if e.kind != 'call' or e.name not in ('print', 'sys.stdout.write', 'write') or len(e.loops) != 1 or not e.args:
            continue
        d = strip_it(e.loops[0].domain)
        if d.op == 'call' and d.a[1] == lst:
            el = mk('elem', e.loops[0])
            if el in set(subterms(e.args[0])):
                shown.append((e, e.loops[0]))
    if not shown:
        return
    ctx.absorb(I)
    gs = [and_([c for c, t in e.guards]) for e, L in shown]
    if len({L for e, L in shown}) > 1 or truncs(shown[0][1]):
        if len({L for e, L in shown}) == 1 and all(not unknown(t) for t in truncs(shown[0][1])):
            ctx.viol('list-commands', '%s any format' % cmd, 'the list ends when %s' % show(truncs(shown[0][1])[0])[:80], w0)
        return
    g = or_(gs)
    if g is TRUE:
        ctx.ok('list-commands', '%s any format' % cmd, 'every name of the list is shown', where(shown[0][0]))
    elif not unknown(g):
        ctx.viol('list-commands', '%s any format' % cmd, 'a registered format is shown only when %s' % show(g)[:100], where(shown[0][0]))


def plain(t):
    """Text of a term made of constants."""
    if t.op == 'const':
        return str(t.a[0])
    if t.op == 'cat':
        ps = [plain(x) for x in (t.a[0] if len(t.a) == 1 and isinstance(t.a[0], tuple) else t.a)]
        return None if None in ps else ''.join(ps)
    if t.op == 'str':
        return plain(t.a[0])
    return None


def defaults(ctx, prog):
    """The format a command falls back to when none is given."""
    subs = cmds.parsers(prog, ctx)
    for name, (multi, kind) in cmds.WANT.items():
        s = subs.get(name)
        fi = s and s['func']
        if not hasattr(fi, 'qualname'):
            continue
        opts, pos = {}, []
        for names, kw, w in s['opts']:
            if names and isinstance(names[0], str) and not names[0].startswith('-'):
                pos.append(cmds.dest(names, kw))
            for n in names:
                opts[n] = (cmds.dest(names, kw), kw)
        if not all(o in opts for o in ('--out', '--input-format', '--output-format')) or len(pos) != 1:
            continue
        spec = dict(inf=opts['--input-format'][0], outf=opts['--output-format'][0], out=opts['--out'][0], inp=pos[0], multi=multi, kind=kind)
        for which, opt, k in (('inf', '--input-format', 'db'), ('outf', '--output-format', kind)):
            regd = DB if k == 'db' else RPT
            w0 = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.short)
            dv = opts[opt][1].get('default')
            if isinstance(dv, str):
                ctx.decide('defaults', '%s %s' % (name, opt), dv in regd, 'the default %r is not a registered format' % dv, w0)
                continue
            cl = cmds.Cmd(prog, spec)
            P = Paths(prog, cl)
            a = cmds.A(spec[which])
            from vflow.paths import PState
            p0 = PState()
            p0.facts[('op', 'is', a, PNONE)] = True
            try:
                outs = P.run(fi, [cmds.ARGS], st=p0)
            except Abort as e:
                ctx.und('defaults', '%s %s' % (name, opt), str(e), w0)
                continue
            used = set()
            for kk, q, v in outs:
                if kk == 'val':
                    used |= {c[2] for c, b in q.facts.items() if c[0] == 'has' and c[1] == k and b and cmds_side(c[2], a, which, q, spec)}
            bad = [u for u in used if not (u[0] == 'default' and u[1] == k or pconst(u) and u[2] in regd)]
            if not any(kk == 'val' for kk, q, v in outs):
                ctx.viol('defaults', '%s %s' % (name, opt), 'the command cannot succeed when no format is given', w0)
            elif bad:
                ctx.viol('defaults', '%s %s' % (name, opt), 'falls back to %s, which is not a registered format' % ', '.join(cmds.show(b) for b in bad), w0)
            else:
                ctx.ok('defaults', '%s %s' % (name, opt), 'falls back to %s' % ', '.join(sorted(cmds.show(u) for u in used)), w0)


def cmds_side(fmt, a, which, st, spec):
    """Names tried as the default of this side (the other side's own text is left out)."""
    o = cmds.A(spec['outf' if which == 'inf' else 'inf'])
    return fmt != o
