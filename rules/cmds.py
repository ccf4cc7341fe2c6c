"""C19: commands validate, then read everything, then write, and signal failure."""
import ast
from .base import *
from .files import Graph, OPENERS, PATHS
from vflow.paths import Paths, PState, Client, NONE, const as pc, is_const, mentions
from vflow.program import FuncInfo, ClassInfo

RGY = 'ucis.rgy.format_rgy.FormatRgy'
CORE = {'hasDatabaseFormat': ('has', 'db'), 'hasReportFormat': ('has', 'rpt'), 'getDatabaseDesc': ('desc', 'db'), 'getReportDesc': ('desc', 'rpt'),
        'getDefaultDatabase': ('default', 'db'), 'getDefaultReport': ('default', 'rpt'), 'getDatabaseFormats': ('names', 'db'), 'getReportFormats': ('names', 'rpt')}
FSOPS = {'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.makedirs', 'os.mkdir', 'os.rmdir', 'os.removedirs', 'os.truncate', 'os.link', 'os.symlink', 'os.chmod',
         'shutil.rmtree', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.move', 'shutil.copytree'}
PURE = {'os.path.exists', 'os.path.isdir', 'os.path.isfile'}
ARGS = ('param', 'args')
LIBS = ('ucis.merge', 'ucis.mem', 'ucis.xml', 'ucis.yaml', 'ucis.report', 'ucis.lib', 'ucis.rgy')


def A(name):
    return ('attr', ARGS, name)


class Cmd(Client):
    def __init__(self, prog, spec):
        self.prog = prog
        self.spec = spec      # dict(inf, outf, inp, multi, out, kind)
        self.viol = {}
        self.und = {}
        self.events = {}
        self.used = set()

    # verdicts
    def bad(self, rule, what, msg, fr, node):
        self.viol.setdefault((rule, what, msg), self.P.where(fr, node))

    def unsure(self, rule, what, msg, fr, node):
        self.und.setdefault((rule, what, msg), self.P.where(fr, node))

    def seen(self, kind, fr, node):
        self.events.setdefault((kind, self.P.where(fr, node)), 0)
        self.events[(kind, self.P.where(fr, node))] += 1

    def inline(self, fi):
        n = fi.module.name
        if fi.cls is not None and fi.cls.qualname == RGY:
            return fi.name not in CORE
        return not any(n == l or n.startswith(l + '.') for l in LIBS)

    def op(self, st, fr, node, kind, val, raises=True):
        """An operation that may fail; remembers the failure."""
        s = st.copy()
        out = [('val', s, val)]
        if raises:
            f = st.copy()
            f.aux['failed'] = f.aux.get('failed', frozenset()) | {(kind, self.P.where(fr, node))}
            out.append(('raise', f, ('exc', None, ('from', self.P.site(fr, node)))))
        return out

    def getattr(self, st, fr, node, o, name):
        if o == ARGS:
            self.used.add(name)
        if o[0] == 'desc' and name in ('fmt_if', '_fmt_if'):
            return [('val', st, ('fmtif', o[1], o[2]))]
        if o == ('cls', RGY) and name == 'inst':
            return [('val', st, ('rgyinst',))]
        if o == ('rgy',):
            m = self.prog.find_method(self.prog.cls(RGY), name)
            if m is not None:
                return [('val', st, ('bm', self.P.fnval(m)[1], o))]
        return None

    def call(self, st, fr, node, f, args, kw):
        if f == ('rgyinst',):
            return [('val', st, ('rgy',))]
        if f[0] == 'bm' and f[2] == ('rgy',):
            fi = self.P.table[f[1]][0]
            if fi.name in CORE:
                return self.core(st, fr, node, fi.name, args, kw)
        if f[0] == 'fmtif':
            return self.op(st, fr, node, 'interface', ('iface', f[1], f[2]))
        if f[0] == 'cls' and f[1] == 'ucis.merge.db_merger.DbMerger':
            return [('val', st, ('merger', self.P.site(fr, node)))]
        if f[0] == 'ext':
            n = f[1]
            if n in OPENERS:
                mode = args[1] if len(args) > 1 else kw.get('mode', pc('r'))
                if is_const(mode) and not set(str(mode[2])) & set('wax+'):
                    return self.op(st, fr, node, 'open', ('res', self.P.site(fr, node)))
                x = args[0] if args else NONE
                self.output(st, fr, node, 'opens', x)
                s = st.copy()
                s.aux['wrote'] = True
                return self.op(s, fr, node, 'open', ('outfile', x, self.P.site(fr, node)))
            if n in FSOPS:
                for x in args[:2] if n in ('os.rename', 'os.replace', 'shutil.move') else args[-1:] if n.startswith('shutil.copy') else args[:1]:
                    self.output(st, fr, node, n, x)
                s = st.copy()
                s.aux['wrote'] = True
                return self.op(s, fr, node, n, NONE)
            if n in PURE:
                return [('val', st, ('op', n) + tuple(args))]
        if f[0] == 'fn':
            fi = self.P.table[f[1]][0]
            if not self.inline(fi) and (A(self.spec['out']) in args or A(self.spec['out']) in kw.values()):
                self.output(st, fr, node, fi.short, A(self.spec['out']))
                k = A(self.spec['outf'])
                if not any(c[0] == 'op' and c[1] == '==' and k in c and b for c, b in st.facts.items()):
                    self.bad('requested-formats', 'output', 'written by %s whatever the output format' % fi.short, fr, node)
        return None

    def core(self, st, fr, node, name, args, kw):
        op, kind = CORE[name]
        fmt = (list(args) + list(kw.values()) + [NONE])[0]
        if op == 'has':
            return [('val', st, ('has', kind, fmt))]
        if op == 'default':
            return [('val', st, ('default', kind))]
        if op == 'names':
            return [('val', st, ('names', kind))]
        out = []
        for s, b in self.P.truth(('has', kind, fmt), st):
            if b:
                out.append(('val', s, ('desc', kind, fmt)))
            else:
                out.append(('raise', s, ('exc', 'KeyError', NONE)))
        return out

    def known(self, st, k):
        if k[0] in ('rgy', 'desc', 'fmtif', 'iface', 'db', 'outdb', 'merger', 'outfile', 'default'):
            return True
        if k[0] == 'op' and k[1] == 'is' and k[3] == NONE and k[2][0] in ('rgy', 'desc', 'fmtif', 'iface', 'db', 'outdb', 'merger', 'outfile', 'default'):
            return False
        if k[0] == 'op' and k[1] == 'in' and k[3][0] == 'names':
            return st.facts.get(('has', k[3][1], k[2]))
        return None

    def assume(self, st, k, b):
        if k[0] == 'op' and k[1] == 'in' and k[3][0] == 'names':
            st.facts[('has', k[3][1], k[2])] = b
        return st

    # provenance
    def fmtof(self, st, fmt, which):
        """Is fmt the format asked for (or a default where none was given)?"""
        a = A(self.spec[which])
        if fmt == a:
            return True
        none = st.facts.get(('op', 'is', a, NONE)) is True or st.facts.get(a) is False
        return bool(none and (is_const(fmt) or fmt[0] == 'default'))

    def validated(self, st):
        """Which of the two formats is not known to be registered on this path."""
        miss = []
        for which, kind in (('inf', 'db'), ('outf', self.spec['kind'])):
            if not any(c[0] == 'has' and c[1] == kind and b and self.fmtof(st, c[2], which) for c, b in st.facts.items()):
                miss.append('input format' if which == 'inf' else 'output format')
        return miss

    def touch(self, st, fr, node, what):
        for m in self.validated(st):
            self.bad('formats-checked-first', m, '%s before the %s is known to be registered' % (what, m), fr, node)
        self.seen(what, fr, node)

    def output(self, st, fr, node, what, x):
        self.touch(st, fr, node, 'output: ' + what)
        out = A(self.spec['out'])
        if x != out:
            if mentions(x, out):
                self.unsure('only-the-output', what, 'writes to a place derived from the output', fr, node)
            else:
                self.bad('only-the-output', what, 'writes to %s, not the requested output' % (show(x)), fr, node)
        self.complete(st, fr, node, what)

    def complete(self, st, fr, node, what):
        """All inputs have been read (and merged) when the first output operation happens."""
        inp = A(self.spec['inp'])
        if self.spec['multi']:
            if inp not in st.aux.get('looped', frozenset()):
                self.bad('read-before-write', what, 'output is touched before all inputs are read', fr, node)
        elif inp not in st.aux.get('ever', frozenset()):
            self.bad('read-before-write', what, 'output is touched before the input is read', fr, node)
        if self.spec['kind'] == 'db' and not st.aux.get('merged'):
            self.bad('read-before-write', what, 'output is touched before the merge', fr, node)

    # operations
    def method(self, st, fr, node, o, name, args, kw):
        av = list(args) + list(kw.values())
        if o == ('rgy',) and name in CORE:
            return self.core(st, fr, node, name, args, kw)
        if o[0] == 'iface':
            if name == 'read' and av:
                x = av[0]
                self.touch(st, fr, node, 'read')
                if o[1] != 'db' or not self.fmtof(st, o[2], 'inf'):
                    self.bad('requested-formats', 'input', 'read as %s, not with the requested input format' % show(o[2]), fr, node)
                inp = A(self.spec['inp'])
                if self.spec['multi']:
                    ok = x[0] == 'elem' and x[2] == inp
                    if not ok and mentions(x, inp):
                        self.unsure('every-input', 'read', 'input read is %s' % show(x), fr, node)
                    elif not ok:
                        self.bad('every-input', 'read', 'reads %s' % show(x), fr, node)
                elif x != inp:
                    self.bad('every-input', 'read', 'reads %s, not the input given' % show(x), fr, node)
                if st.aux.get('wrote'):
                    self.bad('read-before-write', 'read', 'an input is read after output was touched', fr, node)
                outs = self.op(st, fr, node, 'read', ('db', o[2], x))
                s = outs[0][1]
                s.aux['ever'] = s.aux.get('ever', frozenset()) | {x}
                s.aux['closed'] = s.aux.get('closed', frozenset()) - {('db', o[2], x)}
                s.aux['now'] = s.aux.get('now', frozenset()) | {x}
                return outs
            if name == 'create':
                if av and av[0] != NONE:
                    self.output(st, fr, node, 'create', av[0])
                    st = st.copy()
                    st.aux['wrote'] = True
                if o[1] != 'db' or not self.fmtof(st, o[2], 'outf'):
                    self.bad('requested-formats', 'output', 'created as %s, not in the requested output format' % show(o[2]), fr, node)
                return self.op(st, fr, node, 'create', ('outdb', o[2]))
            if name == 'report':
                self.touch(st, fr, node, 'report')
                if o[1] != 'rpt' or not self.fmtof(st, o[2], 'outf'):
                    self.bad('requested-formats', 'output', 'reported as %s, not in the requested output format' % show(o[2]), fr, node)
                db = kw.get('db', args[0] if args else NONE)
                fp = kw.get('out', args[1] if len(args) > 1 else NONE)
                if db != ('db', db[1], A(self.spec['inp'])):
                    self.bad('every-input', 'report', 'the database reported is not the input', fr, node)
                if db in st.aux.get('closed', frozenset()):
                    self.bad('every-input', 'report', 'the input is closed before it is reported', fr, node)
                out = A(self.spec['out'])
                if fp[0] == 'outfile':
                    pass              # checked when it was opened
                elif fp == ('ext', 'sys.stdout'):
                    if st.facts.get(('op', 'is', out, NONE)) is not True and st.facts.get(out) is not False:
                        self.bad('only-the-output', 'report', 'written to standard output although an output was requested', fr, node)
                elif fp != out:
                    self.bad('only-the-output', 'report', 'written to %s' % show(fp), fr, node)
                s = st.copy()
                s.aux['wrote'] = True
                s.aux['done'] = True
                return self.op(s, fr, node, 'report', NONE)
        if o[0] == 'merger' and name == 'merge':
            out = kw.get('dst_db', args[0] if args else NONE)
            src = kw.get('src_db_l', args[1] if len(args) > 1 else NONE)
            self.touch(st, fr, node, 'merge')
            have = set(st.heap.get((src, '*'), ())) if src[0] == 'list' else set(src[1:]) if src[0] == 'tuple' else None
            if have is not None and have & st.aux.get('closed', frozenset()):
                self.bad('every-input', 'merge', 'an input is closed before it is merged', fr, node)
            if have is None:
                self.unsure('every-input', 'merge', 'sources merged: %s' % show(src), fr, node)
            else:
                got = {d[2] for d in have if d[0] == 'db'}
                for x in st.aux.get('ever', frozenset()):
                    if x not in got:
                        self.bad('every-input', 'merge', 'an input read is not merged', fr, node)
                if any(d[0] != 'db' for d in have):
                    self.bad('every-input', 'merge', 'something other than the inputs is merged', fr, node)
            inp = A(self.spec['inp'])
            if self.spec['multi'] and inp not in st.aux.get('looped', frozenset()):
                self.bad('every-input', 'merge', 'merged before all inputs are read', fr, node)
            if st.aux.get('wrote'):
                self.bad('read-before-write', 'merge', 'merging happens after output was touched', fr, node)
            s = st.copy()
            s.aux['merged'] = s.aux.get('merged', frozenset()) | {out}
            r = self.op(s, fr, node, 'merge', NONE)
            r[1][1].aux['merged'] = st.aux.get('merged', frozenset())
            return r
        if o[0] in ('outdb', 'db') and name == 'write':
            x = av[0] if av else NONE
            self.output(st, fr, node, 'write', x)
            if o in st.aux.get('closed', frozenset()):
                self.bad('every-input', 'write', 'the database is closed before it is written', fr, node)
            if o[0] != 'outdb':
                self.bad('requested-formats', 'output', 'an input database is written, so in the input format', fr, node)
            elif o not in st.aux.get('merged', frozenset()):
                self.bad('every-input', 'write', 'the database written did not receive the inputs', fr, node)
            s = st.copy()
            s.aux['wrote'] = True
            s.aux['done'] = True
            return self.op(s, fr, node, 'write', NONE)
        if o[0] in ('outdb', 'db') and name == 'close':
            st = st.copy()
            st.aux['closed'] = st.aux.get('closed', frozenset()) | {o}
            return self.P.opaque(st, fr, node, ('attr', o, name), args, True)
        if o[0] == 'outfile' and name in ('close', 'flush'):
            return [('val', st, NONE)]
        if o[0] == 'path' and name in ('write_text', 'write_bytes', 'unlink', 'mkdir', 'rename', 'replace', 'touch', 'open'):
            self.output(st, fr, node, name, o[1] if len(o) > 1 else NONE)
            s = st.copy()
            s.aux['wrote'] = True
            return self.op(s, fr, node, name, ('outfile', o[1] if len(o) > 1 else NONE, ''))
        return None

    def close(self, st, fr, node, v):
        return [('val', st, NONE)]

    # iteration over the inputs
    def iter_start(self, st, fr, node, el):
        if el[2] == A(self.spec['inp']) and self.spec['multi']:
            s = st.copy()
            s.aux['now'] = s.aux.get('now', frozenset()) - {el}
            return s

    def iter_end(self, st, fr, node, el, kind):
        if el[2] != A(self.spec['inp']) or not self.spec['multi']:
            return
        if kind in ('next', 'continue') and el not in st.aux.get('now', frozenset()):
            self.skips = getattr(self, 'skips', [])
            self.skips.append((el, self.P.where(fr, node), kind))
        if kind == 'break':
            self.breaks = getattr(self, 'breaks', [])
            self.breaks.append((el, self.P.where(fr, node)))

    def iter_done(self, st, fr, node, el):
        b = A(self.spec['inp'])
        if el[2] == b:
            s = st.copy()
            s.aux['looped'] = s.aux.get('looped', frozenset()) | {b}
            return s


def show(v):
    if is_const(v):
        return repr(v[2])
    if v[0] == 'attr':
        return '%s.%s' % (show(v[1]), v[2])
    if v[0] == 'param':
        return v[1]
    if v[0] == 'elem':
        return 'an element of %s' % show(v[2])
    return v[0] + (' ' + str(v[1]) if len(v) > 1 and isinstance(v[1], str) else '')


class ArgParser(Client):
    """Records what is declared on each sub-command."""

    def __init__(self, prog):
        self.prog = prog
        self.subs = {}

    def inline(self, fi):
        return not any(fi.module.name == l or fi.module.name.startswith(l + '.') for l in LIBS + ('ucis.cmd',))

    def call(self, st, fr, node, f, args, kw):
        if f[0] in ('fn', 'bm', 'lf') and self.inline(self.P.table[f[1]][0]):
            return None
        return self.P.opaque(st, fr, node, f, args, False)

    def method(self, st, fr, node, o, name, args, kw):
        if name == 'add_parser':
            n = args[0] if args else kw.get('name', NONE)
            if is_const(n):
                self.subs.setdefault(n[2], dict(name=n[2], opts=[], func=None, where=self.P.where(fr, node)))
            return [('val', st, ('subp', n))]
        if o[0] == 'subp':
            s = self.subs.get(o[1][2]) if is_const(o[1]) else None
            if name in ('add_argument_group', 'add_mutually_exclusive_group'):
                return [('val', st, o)]
            if s is not None and name == 'add_argument':
                t = ([a[2] if is_const(a) else None for a in args], {k: v[2] if is_const(v) else v for k, v in kw.items()}, self.P.where(fr, node))
                if t not in s['opts']:
                    s['opts'].append(t)
            if s is not None and name == 'set_defaults':
                for k, v in kw.items():
                    if k == 'func':
                        s['func'] = v
                    else:
                        s['opts'].append((['--' + k], {'dest': k, 'default': v}, self.P.where(fr, node)))
            return [('val', st, NONE)]
        if o[0] in ('mod', 'cls', 'list', 'super'):
            return None
        return self.P.opaque(st, fr, node, ('attr', o, name), args, False)


def parsers(prog, ctx):
    """Sub-command name -> options and function, from get_parser."""
    f = prog.func('ucis.__main__.get_parser')
    if f is None:
        raise AnchorError('ucis.__main__.get_parser is gone')
    cl = ArgParser(prog)
    P = Paths(prog, cl)
    P.run(f, [])
    ctx.functions |= P.visited
    ctx.sites += P.sites
    for s in cl.subs.values():
        v = s['func']
        s['func'] = P.table[v[1]][0] if v is not None and v[0] in ('fn', 'lf', 'bm') else v
    return cl.subs


def dest(names, kw):
    if isinstance(kw.get('dest'), str):
        return kw['dest']
    lng = [n for n in names if isinstance(n, str) and n.startswith('--')]
    sht = [n for n in names if isinstance(n, str) and n.startswith('-')]
    n = (lng or sht or names)[0]
    return n.lstrip('-').replace('-', '_') if isinstance(n, str) else None


WANT = {'convert': (False, 'db'), 'merge': (True, 'db'), 'report': (False, 'rpt')}


def c19(ctx, prog):
    ctx.rule('dispatch', 'each sub-command runs its own function, with the options that function reads')
    ctx.rule('formats-checked-first', 'both formats are known to be registered before anything is opened, read or written')
    ctx.rule('requested-formats', 'inputs are read with the requested input format, the output is produced in the requested output format')
    ctx.rule('every-input', 'every input given is read, and what is written comes from all of them')
    ctx.rule('read-before-write', 'all reading and merging is over when the output is first touched')
    ctx.rule('only-the-output', 'nothing but the requested output is written')
    ctx.rule('failures-propagate', 'a failing step makes the command fail')
    ctx.rule('output-produced', 'a command that succeeds has written its output')
    ctx.rule('exit-status', 'a failing command ends with a nonzero exit status, a successful one with zero')
    ctx.rule('errors-surface', 'an error while opening, validating, parsing, reading or writing is not swallowed by the library')
    subs = parsers(prog, ctx)
    rets = {}
    for name, (multi, kind) in WANT.items():
        s = subs.get(name)
        if s is None:
            ctx.viol('dispatch', name, 'there is no such sub-command')
            continue
        fi = fv = s['func']
        if not isinstance(fi, FuncInfo):
            if fv is None:
                ctx.viol('dispatch', name, 'no function is set', s['where'])
            else:
                ctx.und('dispatch', name, 'function is %s' % fv, s['where'])
            continue
        opts = {}
        pos = []
        for names, kw, w in s['opts']:
            d = dest(names, kw)
            if names and isinstance(names[0], str) and not names[0].startswith('-'):
                pos.append((d, kw, w))
            for n in names:
                opts[n] = (d, kw, w)
        bad = False
        for o in ('--out', '--input-format', '--output-format'):
            if o not in opts:
                ctx.viol('dispatch', '%s %s' % (name, o), 'the option is missing', s['where'])
                bad = True
        if len(pos) != 1:
            ctx.viol('dispatch', '%s inputs' % name, '%d positional arguments' % len(pos), s['where'])
            bad = True
        if bad:
            continue
        dests = {dest(n, k) for n, k, w in s['opts']} | {'func', 'plusargs'}
        if name in ('convert', 'merge'):
            ctx.decide('dispatch', '%s --out' % name, opts['--out'][1].get('required') is True or 'default' in opts['--out'][1], 'the output is not required', opts['--out'][2])
        nargs = pos[0][1].get('nargs')
        ctx.decide('dispatch', '%s inputs' % name, (nargs in ('+', '*')) == multi and nargs in (None, '+', '*'), 'takes %s inputs' % (nargs or 'one'), pos[0][2])
        for o in ('--out', '--input-format', '--output-format'):
            act = opts[o][1].get('action')
            ctx.decide('dispatch', '%s %s' % (name, o), act in (None, 'store') and 'nargs' not in opts[o][1] and 'const' not in opts[o][1],
                       'the option does not hold the text given', opts[o][2])
        ds = [opts['--out'][0], opts['--input-format'][0], opts['--output-format'][0], pos[0][0]]
        ctx.decide('dispatch', '%s destinations' % name, len(set(ds)) == 4, 'options share a destination', s['where'])
        spec = dict(inf=opts['--input-format'][0], outf=opts['--output-format'][0], out=opts['--out'][0], inp=pos[0][0], multi=multi, kind=kind)
        cl = Cmd(prog, spec)
        P = Paths(prog, cl)
        w0 = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.short)
        try:
            outs = P.run(fi, [ARGS])
        except Abort as e:
            ctx.und('read-before-write', name, str(e), w0)
            continue
        ctx.functions |= P.visited
        ctx.sites += P.sites
        ctx.steps += P.steps
        kinds = {k for k, w in cl.events}
        for d in sorted(cl.used):
            # the options read must exist, or reading them fails
            ctx.decide('dispatch', '%s args.%s' % (name, d), d in dests or d == 'libucis', 'the option is not declared for %s' % name, w0)
        rules = ['formats-checked-first', 'requested-formats', 'every-input', 'read-before-write', 'only-the-output']
        hit = {r for r, _, _ in cl.viol} | {r for r, _, _ in cl.und}
        for (r, what, msg), w in sorted(cl.viol.items()):
            ctx.viol(r, '%s: %s' % (name, what), msg, w)
        for (r, what, msg), w in sorted(cl.und.items()):
            ctx.und(r, '%s: %s' % (name, what), msg, w)
        need = {'read'} | ({'merge', 'output: write'} if kind == 'db' else {'report'})
        if need - kinds:
            if not any(k == 'val' for k, s2, v in outs):
                ctx.viol('output-produced', name, 'the command always fails', w0)
            else:
                ctx.viol('every-input' if 'read' in need - kinds else 'output-produced', name, 'never does: %s' % ', '.join(sorted(need - kinds)), w0)
        for (k, w), n in sorted(cl.events.items()):
            for r in rules:
                if r not in hit:
                    ctx.ok(r, '%s: %s at %s' % (name, k, w), '%d states' % n, w)
        if multi:
            readels = {e for k, s2, v in outs for e in s2.aux.get('ever', ())}
            sk = sorted({w for el, w, kd in getattr(cl, 'skips', []) if el in readels})
            bk = sorted({w for el, w in getattr(cl, 'breaks', []) if el in readels})
            if sk:
                ctx.viol('every-input', name + ': each input', 'an input can be skipped', sk[0])
            if bk:
                ctx.viol('every-input', name + ': each input', 'reading stops before the last input', bk[0])
            if not sk and not bk:
                ctx.ok('every-input', name + ': each input', 'every iteration reads its input or fails', w0)
        sw, np_, nv = {}, 0, 0
        for k, s2, v in outs:
            if k != 'val':
                continue
            nv += 1
            rets.setdefault(name, set()).add(v)
            for what, w in s2.aux.get('failed', ()):
                sw.setdefault(what, w)
            if not s2.aux.get('done') and not s2.aux.get('failed'):
                np_ += 1
        for what, w in sw.items():
            ctx.viol('failures-propagate', '%s: %s' % (name, what), 'the command goes on to succeed after this failed', w)
        if not sw:
            ctx.ok('failures-propagate', name, '%d final states' % len(outs), w0)
        ctx.decide('output-produced', name, not np_ and nv, 'can return without having written the output' if nv else 'never succeeds', w0)
        for m in sorted({m for k, s2, v in outs if k == 'val' for m in cl.validated(s2)}):
            ctx.viol('formats-checked-first', '%s: %s' % (name, m), 'the command can succeed with an unregistered format', w0)
    status(ctx, prog, subs, rets)
    cmdline(ctx, prog)
    surface(ctx, prog)


def plus(c, el):
    """True/False: the condition says that el begins with '+' / that it does not; None: something else."""
    if c.op == 'not':
        r = plus(c.a[0], el)
        return None if r is None else not r
    s = eq_sides(c)
    if s and const('+') in s and el is not None:
        o = s[1] if s[0] == const('+') else s[0]
        if o.op in ('index', 'slice') and o.a[0] == el and o.a[1] in (const(0), NONE) and (o.op == 'index' or o.a[2] == const(1)):
            return True
    if c.op == 'truth':
        c = c.a[0]
    if c.op == 'call' and c.a[0] == el and c.a[1] == 'startswith' and c.a[2] == (const('+'),):
        return True
    return None


def cmdline(ctx, prog):
    """The parser built by get_parser is given the command line, and its result goes to the selected command."""
    ctx.rule('command-line', 'the sub-commands belong to the parser that parses the command line; every argument but a +argument is parsed, in order, and the result is what the command is run with')
    f = prog.func('ucis.__main__.get_parser')
    w1 = '%s:%d (get_parser)' % (rel(f.module.path), f.node.lineno)
    I = Interp(prog, opaque_classes=set(), opaque_funcs=set())
    r = I.callq('ucis.__main__.get_parser', [], st=State())
    calls = [e for e in I.log if e.kind == 'call' and e.name is not None]
    subs = {e.result: e.recv for e in calls if e.name == 'add_subparsers'}
    adds = [e for e in calls if e.name == 'add_parser']
    for e in adds:
        n = e.args[0] if e.args else e.kw.get('name', NONE)
        if n.op != 'const':
            continue
        own = subs.get(e.recv)
        if r is None or r == NONE or r.op == 'const':
            ctx.viol('command-line', 'get_parser', 'yields no parser', w1)
            break
        if own is not None and r.op == 'new':
            ctx.decide('command-line', 'sub-command %s' % n.a[0], own == r, 'the sub-command is not declared on the parser returned', w1)
        else:
            ctx.und('command-line', 'sub-command %s' % n.a[0], 'declared on %s, returned %s' % (str(e.recv)[:40], str(r)[:40]), w1)
    ctx.absorb(I)
    f = prog.func('ucis.__main__.main')
    w0 = '%s:%d (main)' % (rel(f.module.path), f.node.lineno)
    I = Interp(prog, opaque_funcs={'ucis.__main__.get_parser'} | {s['func'].qualname for s in parsers(prog, ctx).values() if isinstance(s['func'], FuncInfo)})
    st = State()
    I.callq('ucis.__main__.main', [], st=st)
    ctx.absorb(I)
    calls = [e for e in I.log if e.kind == 'call' and e.name is not None]
    parse = [e for e in calls if e.name in ('parse_args', 'parse_known_args')]
    if not parse:
        if I.unbound or any(e.kind in ('undef', 'badcall') for e in I.log):
            return
        ctx.und('command-line', 'parse_args', 'no call that parses the command line is seen', w0)
        return
    for e in parse:
        src = e.recv
        ctx.decide('command-line', 'parser', src is not None and 'get_parser' in str(src), 'the command line is parsed by %s' % str(src)[:60], w0) if src is not None and src.op in ('new', 'const') else \
            ctx.und('command-line', 'parser', 'parsed by %s' % str(src)[:60], w0)
        a = e.args[0] if e.args else e.kw.get('args', NONE)
        given(ctx, I, st, a, w0)
    run = [e for e in calls if e.name == 'func']
    for e in run:
        a = e.args[0] if e.args else None
        if a in [p.result for p in parse] and e.recv == a:
            ctx.ok('command-line', 'command', 'run with the parsed options', w0)
        elif a is None or a.op in ('const', 'ref', 'new'):
            ctx.viol('command-line', 'command', 'the command is run with %s, not with the parsed options' % (a,), w0)
        else:
            ctx.und('command-line', 'command', 'run with %s' % str(a)[:60], w0)


def given(ctx, I, st, a, w0):
    what = 'arguments parsed'
    if a == NONE:
        ctx.und('command-line', what, 'the whole command line, +arguments included', w0)
        return
    if a.op != 'ref' or I.obj(a).kind != 'list':
        if a.op == 'const':
            ctx.viol('command-line', what, 'parses %s instead of the command line' % a, w0)
        else:
            ctx.und('command-line', what, 'parses %s' % str(a)[:60], w0)
        return
    evs = list(I.contents(a, st))
    if not evs:
        ctx.viol('command-line', what, 'no argument is parsed', w0)
        return
    argv = [e for e in evs if len(e.loops) == 1 and str(e.loops[0].domain) in ('sys.argv', 'ext:sys.argv', 'ext(sys.argv)')]
    if len(argv) != len(evs):
        if all(e.value is not None and e.value.op == 'const' for e in evs):
            ctx.viol('command-line', what, 'parses %s instead of the command line' % ', '.join(str(e.value) for e in evs), w0)
        else:
            ctx.und('command-line', what, 'arguments come from %s' % ', '.join(sorted({str(l.domain)[:40] for e in evs for l in e.loops})), w0)
        return
    if len(evs) != 1:
        ctx.und('command-line', what, 'arguments are added in %d places' % len(evs), w0)
        return
    e, l = evs[0], evs[0].loops[0]
    el = mk('elem', l)
    if e.value != el:
        ctx.und('command-line', what, 'parses %s' % str(e.value)[:60], w0)
        return
    ix = mk('idx', l)
    lo = [g for g, t in e.guards if t == 'filter' and subterms_in(g, ix)]
    rest = [g for g, t in e.guards if g not in lo]
    first = oper('>=', ix, const(1))
    if lo != [first]:
        later = [oper('>=', ix, const(n)) for n in range(2, 6)]
        if any(g in later for g in lo):
            ctx.viol('command-line', what, 'the first argument is not parsed', w0)
        elif not lo:
            ctx.viol('command-line', what, 'the program name is parsed as an argument', w0)
        elif any(subterms_in(g, ix) and g.op == 'op' and g.a[0] in ('<', '<=', '==') and g.a[2].op == 'const' for g in lo):
            ctx.viol('command-line', what, 'only the first arguments are parsed', w0)
        else:
            ctx.und('command-line', what, 'positions %s' % ', '.join(map(str, lo)), w0)
        return
    pl = [plus(g, el) for g in rest]
    if l.trunc:
        ctx.und('command-line', what, 'the arguments may end early', w0)
    elif pl == [False]:
        ctx.ok('command-line', what, 'each argument not beginning with +', w0)
    elif not rest:
        ctx.und('command-line', what, '+arguments are parsed as well', w0)
    elif all(p is True for p in pl):
        ctx.viol('command-line', what, 'only the +arguments are parsed', w0)
    elif any(y.op == 'in' and y.a[0] == const('+') and y.a[1] == el for g in rest for y in subterms(g)):
        ctx.viol('command-line', what, 'an argument that merely contains a + is left out', w0)
    elif FALSE in rest:
        ctx.viol('command-line', what, 'no argument is parsed', w0)
    else:
        ctx.und('command-line', what, 'arguments under %s' % ' and '.join(map(str, rest))[:80], w0)


def subterms_in(g, x):
    return any(y is x or y == x for y in subterms(g))


class Main(Client):
    def __init__(self, prog):
        self.prog = prog

    def inline(self, fi):
        return fi.module.name == 'ucis.__main__' and fi.name != 'get_parser' or not fi.module.name.startswith('ucis.') and fi.module.name != 'ucis'

    def fn(self, st, fr, node):
        self.seen = True
        s = st.copy()
        s.aux['called'] = True
        f = s.copy()
        f.aux['failed'] = True
        return [('val', s, ('cmdret',)), ('raise', f, ('exc', None, ('cmd',)))]

    def call(self, st, fr, node, f, args, kw):
        if f[0] == 'attr' and f[2] == 'func':
            return self.fn(st, fr, node)
        if f == ('ext', 'os._exit'):
            return [('raise', st, ('exc', 'SystemExit', args[0] if args else NONE))]
        return None

    def method(self, st, fr, node, o, name, args, kw):
        if name == 'func':
            return self.fn(st, fr, node)
        return None

    def known(self, st, k):
        if k == ('op', '==', ('ext', '__name__'), pc('__main__')):
            return True
        return None


def code(v):
    """Exit status a value gives: 0, 1, 'cmdret' or None (unknown)."""
    if v == ('cmdret',):
        return 'cmdret'
    if is_const(v):
        x = v[2]
        if x is None:
            return 0
        if isinstance(x, (int, bool)):
            return 0 if int(x) & 0xff == 0 else 1
        return 1
    if v[0] == 'op' and v[1] in ('str', 'Mod', 'fstr', 'repr', 'const.format', 'Add'):
        return 1
    if v[0] in ('exc',):
        return 1
    return None


def status(ctx, prog, subs, rets):
    m = prog.modules.get('ucis.__main__')
    fi = prog.func('ucis.__main__.main')
    if m is None or fi is None:
        raise AnchorError('ucis.__main__.main is gone')
    w0 = '%s:%d (main)' % (rel(m.path), fi.node.lineno)
    cmdok = all(code(v) == 0 for vs in rets.values() for v in vs)
    for way in ('python -m ucis', 'console script'):
        cl = Main(prog)
        cl.seen = False
        P = Paths(prog, cl)
        try:
            if way == 'console script':
                outs = P.run(fi, [])
                outs = [('raise', s, ('exc', 'SystemExit', v)) if k == 'val' else (k, s, v) for k, s, v in outs]
            else:
                body = [n for n in m.tree.body if isinstance(n, ast.If) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, ast.Try)]
                outs = P.run_body(m, body)
                outs = [('raise', s, ('exc', 'SystemExit', NONE)) if k == 'next' else (k, s, v) for k, s, v in outs]
        except Abort as e:
            ctx.und('exit-status', way, str(e), w0)
            continue
        ctx.functions |= P.visited
        ctx.sites += P.sites
        ctx.steps += P.steps
        if not cl.seen:
            ctx.viol('exit-status', way, 'the selected command is never run', w0)
            continue
        fails = goods = 0
        for k, s, v in outs:
            if v[1] == 'SystemExit':
                c = code(v[2])
            else:
                c = 1
            if c == 'cmdret':
                c = 0 if cmdok else None
            if s.aux.get('failed'):
                fails += 1
                if c == 0:
                    ctx.viol('exit-status', way, 'a failing command ends with exit status zero', w0)
                elif c is None:
                    ctx.und('exit-status', way, 'exit status of a failing command is %s' % (show(v[2]),), w0)
            elif s.aux.get('called'):
                if v[1] == 'SystemExit' or v[1] is not None and v[1] != 'SystemExit':
                    goods += 1
                    if c == 1 and not (v[1] != 'SystemExit' and v[2] and v[2][0] == 'from'):
                        ctx.viol('exit-status', way, 'a successful command ends with a nonzero exit status', w0)
                    elif c is None:
                        ctx.und('exit-status', way, 'exit status of a successful command is %s' % (show(v[2]),), w0)
            elif v[1] == 'SystemExit' and c == 0 and v[2] == NONE:
                ctx.viol('exit-status', way, 'ends normally without running the command', w0)
        if fails and goods:
            ctx.ok('exit-status', way, '%d failing and %d successful final states' % (fails, goods), w0)
        elif not fails and goods:
            ctx.viol('exit-status', way, 'failures of the command are not seen', w0)


OPS = {'read', 'load', 'parse', 'validate', 'assertValid', 'write', 'from_json', 'merge', 'report', 'dump', 'open', 'validate_ucis_xml', 'loads', 'safe_load'}
SURFACE = ['ucis.xml.xml_factory.XmlFactory.read', 'ucis.xml.xml_factory.XmlFactory.write', 'ucis.xml.validate_ucis_xml', 'ucis.xml.db_format_if_xml.DbFormatIfXml.read',
           'ucis.yaml.db_format_if_yaml.DbFormatIfYaml.read', 'ucis.yaml.yaml_reader.YamlReader.load', 'ucis.xml.xml_ucis.XmlUCIS.write',
           'ucis.report.format_rpt_json.FormatRptJson.report', 'ucis.report.format_rpt_text.FormatRptText.report']


class Surface(Client):
    def __init__(self, prog):
        self.prog = prog

    def inline(self, fi):
        if fi.qualname in SURFACE or fi.name.startswith('_') and not fi.name.startswith('__'):
            return True
        return any(isinstance(n, (ast.Try, ast.With)) for n in ast.walk(fi.node)) and not has_loop(fi)

    def fail(self, st, fr, node, what, v, outs=None):
        f = st.copy()
        f.aux['failed'] = f.aux.get('failed', frozenset()) | {(what, self.P.where(fr, node))}
        return [('val', st, v), ('raise', f, ('exc', None, ('from', self.P.site(fr, node))))]

    def call(self, st, fr, node, f, args, kw):
        if f[0] == 'ext':
            n = f[1]
            if n in OPENERS:
                return self.fail(st, fr, node, n, ('file', self.P.site(fr, node)))
            if n.rsplit('.', 1)[-1] in OPS:
                return self.fail(st, fr, node, n, ('res', self.P.site(fr, node)))
        if f[0] in ('fn', 'bm'):
            fi = self.P.table[f[1]][0]
            if not self.inline(fi) or fi.is_gen:
                return self.fail(st, fr, node, fi.short, ('res', self.P.site(fr, node))) if fi.name in OPS or fi.name.split('_')[0] in OPS else None
        return None

    def method(self, st, fr, node, o, name, args, kw):
        if o[0] == 'file':
            if name == 'close':
                return [('val', st, NONE)]
            return self.fail(st, fr, node, name, ('res', self.P.site(fr, node)))
        if name in OPS and o[0] in ('res', 'param', 'attr', 'mod'):
            if o[0] == 'mod':
                return None
            return self.fail(st, fr, node, name, ('res', self.P.site(fr, node)))
        return None


def has_loop(fi):
    return any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(fi.node))


def surface(ctx, prog):
    for q in SURFACE:
        fi = prog.func(q)
        if fi is None:
            continue
        cl = Surface(prog)
        P = Paths(prog, cl)
        P.stack = [fi]
        args = []
        for i, p in enumerate(fi.params):
            if i == 0 and fi.cls is not None and not fi.is_static:
                P.clsval(fi.cls)
                args.append(('obj', fi.cls.qualname, 'self') if not fi.is_class else P.clsval(fi.cls))
            else:
                args.append(('param', p))
        w0 = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.short)
        try:
            outs = P.call_fi(fi, args, {}, PState(), None, fi.node, None)
        except Abort as e:
            ctx.und('errors-surface', fi.short, str(e), w0)
            continue
        ctx.functions |= P.visited
        ctx.sites += P.sites
        ctx.steps += P.steps
        sw = {}
        for k, s, v in outs:
            if k == 'val':
                for what, w in s.aux.get('failed', ()):
                    sw.setdefault(what, w)
        for what, w in sw.items():
            ctx.viol('errors-surface', '%s: %s' % (fi.short, what), 'returns normally although this failed', w)
        if not sw:
            ctx.ok('errors-surface', fi.short, '%d final states' % len(outs), w0)
