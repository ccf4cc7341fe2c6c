"""C20: every file opened is closed on every path; caller streams are left open."""
import ast
from .base import *
from vflow.paths import Paths, PState, Client, NONE, const, is_const, SAFE, SAFE_EXT, mentions
from vflow.program import walk_own, FuncInfo, ClassInfo

OPENERS = {'open', 'io.open', 'gzip.open', 'bz2.open', 'lzma.open', 'lz4.frame.open', 'codecs.open', 'os.fdopen', 'io.FileIO', 'gzip.GzipFile',
           'bz2.BZ2File', 'lzma.LZMAFile', 'tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile', 'builtins.open', 'lz4.frame.LZ4FrameFile', 'zipfile.ZipFile', 'tarfile.open'}
WRAPPERS = {'io.TextIOWrapper', 'io.BufferedReader', 'io.BufferedWriter', 'codecs.getreader', 'gzip.open', 'gzip.GzipFile', 'lz4.frame.open', 'lz4.frame.LZ4FrameFile', 'bz2.open'}
PATHS = {'pathlib.Path', 'pathlib.PurePath'}
# operation -> position of the stream the caller supplies
STREAMS = [('ucis.xml.xml_factory.XmlFactory.read', 'file_or_filename'), ('ucis.xml.xml_factory.XmlFactory.write', 'file_or_filename'),
           ('ucis.xml.validate_ucis_xml', 'file_or_filename'), ('ucis.xml.xml_reader.XmlReader.read', None), ('ucis.xml.xml_writer.XmlWriter.write', None),
           ('ucis.yaml.yaml_reader.YamlReader.load', None), ('ucis.report.format_rpt_json.FormatRptJson.report', None),
           ('ucis.report.format_rpt_text.FormatRptText.report', None), ('ucis.report.text_coverage_report_formatter.TextCoverageReportFormatter.report', 'init'),
           ('ucis.xml.db_format_if_xml.DbFormatIfXml.read', None), ('ucis.xml.xml_ucis.XmlUCIS.write', None)]


class Graph(object):
    """Which functions open or close something, directly or through calls."""

    def __init__(self, prog):
        self.prog = prog
        self.fns = {}
        self.direct = {}
        self.edges = {}
        self.safe = {}
        for m in prog.modules.values():
            for b in m.bind.values():
                if b[0] == 'func':
                    self.add(b[1])
                elif b[0] == 'class':
                    self.addc(b[1])
        self.opens = self.close_over({k for k, d in self.direct.items() if 'open' in d})
        self.touch = self.close_over({k for k, d in self.direct.items() if d})

    def addc(self, c):
        for f in list(c.methods.values()) + list(c.setters.values()):
            self.add(f)
        for k in c.inner.values():
            self.addc(k)

    def add(self, fi):
        k = fi.qualname
        self.fns[k] = fi
        d, es = set(), set()
        types = {}
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                c = self.static(n.value.func, fi)
                if isinstance(c, ClassInfo):
                    types[n.targets[0].id] = c
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call):
                f = n.func
                r = self.static(f, fi, types)
                if isinstance(r, str) and (r in OPENERS or r in PATHS or r.startswith('contextlib.')):
                    d.add('open' if r in OPENERS or r in PATHS else 'close')
                elif isinstance(f, ast.Attribute) and f.attr == 'open':
                    d.add('open')
                elif isinstance(r, FuncInfo):
                    es.add(r.qualname)
                elif isinstance(r, ClassInfo):
                    i = self.prog.find_method(r, '__init__')
                    if i:
                        es.add(i.qualname)
            if isinstance(n, ast.Attribute) and n.attr in ('close', '__exit__', '__enter__'):
                d.add('close')
            if isinstance(n, ast.With):
                for it in n.items:
                    if isinstance(it.context_expr, (ast.Name, ast.Attribute)):
                        d.add('close')
        self.direct[k] = d
        self.edges[k] = es

    def static(self, f, fi, types={}):
        """What a callee expression denotes, or None."""
        if isinstance(f, ast.Name):
            b = self.local(fi, f.id) or self.prog.lookup(fi.module, f.id)
            if b is None:
                return f.id
            return b[1] if b[0] in ('func', 'class', 'ext') else None
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name):
                if fi.cls is not None and fi.params and v.id == fi.params[0]:
                    return self.prog.find_method(fi.cls, f.attr)
                if v.id in types:
                    return self.prog.find_method(types[v.id], f.attr)
                b = self.local(fi, v.id) or self.prog.lookup(fi.module, v.id)
                if b and b[0] == 'class':
                    return self.prog.find_method(b[1], f.attr) or b[1].inner.get(f.attr)
                if b and b[0] == 'module' and b[1] in self.prog.modules:
                    x = self.prog.lookup(self.prog.modules[b[1]], f.attr)
                    return x[1] if x and x[0] in ('func', 'class', 'ext') else None
                if b and b[0] == 'ext':
                    return b[1] + '.' + f.attr
                if b is None:
                    return v.id + '.' + f.attr
            if isinstance(v, ast.Call):
                c = self.static(v.func, fi, types)
                if isinstance(c, ClassInfo):
                    return self.prog.find_method(c, f.attr)
            s = ast.unparse(f)
            return s if s in OPENERS or s in PATHS else None
        return None

    def local(self, fi, name):
        """A name imported inside the function."""
        if not hasattr(fi, '_imports'):
            fi._imports = {}
            for n in ast.walk(fi.node):
                if isinstance(n, ast.ImportFrom):
                    mod = fi.module.absname(n)
                    for a in n.names:
                        b = self.prog.lookup(self.prog.modules[mod], a.name) if mod in self.prog.modules else ('ext', mod + '.' + a.name)
                        if b:
                            fi._imports[a.asname or a.name] = b
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname or '.' not in a.name:
                            fi._imports[a.asname or a.name] = ('module', a.name) if a.name in self.prog.modules else ('ext', a.name)
                        else:
                            fi._imports[a.name.split('.')[0]] = ('ext', a.name.split('.')[0])
        return fi._imports.get(name)

    def close_over(self, s):
        s = set(s)
        ch = True
        while ch:
            ch = False
            for k, es in self.edges.items():
                if k not in s and es & s:
                    s.add(k)
                    ch = True
        return s

    def may_raise(self, fi, busy=()):
        k = fi.qualname
        if k not in self.safe:
            if k in busy:
                return False
            r = False
            notes = set()
            for n in ast.walk(fi.node):
                if isinstance(n, ast.AnnAssign):
                    notes |= {id(x) for x in ast.walk(n.annotation)}
            for n in walk_own(fi.node) if not isinstance(fi.node, ast.Lambda) else [fi.node.body]:
                if id(n) in notes:
                    continue
                if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.Yield, ast.Await)):
                    r = True
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                    r = True
                if isinstance(n, ast.Call):
                    x = self.static(n.func, fi)
                    if isinstance(x, str) and (x in SAFE or x.startswith(SAFE_EXT)):
                        continue
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
                        continue
                    if isinstance(x, FuncInfo) and not self.may_raise(x, busy + (k,)):
                        continue
                    if isinstance(x, ClassInfo):
                        i = self.prog.find_method(x, '__init__')
                        if i is None or not self.may_raise(i, busy + (k,)):
                            continue
                    r = True
                if r:
                    break
            self.safe[k] = r
        return self.safe[k]


def plain(fi):
    """A short computation without loops: what it answers matters to the conditions it is used in."""
    if not hasattr(fi, '_plain'):
        b = [x for x in fi.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] if isinstance(fi.node.body, list) else []
        fi._plain = bool(b) and not fi.is_gen and len(b) <= 5 and fi.name != '__init__' and isinstance(b[-1], (ast.Return, ast.If)) and \
            all(isinstance(x, (ast.Return, ast.If, ast.Assign, ast.Import, ast.ImportFrom, ast.alias, ast.expr, ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop, ast.keyword))
                for y in b for x in ast.walk(y)) and \
            all(isinstance(x.func, ast.Name) and x.func.id in SAFE | {'getattr', 'StringIO', 'BytesIO'} or isinstance(x.func, ast.Attribute) and x.func.attr in ('join', 'dirname', 'abspath', 'lower', 'endswith', 'startswith', 'get', 'realpath', 'StringIO', 'BytesIO')
                for y in b for x in ast.walk(y) if isinstance(x, ast.Call))
    return fi._plain


class Files(Client):
    def __init__(self, prog, graph):
        self.prog = prog
        self.g = graph
        self.viol = {}
        self.opened = {}
        self.streams = set()

    def inline(self, fi):
        q = fi.qualname
        if q not in self.g.direct:
            return True          # a nested function
        return q in self.g.touch or plain(fi)

    def may_raise(self, fi):
        return self.g.may_raise(fi) if fi.qualname in self.g.direct else True

    def report(self, kind, rid, where, msg):
        self.viol.setdefault((kind, rid), (msg, where))

    def new(self, st, fr, node, mode):
        rid = self.P.site(fr, node)
        w = self.P.where(fr, node)
        out = [('raise', st, ('exc', None, ('from', rid)))]
        s = st.copy()
        for r in (rid, rid + '#2'):
            if s.res.get(r, ('closed',))[0] == 'closed':
                break
        else:
            self.report('leak', rid, w, 'opened again before it was closed')
        for d in (s.facts,):
            for c in [c for c in d if mentions(c, ('file', r))]:
                del d[c]
        s.res[r] = ('open', w)
        self.opened.setdefault(rid, w)
        out.append(('val', s, ('file', r)))
        return out

    def call(self, st, fr, node, f, args, kw):
        if f[0] == 'ext':
            n = f[1]
            if n in WRAPPERS and args and args[0][0] == 'file':
                return [('val', st, args[0]), ('raise', st, ('exc', None, ('from', self.P.site(fr, node))))]
            if n in OPENERS:
                return self.new(st, fr, node, None)
            if n in PATHS:
                return [('val', st, ('path',) + tuple(args))]
            if n in ('io.StringIO', 'io.BytesIO'):
                return [('val', st, ('mem', self.P.site(fr, node)))]
            if n in SAFE or n.startswith(SAFE_EXT) or n.startswith('contextlib.') or n in ('getattr', 'setattr', 'sys.exit'):
                return None
            import builtins
            b = getattr(builtins, n, None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return None
        elif f[0] in ('fn', 'bm', 'lf'):
            fi = self.P.table[f[1]][0]
            if self.inline(fi) and not fi.is_gen or fi.is_ctxmgr:
                return None
        elif f[0] == 'cls':
            return None
        self.uses(st, fr, node, args + list(kw.values()))
        return None

    def uses(self, st, fr, node, vals):
        for v in vals:
            if v[0] == 'file' and st.res.get(v[1], ('closed',))[0] == 'closed':
                self.report('use', v[1].split('#')[0], self.P.where(fr, node), 'used after it was closed')

    def method(self, st, fr, node, o, name, args, kw):
        if o[0] == 'path' and name == 'open':
            return self.new(st, fr, node, None)
        if o[0] == 'file':
            if name == 'close':
                return self.close(st, fr, node, o)
            if name in ('__exit__',):
                return self.close(st, fr, node, o)
            if name == '__enter__':
                return [('val', st, o)]
            self.uses(st, fr, node, [o])
            return self.P.opaque(st, fr, node, ('attr', o, name), args, True)
        if name == 'close' or name == '__exit__':
            self.closes(st, fr, node, o)
        if name == 'detach' and o[0] == 'file':
            raise Abort('detach')
        return None

    def getattr(self, st, fr, node, o, name):
        if o[0] == 'file' and name == 'close':
            return [('val', st, ('closer', o))]
        if o[0] == 'file' and name == 'closed':
            return [('val', st, const(st.res.get(o[1], ('closed',))[0] == 'closed'))]
        return None

    def closes(self, st, fr, node, o):
        """Something that is not a file of ours is closed."""
        if o in self.streams or o[0] == 'ext' and o[1] in ('sys.stdout', 'sys.stderr', 'sys.stdin'):
            if st.facts.get(('op', 'isinst', o, ('ext', 'str'))) is True:
                return
            self.report('caller', o[-1] if o[0] == 'ext' else o[1], self.P.where(fr, node), 'closes a stream it did not open')

    def close(self, st, fr, node, v):
        s = st.copy()
        s.res[v[1]] = ('closed', s.res.get(v[1], ('', ''))[1])
        return [('val', s, NONE)]

    def opaque_call(self, st, fr, node, f, args, kw):
        if f[0] == 'closer':
            return self.close(st, fr, node, f[1])
        return self.P.opaque(st, fr, node, f, args, True)

    def enter_opaque(self, st, fr, node, v):
        return [('val', st, v)]

    def exit_opaque(self, st, fr, node, v):
        self.closes(st, fr, node, v)
        return [('val', st, NONE)]

    def compare(self, st, op, a, b):
        return None


def reach(v, st, seen=None):
    """Resources a value gives access to."""
    seen = set() if seen is None else seen
    out = set()
    if not isinstance(v, tuple) or v in seen:
        return out
    seen.add(v)
    if v and v[0] == 'file':
        out.add(v[1])
    for x in v:
        if isinstance(x, tuple):
            out |= reach(x, st, seen)
    for (o, a), w in st.heap.items():
        if o == v:
            out |= reach(w, st, seen)
    return out


def c20(ctx, prog):
    ctx.rule('closed-on-every-path', 'each file opened is closed when the operation returns and when it fails, unless it is handed to the caller')
    ctx.rule('no-use-after-close', 'no file is used after it was closed')
    ctx.rule('caller-streams-stay-open', 'streams the caller supplies, and the standard streams, are not closed')
    g = Graph(prog)
    roots = sorted(q for q in g.opens if not g.fns[q].is_ctxmgr)
    streams = {}
    for q, p in STREAMS:
        fi = prog.func(q)
        if fi is None:
            continue
        ps = fi.params
        if p == 'init':
            init = prog.find_method(fi.cls, '__init__')
            if init is not None and len(init.params) > 2:
                streams[q] = init.params[2]
            continue
        if p is None:
            p = {'read': 1, 'load': 1, 'write': 1, 'report': 2}.get(fi.name, 1)
            p = ps[p] if p < len(ps) else None
        if p and p in ps:
            streams[q] = p
    if not g.opens:
        raise AnchorError('no operation opens a file')
    seen_open = {}
    for q in sorted(set(roots) | set(streams)):
        fi = g.fns.get(q) or prog.func(q)
        if fi is None:
            continue
        if q not in g.touch:
            ctx.functions.add(q)
            ctx.ok('caller-streams-stay-open', '%s: %s' % (fi.short, streams.get(q)), 'nothing it calls closes anything', '%s:%d' % (fi.module.path.split('/src/')[-1], fi.node.lineno))
            continue
        cl = Files(prog, g)
        P = Paths(prog, cl)
        P.stack = [fi]
        args = []
        for i, p in enumerate(fi.params):
            if i == 0 and fi.cls is not None and not fi.is_static:
                v = ('obj', fi.cls.qualname, 'self') if not fi.is_class else P.clsval(fi.cls)
                P.clsval(fi.cls)
            else:
                v = ('param', p)
            args.append(v)
            if streams.get(q) == p:
                cl.streams.add(v)
        st = PState()
        try:
            init = prog.find_method(fi.cls, '__init__') if fi.cls is not None else None
            if streams.get(q) and streams[q] not in fi.params and init is not None:
                ia = [args[0]] + [('param', p) for p in init.params[1:]]
                cl.streams.add(('param', streams[q]))
                cl.always = {init.qualname}
                for k, s, v in P.call_fi(init, ia, {}, st, None, init.node, None):
                    if k == 'val':
                        st = s
            outs = P.call_fi(fi, args, {}, st, None, fi.node, None)
        except Abort as e:
            ctx.und('closed-on-every-path', q, str(e))
            continue
        ctx.functions |= P.visited | {q}
        ctx.sites += P.sites
        ctx.steps += P.steps
        leaks, handed = {}, set()
        for k, s, v in outs:
            ret = reach(v, s) if k == 'val' else set()
            for r, (stt, w) in s.res.items():
                rid = r.split('#')[0]
                if stt != 'open':
                    continue
                if r in ret:
                    handed.add(rid)
                    continue
                if k == 'val' and kept(r, s):
                    how = 'still open (kept in an attribute) when %s returns' % fi.short
                else:
                    how = 'still open when %s %s' % (fi.short, 'returns' if k == 'val' else 'fails' + cause(v))
                leaks.setdefault(rid, (how, w))
        for rid, w in sorted(cl.opened.items()):
            seen_open.setdefault(rid, w)
            if rid in leaks:
                how, w = leaks[rid]
                ctx.viol('closed-on-every-path', '%s in %s' % (w.split(' ')[0].split('/')[-1].split(':')[0] + ' ' + w.split('(')[-1].rstrip(')'), fi.short), how, w)
            else:
                ctx.ok('closed-on-every-path', '%s opened at %s' % (fi.short, w), 'handed to the caller' if rid in handed else 'closed on every outcome (%d)' % len(outs), w)
            x = cl.viol.get(('use', rid))
            if x:
                ctx.viol('no-use-after-close', '%s opened at %s' % (fi.short, w), x[0], x[1])
            else:
                ctx.ok('no-use-after-close', '%s opened at %s' % (fi.short, w), '', w)
        for (kind, rid), (msg, w) in cl.viol.items():
            if kind == 'leak':
                ctx.viol('closed-on-every-path', '%s opened at %s' % (fi.short, rid), msg, w)
        cal = [(rid, x) for (kind, rid), x in cl.viol.items() if kind == 'caller']
        if q in streams or cal or any(True for _ in ()):
            if cal:
                for rid, (msg, w) in cal:
                    ctx.viol('caller-streams-stay-open', '%s: %s' % (fi.short, rid), msg, w)
            else:
                ctx.ok('caller-streams-stay-open', '%s: %s' % (fi.short, streams.get(q)), '', '%s:%d' % (fi.module.path.split('/src/')[-1], fi.node.lineno))
    # every open site of the source is reached by some analysed operation
    for q, fi in sorted(g.fns.items()):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call):
                r = g.static(n.func, fi)
                if isinstance(r, str) and r in OPENERS and '%s:%d:%d' % (fi.module.name, n.lineno, n.col_offset) not in seen_open:
                    ctx.und('closed-on-every-path', '%s:%d' % (q, n.lineno), 'the open is not reached by the analysis')


def kept(r, st):
    return any(r in reach(w, st) for w in st.heap.values())


def cause(v):
    w = v[2] if isinstance(v, tuple) and len(v) > 2 else None
    if isinstance(w, tuple) and w and w[0] == 'from':
        return ' (error raised at %s)' % w[1].rsplit(':', 1)[0]
    return ''
