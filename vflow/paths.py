"""Path-sensitive typestate interpreter (exceptional edges included).

Executes the syntax tree of a function over abstract states: values are symbolic
tuples, conditions are remembered as facts (so correlated branches agree), every
operation that can fail has a raising outcome, loops run to a fixpoint of the
state set.  A client decides what the calls mean and watches the states."""
import ast
import builtins
from .engine import Abort
from .program import FuncInfo, ClassInfo

NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)
SAFE = {'type', 'isinstance', 'issubclass', 'str', 'len', 'repr', 'bool', 'print', 'hasattr', 'id', 'list', 'dict', 'set', 'tuple', 'callable',
        'frozenset', 'object', 'super', 'range', 'enumerate', 'zip', 'reversed', 'format'}
SAFE_EXT = ('logging.', 'os.path.', 'traceback.', 'warnings.', 'typing.', 'argparse.', 'sys.stderr', 'sys.stdout', 'contextlib.', 'functools.')


def const(v):
    return ('c', type(v).__name__, v)


def is_const(v):
    return v[0] == 'c'


class Frame(object):
    def __init__(self, fid, module, fi=None, outer=None, owner=None):
        self.fid = fid
        self.module = module
        self.fi = fi
        self.outer = outer
        self.owner = owner       # class whose method runs
        self.on_yield = None
        self.globals = set()
        self.nonlocals = set()


class PState(object):
    __slots__ = ('vars', 'heap', 'facts', 'res', 'aux')

    def __init__(self):
        self.vars, self.heap, self.facts, self.res, self.aux = {}, {}, {}, {}, {}

    def copy(self):
        s = PState()
        s.vars, s.heap, s.facts, s.res, s.aux = dict(self.vars), dict(self.heap), dict(self.facts), dict(self.res), dict(self.aux)
        return s

    def key(self):
        return (frozenset(self.vars.items()), frozenset(self.heap.items()), frozenset(self.facts.items()),
                frozenset(self.res.items()), frozenset(self.aux.items()))


def dedup(outs):
    seen, r = set(), []
    for k, s, v in outs:
        q = (k, v, s.key())
        if q not in seen:
            seen.add(q)
            r.append((k, s, v))
    return r


def mentions(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(mentions(c, x) for c in v)


def nesting(v):
    return 1 + max([nesting(c) for c in v if isinstance(c, tuple)] or [0]) if isinstance(v, tuple) else 0


class Paths(object):
    MAXDEPTH = 14

    def __init__(self, prog, client):
        self.prog = prog
        self.client = client
        self.table = {}          # key -> (FuncInfo, outer frame)
        self.clstab = {}
        self.steps = 0
        self.depth = 0
        self.visited = set()
        self.sites = 0
        self.limits = []
        client.P = self

    # -- helpers ----------------------------------------------------------
    def where(self, fr, node):
        m = fr.module
        p = m.path
        i = p.find('/src/')
        return '%s:%d (%s)' % (p[i + 1:] if i >= 0 else p, getattr(node, 'lineno', 0), fr.fi.short if fr.fi else m.name)

    def site(self, fr, node):
        return '%s:%d:%d' % (fr.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))

    def fnval(self, fi, fr=None):
        k = (fi.qualname, getattr(fi.node, 'lineno', 0))
        self.table[k] = (fi, fr)
        return ('fn', k)

    def clsval(self, c):
        self.clstab[c.qualname] = c
        return ('cls', c.qualname)

    def tick(self):
        self.steps += 1
        if self.steps > 400000:
            raise Abort('too many paths')

    # -- entry ------------------------------------------------------------
    def run(self, fi, args, st=None, kw=None, selfv=None):
        st = st or PState()
        return self.call_fi(fi, ([selfv] if selfv is not None else []) + list(args), kw or {}, st, None, fi.node, None)

    def run_body(self, module, stmts, st=None):
        fr = Frame('top:' + module.name, module)
        return self.block(stmts, st or PState(), fr)

    def call_fi(self, fi, args, kw, st, fr, node, outer):
        """Inline a function; outcomes are ('val'|'raise', st, v)."""
        if self.depth >= self.MAXDEPTH:
            raise Abort('calls nested too deeply')
        self.visited.add(fi.qualname)
        self.depth += 1
        try:
            f2 = Frame('%d:%s' % (self.depth, fi.qualname), fi.module, fi, outer, fi.cls)
            st = st.copy()
            a = fi.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            for n, v in zip(names, args):
                st.vars[(f2.fid, n)] = v
            if len(args) > len(names):
                if a.vararg:
                    st.vars[(f2.fid, a.vararg.arg)] = ('tuple',) + tuple(args[len(names):])
                else:
                    return [('raise', st, ('exc', 'TypeError', NONE))]
            elif a.vararg:
                st.vars[(f2.fid, a.vararg.arg)] = ('tuple',)
            kwonly = [x.arg for x in a.kwonlyargs]
            for k, v in kw.items():
                if k in names or k in kwonly:
                    st.vars[(f2.fid, k)] = v
                elif not a.kwarg:
                    return [('raise', st, ('exc', 'TypeError', NONE))]
            if a.kwarg:
                st.vars[(f2.fid, a.kwarg.arg)] = ('kwargs', f2.fid)
            dm = Frame('def:' + fi.module.name, fi.module)
            nd = len(a.defaults)
            for n, d in list(zip(names[len(names) - nd:], a.defaults)) + [(x, d) for x, d in zip(kwonly, a.kw_defaults) if d is not None]:
                if (f2.fid, n) not in st.vars:
                    r = self.eval(d, st, dm)
                    st.vars[(f2.fid, n)] = r[0][2] if r and r[0][0] == 'val' else ('default', n)
            for n in names + kwonly:
                if (f2.fid, n) not in st.vars:
                    return [('raise', st, ('exc', 'TypeError', NONE))]
            if isinstance(fi.node, ast.Lambda):
                outs = self.eval(fi.node.body, st, f2)
            else:
                outs = []
                for k, s, v in self.block(fi.node.body, st, f2):
                    if k == 'return':
                        outs.append(('val', s, v))
                    elif k == 'next':
                        outs.append(('val', s, NONE))
                    else:
                        outs.append((k, s, v))
            res = []
            for k, s, v in outs:
                s = s.copy()
                for q in [q for q in s.vars if q[0] == f2.fid]:
                    if not any(isinstance(x, tuple) and x and x[0] == 'lf' for x in s.vars.values()):
                        del s.vars[q]
                res.append((k, s, v))
            return dedup(res)
        finally:
            self.depth -= 1

    # -- statements -------------------------------------------------------
    def block(self, stmts, st, fr):
        outs = [('next', st, None)]
        for s in stmts:
            nxt, done = [], []
            for k, q, v in outs:
                (nxt if k == 'next' else done).append((k, q, v))
            if not nxt:
                return outs
            res = done
            for k, q, v in nxt:
                res = res + self.stmt(s, q, fr)
            outs = dedup(res)
            if len(outs) > 3000:
                raise Abort('too many states')
        return outs

    def then(self, e, st, fr, f):
        """Evaluate e, continue with f(state, value)."""
        out = []
        for k, s, v in self.eval(e, st, fr):
            if k == 'val':
                out += f(s, v)
            else:
                out.append((k, s, v))
        return out

    def stmt(self, n, st, fr):
        self.tick()
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Abort('statement %s' % type(n).__name__)
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        return [('next', st, None)]

    def s_Expr(self, n, st, fr):
        return self.then(n.value, st, fr, lambda s, v: [('next', s, None)])

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [('return', st, NONE)]
        return self.then(n.value, st, fr, lambda s, v: [('return', s, v)])

    def s_Break(self, n, st, fr):
        return [('break', st, None)]

    def s_Continue(self, n, st, fr):
        return [('continue', st, None)]

    def s_Global(self, n, st, fr):
        fr.globals |= set(n.names)
        return [('next', st, None)]

    def s_Nonlocal(self, n, st, fr):
        fr.nonlocals |= set(n.names)
        return [('next', st, None)]

    def s_Import(self, n, st, fr):
        st = st.copy()
        fail = False
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            if tgt in self.prog.modules or any(m.startswith(tgt + '.') for m in self.prog.modules):
                v = ('mod', tgt)
            else:
                v = ('ext', tgt)
                fail = fail or self.client.import_fails(a.name)
            st.vars[(fr.fid, nm)] = v
        out = [('next', st, None)]
        if fail:
            out.append(('raise', st, ('exc', 'ImportError', NONE)))
        return out

    def s_ImportFrom(self, n, st, fr):
        st = st.copy()
        mod = fr.module.absname(n)
        for a in n.names:
            v = None
            if mod in self.prog.modules:
                b = self.prog.lookup(self.prog.modules[mod], a.name)
                v = self.bval(b, fr)
            if v is None:
                v = ('mod', mod + '.' + a.name) if mod + '.' + a.name in self.prog.modules else ('ext', mod + '.' + a.name)
            st.vars[(fr.fid, a.asname or a.name)] = v
        return [('next', st, None)]

    def s_FunctionDef(self, n, st, fr):
        st = st.copy()
        fi = FuncInfo(n, fr.module, None, fr.fi)
        st.vars[(fr.fid, n.name)] = ('lf', self.fnval(fi, fr)[1])
        return [('next', st, None)]

    def s_ClassDef(self, n, st, fr):
        st = st.copy()
        st.vars[(fr.fid, n.name)] = self.clsval(ClassInfo(n, fr.module))
        return [('next', st, None)]

    def s_Assign(self, n, st, fr):
        def f(s, v):
            outs = [('next', s, None)]
            for t in n.targets:
                outs = [o for k, q, _ in outs for o in (self.assign(t, v, q, fr) if k == 'next' else [(k, q, _)])]
            return outs
        return self.then(n.value, st, fr, f)

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [('next', st, None)]
        return self.then(n.value, st, fr, lambda s, v: self.assign(n.target, v, s, fr))

    def s_AugAssign(self, n, st, fr):
        load = ast.copy_location(ast.BinOp(left=as_load(n.target), op=n.op, right=n.value), n)
        return self.then(load, st, fr, lambda s, v: self.assign(n.target, v, s, fr))

    def s_Delete(self, n, st, fr):
        st = st.copy()
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.vars.pop((fr.fid, t.id), None)
        return [('next', st, None)]

    def s_Assert(self, n, st, fr):
        out = []
        for k, s, b in self.cond(n.test, st, fr):
            if k == 'raise':
                out.append((k, s, b))
            elif b:
                out.append(('next', s, None))
            else:
                out.append(('raise', s, ('exc', 'AssertionError', NONE)))
        return out

    def assign(self, t, v, st, fr):
        if nesting(v) > 9:
            v = ('any', self.site(fr, t))
        if isinstance(t, ast.Name):
            st = st.copy()
            self.setname(t.id, v, st, fr)
            return [('next', st, None)]
        if isinstance(t, ast.Attribute):
            def f(s, o):
                s = s.copy()
                s.heap[(o, t.attr)] = v
                return self.client.on_setattr(s, fr, t, o, v) or [('next', s, None)]
            return self.then(t.value, st, fr, f)
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = [('next', st, None)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                sq = self.seq(v, st)
                x = sq[i] if sq is not None and len(sq) == len(t.elts) and not any(isinstance(y, ast.Starred) for y in t.elts) else ('item', v, i)
                outs = [o for k, q, w in outs for o in (self.assign(e, x, q, fr) if k == 'next' else [(k, q, w)])]
            return outs
        if isinstance(t, ast.Subscript):
            def g(s, o):
                def h(s2, i):
                    s2 = s2.copy()
                    self.client.on_setitem(s2, fr, t, o, v)
                    if o[0] == 'list':
                        s2.heap.pop((o, '#'), None)
                        s2.heap[(o, '*')] = tuple(sorted(set(s2.heap.get((o, '*'), ())) | {v}, key=repr))
                    return [('next', s2, None)]
                return self.then(t.slice, s, fr, h)
            return self.then(t.value, st, fr, g)
        raise Abort('assignment target')

    def seq(self, v, st):
        """The elements of a sequence known exactly, in order."""
        if v[0] == 'tuple':
            return list(v[1:])
        if v[0] == 'list' and (v, '#') in st.heap:
            return list(st.heap[(v, '#')])
        return None

    def setname(self, name, v, st, fr):
        if name in fr.globals:
            st.heap[(('mod', fr.module.name), name)] = v
            return
        if name in fr.nonlocals:
            o = fr.outer
            while o is not None:
                if (o.fid, name) in st.vars:
                    st.vars[(o.fid, name)] = v
                    return
                o = o.outer
        st.vars[(fr.fid, name)] = v

    def s_If(self, n, st, fr):
        out = []
        for k, s, b in self.cond(n.test, st, fr):
            if k == 'raise':
                out.append((k, s, b))
            else:
                out += self.block(n.body if b else n.orelse, s, fr)
        return dedup(out)

    def s_While(self, n, st, fr):
        return self.loop(n, st, fr, lambda s: [('raise', q, b) if k == 'raise' else ('in' if b else 'out', q, None) for k, q, b in self.cond(n.test, s, fr)])

    def mutated(self, n):
        """May the body of a loop change the list it walks?"""
        return not isinstance(n.iter, (ast.List, ast.ListComp, ast.GeneratorExp)) and any(
            isinstance(x, ast.Attribute) and x.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort') for y in n.body for x in ast.walk(y))

    def s_For(self, n, st, fr):
        def f(s, v):
            items = self.seq(v, s)
            if items is not None and len(items) <= 6 and (v[0] == 'tuple' or not self.mutated(n)):
                outs = [('next', s, None)]
                fin = []
                for x in items:
                    nxt = []
                    for k, q, w in outs:
                        for k2, q2, w2 in self.assign(n.target, x, q, fr):
                            nxt += self.block(n.body, q2, fr) if k2 == 'next' else [(k2, q2, w2)]
                    outs = []
                    for k, q, w in nxt:
                        if k in ('next', 'continue'):
                            outs.append(('next', q, None))
                        elif k == 'break':
                            fin.append(('next', q, None))
                        else:
                            fin.append((k, q, w))
                    outs = dedup(outs)
                return dedup(fin + [o for k, q, w in outs for o in self.block(n.orelse, q, fr)])
            el = ('elem', self.site(fr, n), v)

            def enter(q):
                r = [('out', q, None)]
                q = q.copy()
                q.facts = {c: b for c, b in q.facts.items() if not mentions(c, el)}
                q.heap = {c: b for c, b in q.heap.items() if not mentions(c[0], el)}
                xs = [el]
                if v[0] == 'list':
                    xs = list(q.heap.get((v, '*'), ())) or [el]
                q = self.client.iter_start(q, fr, n, el) or q
                for x in xs:
                    for k2, q2, w2 in self.assign(n.target, x, q, fr):
                        r.append(('in', q2, None) if k2 == 'next' else (k2, q2, w2))
                return r
            return self.loop(n, s, fr, enter, el)
        return self.then(n.iter, st, fr, f)

    def loop(self, n, st, fr, enter, el=None):
        seen, todo, fin = set(), [st], []
        rounds = 0
        while todo:
            s = todo.pop()
            k = s.key()
            if k in seen:
                continue
            seen.add(k)
            rounds += 1
            if rounds > 400:
                raise Abort('loop does not settle')
            for kk, q, w in enter(s):
                if kk == 'raise':
                    fin.append((kk, q, w))
                elif kk == 'out':
                    if el is not None:
                        q = self.client.iter_done(q, fr, n, el) or q
                    fin += self.block(n.orelse, q, fr)
                else:
                    for k2, q2, w2 in self.block(n.body, q, fr):
                        if el is not None:
                            self.client.iter_end(q2, fr, n, el, k2)
                        if k2 in ('next', 'continue'):
                            todo.append(q2)
                        elif k2 == 'break':
                            fin.append(('next', q2, None))
                        else:
                            fin.append((k2, q2, w2))
        return dedup(fin)

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            return [('raise', st, st.vars.get((fr.fid, '%handling'), ('exc', None, NONE)))]

        def f(s, v):
            return [('raise', s, self.excval(v))]
        return self.then(n.exc, st, fr, f)

    def excval(self, v):
        if v[0] == 'exc':
            return v
        if v[0] == 'ext':
            return ('exc', v[1], NONE)
        if v[0] == 'cls':
            return ('exc', v[1], NONE)
        if v[0] == 'obj':
            return ('exc', v[1], NONE)
        return ('exc', None, NONE)

    def s_Try(self, n, st, fr):
        outs = []
        for k, s, v in self.block(n.body, st, fr):
            if k == 'next':
                outs += self.block(n.orelse, s, fr)
            elif k == 'raise':
                outs += self.handle(n.handlers, s, v, fr)
            else:
                outs.append((k, s, v))
        if n.finalbody:
            res = []
            for k, s, v in dedup(outs):
                for k2, s2, v2 in self.block(n.finalbody, s, fr):
                    res.append((k, s2, v) if k2 == 'next' else (k2, s2, v2))
            outs = res
        return dedup(outs)

    def handle(self, handlers, st, exc, fr):
        out = []
        for h in handlers:
            m = 'yes' if h.type is None else self.matches(h.type, exc, st, fr)
            if m == 'no':
                continue
            s = st.copy()
            old = s.vars.get((fr.fid, '%handling'))
            s.vars[(fr.fid, '%handling')] = exc
            if h.name:
                s.vars[(fr.fid, h.name)] = exc
            s = self.client.on_handle(s, exc) or s
            for k, q, v in self.block(h.body, s, fr):
                q = q.copy()
                if old is None:
                    q.vars.pop((fr.fid, '%handling'), None)
                else:
                    q.vars[(fr.fid, '%handling')] = old
                if h.name:
                    q.vars.pop((fr.fid, h.name), None)
                out.append((k, q, v))
            if m == 'yes':
                return out
        out.append(('raise', st, exc))
        return out

    def matches(self, t, exc, st, fr):
        if isinstance(t, ast.Tuple):
            rs = [self.matches(x, exc, st, fr) for x in t.elts]
            return 'yes' if 'yes' in rs else 'maybe' if 'maybe' in rs else 'no'
        r = self.eval(t, st, fr)
        v = r[0][2] if r and r[0][0] == 'val' else None
        if v is not None and v[0] == 'tuple':
            rs = [self.subexc(exc, x) for x in v[1:]]
            return 'yes' if 'yes' in rs else 'maybe' if 'maybe' in rs else 'no'
        return self.subexc(exc, v)

    def subexc(self, exc, hv):
        if hv is None or hv[0] not in ('ext', 'cls'):
            return 'maybe'
        h, e = hv[1], exc[1]
        if h == 'BaseException':
            return 'yes'
        hb = getattr(builtins, h, None) if hv[0] == 'ext' else None
        if e is None:                      # some Exception
            if h == 'Exception':
                return 'yes'
            if h in ('SystemExit', 'KeyboardInterrupt', 'GeneratorExit'):
                return 'no'
            return 'maybe'
        eb = getattr(builtins, e, None)
        if eb is not None and hb is not None:
            return 'yes' if issubclass(eb, hb) else ('maybe' if issubclass(hb, eb) else 'no')
        if e in self.clstab:
            c = self.clstab[e]
            if hv[0] == 'cls':
                return 'yes' if self.clstab.get(h) in self.prog.mro(c) else 'no'
            exts = [getattr(builtins, b.rsplit('.', 1)[-1], None) for b in self.prog.ext_bases(c)]
            if hb is not None:
                if any(isinstance(x, type) and issubclass(x, hb) for x in exts):
                    return 'yes'
                return 'no' if exts and all(isinstance(x, type) for x in exts) else 'maybe'
        if eb is not None and hv[0] == 'cls':
            return 'no'
        if h == 'Exception':
            return 'no' if e in ('SystemExit', 'KeyboardInterrupt', 'GeneratorExit') else 'yes'
        return 'yes' if h == e else 'maybe'

    def s_With(self, n, st, fr, i=0):
        if i >= len(n.items):
            return self.block(n.body, st, fr)
        it = n.items[i]

        def f(s, v):
            return self.with_(v, s, fr, it, lambda s2, x: self.bind_with(it, x, s2, fr, lambda s3: self.s_With(n, s3, fr, i + 1)))
        return dedup(self.then(it.context_expr, st, fr, f))

    def bind_with(self, it, x, st, fr, body):
        if it.optional_vars is None:
            return body(st)
        out = []
        for k, s, v in self.assign(it.optional_vars, x, st, fr):
            out += body(s) if k == 'next' else [(k, s, v)]
        return out

    def closing(self, outs, f):
        """Run f(state) -> outcomes after each outcome (a finally)."""
        res = []
        for k, s, v in outs:
            for k2, s2, v2 in f(s):
                res.append((k, s2, v) if k2 in ('val', 'next') else (k2, s2, v2))
        return res

    def with_(self, v, st, fr, it, body):
        node = it.context_expr
        if v[0] == 'file':
            return self.closing(body(st, v), lambda s: self.client.close(s, fr, node, v))
        if v[0] == 'ctx':
            kind = v[1]
            if kind == 'closing':
                return self.closing(body(st, v[2]), lambda s: self.method(s, fr, node, v[2], 'close', [], {}))
            if kind == 'null':
                return body(st, v[2])
            if kind == 'suppress':
                out = []
                for k, s, x in body(st, NONE):
                    if k == 'raise':
                        ms = [self.subexc(x, h) for h in v[2:]]
                        if 'yes' in ms or 'maybe' in ms:
                            out.append(('next', self.client.on_handle(s.copy(), x) or s, None))
                        if 'yes' in ms:
                            continue
                    out.append((k, s, x))
                return out
            if kind == 'redirect':
                return body(st, v[2])
            if kind == 'stack':
                return self.closing(body(st, v), lambda s: self.unwind(s, fr, node, v))
            if kind == 'gen':
                return self.genctx(v, st, fr, node, body)
        if v[0] == 'obj' and v[1] in self.clstab:
            c = self.clstab[v[1]]
            en, ex = self.prog.find_method(c, '__enter__'), self.prog.find_method(c, '__exit__')
            if en and ex and self.client.inline(en) | self.client.inline(ex):
                out = []
                for k, s, x in self.call_fi(en, [v], {}, st, fr, node, None):
                    if k == 'raise':
                        out.append((k, s, x))
                        continue
                    for k2, s2, x2 in body(s, x):
                        for k3, s3, x3 in self.call_fi(ex, [v, x2 if k2 == 'raise' else NONE, x2 if k2 == 'raise' else NONE, NONE], {}, s2, fr, node, None):
                            if k3 == 'raise':
                                out.append((k3, s3, x3))
                                continue
                            if k2 == 'raise':
                                for s4, b in self.truth(x3, s3):
                                    out.append(('next', s4, None) if b else (k2, s4, x2))
                            else:
                                out.append((k2, s3, x2))
                return out
        out = []
        for k, s, x in self.client.enter_opaque(st, fr, node, v):
            if k == 'raise':
                out.append((k, s, x))
            else:
                out += self.closing(body(s, x), lambda q: self.client.exit_opaque(q, fr, node, v))
        return out

    def unwind(self, st, fr, node, v):
        st = st.copy()
        cbs = st.heap.pop((v, 'cb'), ())
        outs = [('val', st, NONE)]
        for cb in reversed(cbs):
            nxt = []
            for k, s, x in outs:
                if cb[0] == 'ctxexit':
                    nxt += self.closing([(k, s, x)], lambda q: self.client.close(q, fr, node, cb[1]) if cb[1][0] == 'file' else self.client.exit_opaque(q, fr, node, cb[1]))
                else:
                    nxt += self.closing([(k, s, x)], lambda q: self.docall(q, fr, node, cb[1], list(cb[2:]), {}))
            outs = nxt
        return outs

    def genctx(self, v, st, fr, node, body):
        fi, outer = self.table[v[2]]
        args, kw = list(v[3]), dict(v[4])
        pend = []
        self.visited.add(fi.qualname)
        self.depth += 1
        f2 = Frame('%d:%s' % (self.depth, fi.qualname), fi.module, fi, outer, fi.cls)

        def on_yield(s, x):
            out = []
            for k, q, y in body(s, x):
                if k in ('next', 'val'):
                    out.append(('val', q, NONE))
                elif k == 'raise':
                    out.append((k, q, y))
                else:
                    q = q.copy()
                    pend.append((k, y))
                    q.aux[('pend', f2.fid)] = len(pend) - 1
                    out.append(('val', q, NONE))
            return out
        f2.on_yield = on_yield
        try:
            st = st.copy()
            names = fi.params
            for n, x in zip(names, args):
                st.vars[(f2.fid, n)] = x
            for k, x in kw.items():
                st.vars[(f2.fid, k)] = x
            a = fi.node.args
            for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                if (f2.fid, n) not in st.vars:
                    r = self.eval(d, st, f2)
                    st.vars[(f2.fid, n)] = r[0][2]
            out = []
            for k, s, x in self.block(fi.node.body, st, f2):
                s = s.copy()
                for q in [q for q in s.vars if q[0] == f2.fid]:
                    del s.vars[q]
                i = s.aux.pop(('pend', f2.fid), None)
                if k == 'raise':
                    out.append((k, s, x))
                elif i is not None:
                    out.append((pend[i][0], s, pend[i][1]))
                else:
                    out.append(('next', s, None))
            return out
        finally:
            self.depth -= 1

    # -- conditions -------------------------------------------------------
    def cond(self, e, st, fr):
        """[(kind, state, bool)]"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            live, out = [st], []
            for x in e.values:
                nxt = []
                for s in live:
                    for k, q, b in self.cond(x, s, fr):
                        if k == 'raise' or b != isand:
                            out.append((k, q, b))
                        else:
                            nxt.append(q)
                live = nxt
            return out + [('val', s, isand) for s in live]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(k, s, b if k == 'raise' else not b) for k, s, b in self.cond(e.operand, st, fr)]
        out = []
        for k, s, v in self.eval(e, st, fr):
            if k == 'raise':
                out.append((k, s, v))
            else:
                out += [('val', q, b) for q, b in self.truth(v, s)]
        return out

    def truth(self, v, st):
        k, neg = v, False
        while k[0] == 'op' and k[1] == 'not':
            k, neg = k[2], not neg
        b = self.known(k, st)
        if b is not None:
            return [(st, b != neg)]
        r = []
        for b in (True, False):
            s = st.copy()
            s.facts[k] = b
            s = self.client.assume(s, k, b) or s
            r.append((s, b != neg))
        return r

    def known(self, k, st):
        if is_const(k):
            return bool(k[2])
        if k in st.facts:
            return st.facts[k]
        c = self.client.known(st, k)
        if c is not None:
            return c
        if k[0] in ('file', 'obj', 'fn', 'lf', 'cls', 'mod', 'bm', 'exc', 'ctx'):
            return True
        if k[0] == 'tuple':
            return len(k) > 1
        if k[0] == 'op':
            o = k[1]
            if o == 'not':
                b = self.known(k[2], st)
                return None if b is None else not b
            a, b = k[2], k[3] if len(k) > 3 else None
            if o in ('is', '=='):
                if a == b:
                    return True
                if a[0] == 'file' or b[0] == 'file':      # a stream just opened is no other value
                    o2 = b if a[0] == 'file' else a
                    if o2[0] in ('param', 'ext', 'c', 'file', 'obj', 'attr', 'glob'):
                        return False
                if is_const(a) and is_const(b):
                    return a == b if o == 'is' else a[2] == b[2]
                for x, y in ((a, b), (b, a)):
                    if y == NONE:
                        if is_const(x) or x[0] in ('file', 'obj', 'fn', 'lf', 'cls', 'mod', 'exc', 'tuple', 'list', 'bm', 'op', 'ctx'):
                            return x == NONE
                        if st.facts.get(x) is True or st.facts.get(('op', 'isinst', x, ('ext', 'str'))) is True:
                            return False
            if o == 'isinst':
                if is_const(a) and b and b[0] == 'ext' and hasattr(builtins, b[1]):
                    return isinstance(a[2], getattr(builtins, b[1]))
                if a[0] in ('file', 'obj', 'tuple', 'list', 'exc') and b == ('ext', 'str'):
                    return False
                if st.facts.get(('op', 'is', a, NONE)) is True:
                    return False
        if st.facts.get(('op', 'is', k, NONE)) is True:
            return False
        return None

    # -- expressions ------------------------------------------------------
    def eval(self, e, st, fr):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Abort('expression %s' % type(e).__name__)
        return m(e, st, fr)

    def evals(self, es, st, fr):
        """[(kind, st, [values])]"""
        live, out = [(st, [])], []
        for e in es:
            nxt = []
            for s, vs in live:
                for k, q, v in self.eval(e, s, fr):
                    if k == 'raise':
                        out.append((k, q, v))
                    else:
                        nxt.append((q, vs + [v]))
            live = nxt
        return out + [('val', s, vs) for s, vs in live]

    def e_Constant(self, e, st, fr):
        return [('val', st, const(e.value))]

    def e_Name(self, e, st, fr):
        f = fr
        while f is not None:
            if e.id not in f.globals and (f.fid, e.id) in st.vars:
                return [('val', st, st.vars[(f.fid, e.id)])]
            f = f.outer
        h = st.heap.get((('mod', fr.module.name), e.id))
        if h is not None:
            return [('val', st, h)]
        if fr.fi is not None and e.id not in fr.globals and e.id in locals_of(fr.fi):
            return [('raise', st, ('exc', 'UnboundLocalError', NONE))]
        v = self.bval(self.prog.lookup(fr.module, e.id), fr)
        if v is not None:
            return [('val', st, v)]
        return [('val', st, ('ext', e.id))]

    def bval(self, b, fr):
        if b is None:
            return None
        if b[0] == 'func':
            return self.fnval(b[1])
        if b[0] == 'class':
            return self.clsval(b[1])
        if b[0] == 'module':
            return ('mod', b[1])
        if b[0] == 'ext':
            return ('ext', b[1])
        if b[0] == 'assign':
            if isinstance(b[3], ast.Constant):
                return const(b[3].value)
            return ('glob', b[1].name, b[2])
        return None

    def e_Attribute(self, e, st, fr):
        return self.then(e.value, st, fr, lambda s, v: self.getattr_(s, fr, e, v, e.attr))

    def getattr_(self, st, fr, e, v, name):
        h = st.heap.get((v, name))
        if h is not None:
            return [('val', st, h)]
        r = self.client.getattr(st, fr, e, v, name)
        if r is not None:
            return r
        if v[0] == 'mod':
            if v[1] in self.prog.modules:
                x = self.bval(self.prog.lookup(self.prog.modules[v[1]], name), fr)
                if x is not None:
                    return [('val', st, x)]
            if v[1] + '.' + name in self.prog.modules:
                return [('val', st, ('mod', v[1] + '.' + name))]
            return [('val', st, ('attr', v, name))]
        if v[0] == 'ext':
            return [('val', st, ('ext', v[1] + '.' + name))]
        if v[0] in ('cls', 'obj') and v[1] in self.clstab:
            c = self.clstab[v[1]]
            m = self.prog.find_method(c, name)
            if m is not None:
                if m.is_property and v[0] == 'obj':
                    return self.docall(st, fr, e, self.fnval(m), [v], {})
                if m.is_class:
                    return [('val', st, ('bm', self.fnval(m)[1], self.clsval(c)))]
                if v[0] == 'obj' and not m.is_static:
                    return [('val', st, ('bm', self.fnval(m)[1], v))]
                return [('val', st, self.fnval(m))]
            for k in self.prog.mro(c):
                self.clsval(k)
                if (('cls', k.qualname), name) in st.heap:
                    return [('val', st, st.heap[(('cls', k.qualname), name)])]
                if name in k.inner:
                    return [('val', st, self.clsval(k.inner[name]))]
                if name in k.assigns and isinstance(k.assigns[name], ast.Constant) and not self.prog.is_enum(k):
                    return [('val', st, const(k.assigns[name].value)) if not self.client.class_state_unknown else ('val', st, ('attr', ('cls', k.qualname), name))]
                if name in k.assigns:
                    return [('val', st, ('attr', ('cls', k.qualname), name))]
        return [('val', st, ('attr', v, name))]

    def e_Call(self, e, st, fr):
        self.sites += 1
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and fr.owner is not None:
            sv = st.vars.get((fr.fid, fr.fi.params[0])) if fr.fi and fr.fi.params else None
            return [('val', st, ('super', fr.owner.qualname, sv or NONE))]
        if isinstance(e.func, ast.Attribute):
            for k, s, o in self.eval(e.func.value, st, fr):
                if k == 'raise':
                    out.append((k, s, o))
                    continue
                for k2, s2, a in self.callargs(e, s, fr):
                    if k2 == 'raise':
                        out.append((k2, s2, a))
                    else:
                        out += self.method(s2, fr, e, o, e.func.attr, a[0], a[1])
            return dedup(out)
        for k, s, f in self.eval(e.func, st, fr):
            if k == 'raise':
                out.append((k, s, f))
                continue
            for k2, s2, a in self.callargs(e, s, fr):
                if k2 == 'raise':
                    out.append((k2, s2, a))
                elif f[0] == 'attr' and len(f) == 3 and isinstance(f[2], str) and not is_const(f[1]):
                    # a method picked up earlier
                    out += self.method(s2, fr, e, f[1], f[2], a[0], a[1])
                else:
                    out += self.docall(s2, fr, e, f, a[0], a[1])
        return dedup(out)

    def callargs(self, e, st, fr):
        es = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        out = []
        for k, s, vs in self.evals(es, st, fr):
            if k == 'raise':
                out.append((k, s, vs))
                continue
            args, kw = [], {}
            for a, v in zip(e.args, vs):
                if isinstance(a, ast.Starred):
                    args += list(v[1:]) if v[0] == 'tuple' else [('star', v)]
                else:
                    args.append(v)
            for a, v in zip(e.keywords, vs[len(e.args):]):
                kw[a.arg or '**'] = v
            out.append(('val', s, (args, kw)))
        return out

    def method(self, st, fr, node, o, name, args, kw):
        if o == NONE:
            return [('raise', st, ('exc', 'AttributeError', NONE))]
        r = self.client.method(st, fr, node, o, name, args, kw)
        if r is not None:
            return r
        if o[0] == 'super' and o[1] in self.clstab or o[0] == 'super' and self.prog.cls(o[1]):
            c = self.clstab.get(o[1]) or self.prog.cls(o[1])
            cc = self.clstab.get(o[2][1]) if o[2][0] == 'obj' else None
            m = None
            mro = self.prog.mro(cc or c)
            if c in mro:
                for k in mro[mro.index(c) + 1:]:
                    if name in k.methods:
                        m = k.methods[name]
                        break
            if m is not None:
                return self.docall(st, fr, node, self.fnval(m), [o[2]] + args, kw)
            return [('val', st, NONE)]
        if o[0] == 'ctx' and o[1] == 'stack':
            s = st.copy()
            if name == 'enter_context' and args:
                v = args[0]
                if v[0] == 'ctx' and v[1] == 'closing':
                    s.heap[(o, 'cb')] = s.heap.get((o, 'cb'), ()) + (('ctxexit', v[2]),)
                    return [('val', s, v[2])]
                if v[0] == 'ctx' and v[1] == 'null':
                    return [('val', s, v[2])]
                if v[0] == 'ctx':
                    raise Abort('context on an ExitStack')
                s.heap[(o, 'cb')] = s.heap.get((o, 'cb'), ()) + (('ctxexit', v),)
                return [('val', s, v)]
            if name == 'callback' and args:
                s.heap[(o, 'cb')] = s.heap.get((o, 'cb'), ()) + (('cb',) + tuple(args),)
                return [('val', s, args[0])]
            if name == 'close':
                return self.unwind(st, fr, node, o)
            raise Abort('ExitStack.%s' % name)
        if o[0] == 'list':
            if (o, '#') in st.heap and name not in ('index', 'count', 'copy', '__len__', '__iter__'):
                st = st.copy()
                st.heap.pop((o, '#'))
            if name in ('append', 'add', 'insert', 'extend') and args:
                s = st.copy()
                x = args[-1]
                new = {x}
                if name == 'extend':
                    new = set(s.heap.get((x, '*'), ())) if x[0] == 'list' else {('item', x, '*')}
                s.heap[(o, '*')] = tuple(sorted(set(s.heap.get((o, '*'), ())) | new, key=repr))
                return [('val', s, NONE)]
            if name == 'pop':
                xs = st.heap.get((o, '*'), ())
                return [('val', st, x) for x in xs] or [('val', st, ('item', o, 'pop'))]
        out = []
        for k, s, f in self.getattr_(st, fr, node, o, name):
            if k == 'raise':
                out.append((k, s, f))
            else:
                out += self.docall(s, fr, node, f, args, kw)
        return out

    def opaque(self, st, fr, node, f, args, raises=True, tag=''):
        s = st.copy()
        v = ('res', self.site(fr, node) + tag)
        for d in (s.facts,):
            for c in [c for c in d if mentions(c, v)]:
                del d[c]
        out = [('val', s, v)]
        if raises:
            out.append(('raise', st, ('exc', None, ('from', self.site(fr, node)))))
        return out

    def docall(self, st, fr, node, f, args, kw):
        r = self.client.call(st, fr, node, f, args, kw)
        if r is not None:
            return r
        if f[0] in ('fn', 'lf', 'bm'):
            fi, outer = self.table[f[1]]
            a = list(args)
            if f[0] == 'bm':
                a = [f[2]] + a
            if fi.is_ctxmgr:
                return [('val', st, ('ctx', 'gen', f[1], tuple(a), tuple(sorted(kw.items()))))]
            if fi.is_gen:
                if self.client.inline(fi):
                    raise Abort('generator %s' % fi.qualname)
                return self.opaque(st, fr, node, f, a, True)
            rec = any(True for q in self.active(fr) if q is fi)
            if (f[0] == 'lf' or isinstance(fi.node, ast.Lambda) or self.client.inline(fi)) and not rec and '*' not in kw and '**' not in kw:
                self.stack.append(fi)
                try:
                    return self.call_fi(fi, a, kw, st, fr, node, outer)
                finally:
                    self.stack.pop()
            return self.client.opaque_fn(st, fr, node, fi, a, kw)
        if f[0] == 'cls' and f[1] in self.clstab:
            c = self.clstab[f[1]]
            if any(isinstance(getattr(builtins, b.rsplit('.', 1)[-1], None), type) and issubclass(getattr(builtins, b.rsplit('.', 1)[-1]), BaseException)
                   for b in self.prog.ext_bases(c)):
                return [('val', st, ('exc', f[1], args[0] if args else NONE))]
            o = ('obj', f[1], self.site(fr, node))
            s = st.copy()
            for q in [q for q in s.heap if q[0] == o]:
                del s.heap[q]
            m = self.prog.find_method(c, '__init__')
            if m is None:
                return [('val', s, o)]
            out = []
            for k, q, v in self.docall(s, fr, node, self.fnval(m), [o] + list(args), kw):
                out.append((k, q, v) if k == 'raise' else ('val', q, o))
            return dedup(out)
        if f[0] == 'ext':
            n = f[1]
            b = getattr(builtins, n, None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return [('val', st, ('exc', n, args[0] if args else NONE))]
            if n == 'type' and len(args) == 1:
                return [('val', st, ('op', 'typeof', args[0]))]
            if n == 'isinstance' and len(args) == 2:
                if args[1][0] == 'tuple':
                    return [('val', st, ('op', 'isinst', args[0], args[1]))]
                return [('val', st, ('op', 'isinst', args[0], args[1]))]
            if n == 'bool' and len(args) == 1:
                return [('val', st, ('op', 'not', ('op', 'not', args[0])))]
            if n == 'setattr' and len(args) == 3:
                s = st.copy()
                if is_const(args[1]):
                    s.heap[(args[0], args[1][2])] = args[2]
                return [('val', s, NONE)]
            if n == 'getattr' and len(args) >= 2 and is_const(args[1]):
                return self.getattr_(st, fr, node, args[0], args[1][2])
            if n in ('list', 'set') and not args and not kw:
                s = st.copy()
                o = ('list', self.site(fr, node))
                s.heap[(o, '*')] = ()
                s.heap.pop((o, '#'), None)
                return [('val', s, o)]
            if n in ('list', 'tuple', 'sorted', 'reversed', 'iter', 'set') and len(args) == 1:
                return [('val', st, args[0])]
            if n in ('contextlib.closing',) and args:
                return [('val', st, ('ctx', 'closing', args[0]))]
            if n == 'contextlib.nullcontext':
                return [('val', st, ('ctx', 'null', args[0] if args else NONE))]
            if n == 'contextlib.suppress':
                return [('val', st, ('ctx', 'suppress') + tuple(args))]
            if n in ('contextlib.redirect_stdout', 'contextlib.redirect_stderr'):
                return [('val', st, ('ctx', 'redirect', args[0]))]
            if n == 'contextlib.ExitStack':
                return [('val', st, ('ctx', 'stack', self.site(fr, node)))]
            if n in ('sys.exit', 'exit', 'quit'):
                return [('raise', st, ('exc', 'SystemExit', args[0] if args else const(0)))]
            if n in SAFE or n.startswith(SAFE_EXT):
                pure = n in ('len', 'str', 'repr', 'hasattr', 'callable')
                if pure:
                    return [('val', st, ('op', n) + tuple(args))]
                return self.opaque(st, fr, node, f, args, False)
        if f[0] == 'attr' and is_const(f[1]):
            return [('val', st, ('op', 'const.' + f[2]) + tuple(args))]
        return self.client.opaque_call(st, fr, node, f, args, kw)

    stack = []

    def active(self, fr):
        return self.stack

    def e_BinOp(self, e, st, fr):
        o = type(e.op).__name__
        return [(k, s, self.binop(o, v[0], v[1]) if k == 'val' else v) for k, s, v in self.evals([e.left, e.right], st, fr)]

    def binop(self, o, a, b):
        """Text put together from constants is a constant."""
        if is_const(a) and isinstance(a[2], str):
            try:
                if o == 'Mod' and is_const(b):
                    return const(a[2] % b[2])
                if o == 'Mod' and b[0] == 'tuple' and all(is_const(x) for x in b[1:]):
                    return const(a[2] % tuple(x[2] for x in b[1:]))
                if o == 'Add' and is_const(b) and isinstance(b[2], str):
                    return const(a[2] + b[2])
            except (TypeError, ValueError):
                pass
        if o in ('BitAnd', 'BitOr', 'BitXor') and repr(b) < repr(a):
            a, b = b, a
        return ('op', o, a, b)

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return [(k, s, const(b) if k == 'val' else b) for k, s, b in self.cond(e, st, fr)]
        out = []
        for k, s, v in self.eval(e.operand, st, fr):
            if k == 'val':
                if is_const(v) and isinstance(e.op, ast.USub) and isinstance(v[2], (int, float)):
                    v = const(-v[2])
                else:
                    v = ('op', type(e.op).__name__, v)
            out.append((k, s, v))
        return out

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        live, out = [st], []
        for i, x in enumerate(e.values):
            nxt = []
            for s in live:
                for k, q, v in self.eval(x, s, fr):
                    if k == 'raise' or i == len(e.values) - 1:
                        out.append((k, q, v))
                        continue
                    for q2, b in self.truth(v, q):
                        if b == isand:
                            nxt.append(q2)
                        else:
                            out.append(('val', q2, v))
            live = nxt
        return dedup(out)

    def e_IfExp(self, e, st, fr):
        out = []
        for k, s, b in self.cond(e.test, st, fr):
            if k == 'raise':
                out.append((k, s, b))
            else:
                out += self.eval(e.body if b else e.orelse, s, fr)
        return dedup(out)

    def e_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            parts = []
            l = e.left
            for o, c in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left=l, ops=[o], comparators=[c]), e))
                l = c
            return self.e_BoolOp(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), st, fr)
        op = e.ops[0]
        out = []
        for k, s, vs in self.evals([e.left, e.comparators[0]], st, fr):
            if k == 'raise':
                out.append((k, s, vs))
                continue
            a, b = vs
            out += [('val', q, x) for q, x in self.compare(s, fr, e, op, a, b)]
        return out

    def compare(self, st, fr, e, op, a, b):
        r = self.client.compare(st, op, a, b)
        if r is not None:
            return [(st, r)]
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'op' and x[1] == 'typeof' and y[0] in ('ext', 'cls'):
                    v = ('op', 'isinst', x[2], y)
                    return [(st, ('op', 'not', v) if neg else v)]
            if a == NONE:
                a, b = b, a
            if b == NONE or isinstance(op, (ast.Is, ast.IsNot)):
                v = ('op', 'is', a, b)
            else:
                if is_const(a) and not is_const(b) or is_const(a) == is_const(b) and repr(b) < repr(a):
                    a, b = b, a
                v = ('op', '==', a, b)
                if b == const(0) and a[0] == 'op' and a[1] == 'BitAnd':
                    v = ('op', 'not', a)
        elif isinstance(op, (ast.In, ast.NotIn)):
            if b[0] == 'tuple' and is_const(a) and all(is_const(x) for x in b[1:]):
                v = const(any(a[2] == x[2] for x in b[1:]))
            else:
                v = ('op', 'in', a, b)
        else:
            nm = type(op).__name__
            if nm in ('Gt', 'GtE'):
                a, b, nm = b, a, {'Gt': 'Lt', 'GtE': 'LtE'}[nm]
            if is_const(a) and is_const(b):
                try:
                    v = const(a[2] < b[2] if nm == 'Lt' else a[2] <= b[2])
                except TypeError:
                    v = ('op', nm, a, b)
            else:
                v = ('op', nm, a, b)
        kn = self.known(v, st)
        if kn is not None:
            v = const(kn)
        if neg:
            v = const(not v[2]) if is_const(v) else ('op', 'not', v)
        return [(st, v)]

    def e_Tuple(self, e, st, fr):
        return [(k, s, ('tuple',) + tuple(v) if k == 'val' else v) for k, s, v in self.evals([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr)]

    def e_List(self, e, st, fr):
        out = []
        for k, s, v in self.evals([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr):
            if k == 'val':
                s = s.copy()
                o = ('list', self.site(fr, e))
                s.heap[(o, '*')] = tuple(sorted(set(v), key=repr))
                s.heap.pop((o, '#'), None)
                if isinstance(e, ast.List) and not any(isinstance(x, ast.Starred) for x in e.elts) and e.elts:
                    s.heap[(o, '#')] = tuple(v)
                v = o
            out.append((k, s, v))
        return out

    e_Set = e_List

    def e_Dict(self, e, st, fr):
        out = []
        es = [x for x in list(e.keys) + list(e.values) if x is not None]
        for k, s, v in self.evals(es, st, fr):
            out.append((k, s, ('op', 'dict', self.site(fr, e)) + tuple(v) if k == 'val' else v))
        return out

    def e_JoinedStr(self, e, st, fr):
        es = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        plain = all(not isinstance(x, ast.FormattedValue) or x.conversion in (-1, 115) and x.format_spec is None for x in e.values)
        return [(k, s, (const(''.join(str(x[2]) for x in v)) if plain and all(is_const(x) for x in v) else ('op', 'fstr') + tuple(v)) if k == 'val' else v)
                for k, s, v in self.evals(es, st, fr)]

    def e_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Subscript(self, e, st, fr):
        out = []
        for k, s, v in self.evals([e.value, e.slice], st, fr):
            if k == 'raise':
                out.append((k, s, v))
            else:
                out += self.subscript(s, fr, e, v[0], v[1])
        return out

    def subscript(self, st, fr, e, o, i):
        r = self.client.subscript(st, fr, e, o, i)
        if r is not None:
            return r
        if o[0] == 'tuple' and is_const(i) and isinstance(i[2], int) and -len(o) < i[2] + 1 <= len(o) - 1:
            return [('val', st, o[1:][i[2]])]
        if o[0] == 'list' and (o, '#') in st.heap and is_const(i) and isinstance(i[2], int) and -len(st.heap[(o, '#')]) <= i[2] < len(st.heap[(o, '#')]):
            return [('val', st, st.heap[(o, '#')][i[2]])]
        if o[0] == 'list' and (o, '*') in st.heap and is_const(i):
            return [('val', st, x) for x in st.heap[(o, '*')]] or [('val', st, ('item', o, i))]
        return [('val', st, ('item', o, i))]

    def e_Slice(self, e, st, fr):
        return [(k, s, ('op', 'slice') + tuple(v) if k == 'val' else v)
                for k, s, v in self.evals([x for x in (e.lower, e.upper, e.step) if x is not None], st, fr)]

    def e_Lambda(self, e, st, fr):
        fi = FuncInfo(e, fr.module, None, fr.fi)
        k = ('lambda', self.site(fr, e))
        self.table[k] = (fi, fr)
        return [('val', st, ('lf', k))]

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_NamedExpr(self, e, st, fr):
        out = []
        for k, s, v in self.eval(e.value, st, fr):
            if k == 'val':
                s = s.copy()
                self.setname(e.target.id, v, s, fr)
            out.append((k, s, v))
        return out

    def e_Yield(self, e, st, fr):
        def f(s, v):
            if fr.on_yield is None:
                raise Abort('yield')
            return fr.on_yield(s, v)
        if e.value is None:
            return f(st, NONE)
        return self.then(e.value, st, fr, f)

    def comp(self, e, st, fr, elts):
        o = ('list', self.site(fr, e))
        s = st.copy()
        s.heap[(o, '*')] = ()
        s.heap.pop((o, '#'), None)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            s.heap[(o, '#')] = ()
        f = ast.Expr(value=ast.Tuple(elts=elts, ctx=ast.Load()))
        body = [ast.copy_location(f, e)]
        tgt = ('comp', self.site(fr, e))

        class Sink(ast.Expr):
            pass
        sink = ast.copy_location(ast.Expr(value=ast.Name(id='%sink', ctx=ast.Load())), e)
        node = None

        def add(q):
            out = []
            for k, r, v in self.evals(elts, q, fr):
                if k == 'val':
                    r = r.copy()
                    r.heap[(o, '*')] = tuple(sorted(set(r.heap.get((o, '*'), ())) | set(v), key=repr))
                    if (o, '#') in r.heap:
                        r.heap[(o, '#')] += tuple(v)
                    out.append(('next', r, None))
                else:
                    out.append((k, r, v))
            return out

        def gen(i, q):
            if i == len(e.generators):
                return add(q)
            g = e.generators[i]

            def exact(q1, items):
                live, fin = [('next', q1, None)], []
                for x in items:
                    nxt = []
                    for k, q2, w in live:
                        for k2, q3, w2 in self.assign(g.target, x, q2, fr):
                            here = [q3] if k2 == 'next' else []
                            if k2 != 'next':
                                fin.append((k2, q3, w2))
                            for c in g.ifs:
                                nl = []
                                for q5 in here:
                                    for k5, q6, b in self.cond(c, q5, fr):
                                        if k5 == 'raise':
                                            fin.append((k5, q6, b))
                                        elif b:
                                            nl.append(q6)
                                        else:
                                            nxt.append(('next', q6, None))
                                here = nl
                            for q5 in here:
                                for r in gen(i + 1, q5):
                                    (nxt if r[0] == 'next' else fin).append(r)
                    live = dedup(nxt)
                return fin + live

            def go(q1, v):
                items = self.seq(v, q1)
                if items is not None and len(items) <= 6:
                    return exact(q1, items)
                q1 = q1.copy()
                q1.heap.pop((o, '#'), None)
                el = ('elem', self.site(fr, g.iter), v)
                seen, todo, fin = set(), [q1], []
                while todo:
                    q2 = todo.pop()
                    if q2.key() in seen:
                        continue
                    seen.add(q2.key())
                    fin.append(('next', self.client.iter_done(q2, fr, e, el) or q2, None))
                    q3 = q2.copy()
                    q3.facts = {c: b for c, b in q3.facts.items() if not mentions(c, el)}
                    q3.heap = {c: b for c, b in q3.heap.items() if not mentions(c[0], el)}
                    xs = [el]
                    if v[0] == 'list':
                        xs = list(q3.heap.get((v, '*'), ())) or [el]
                    elif v[0] == 'tuple':
                        xs = list(v[1:]) or [el]
                    q3 = self.client.iter_start(q3, fr, e, el) or q3
                    for x in xs:
                        for k, q4, w in self.assign(g.target, x, q3, fr):
                            live = [q4]
                            for c in g.ifs:
                                nl = []
                                for q5 in live:
                                    for k5, q6, b in self.cond(c, q5, fr):
                                        if k5 == 'raise':
                                            fin.append((k5, q6, b))
                                        elif b:
                                            nl.append(q6)
                                        else:
                                            self.client.iter_end(q6, fr, e, el, 'continue')
                                            todo.append(q6)
                                live = nl
                            for q5 in live:
                                for k5, q6, w5 in gen(i + 1, q5):
                                    self.client.iter_end(q6, fr, e, el, k5)
                                    if k5 == 'next':
                                        todo.append(q6)
                                    else:
                                        fin.append((k5, q6, w5))
                return fin
            return self.then(g.iter, q, fr, go)
        out = []
        for k, q, v in gen(0, s):
            out.append(('val', q, o) if k == 'next' else (k, q, v))
        return dedup(out)

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, [e.elt])

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, [e.key, e.value])


def as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)


def locals_of(fi):
    if getattr(fi, '_locals', None) is None:
        s = set()
        if not isinstance(fi.node, ast.Lambda):
            g = set()
            from .program import walk_own
            for n in walk_own(fi.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    s.add(n.id)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    g |= set(n.names)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
            comp = set()
            for n in walk_own(fi.node):
                if isinstance(n, ast.comprehension):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            comp.add(x.id)
            s -= g
        fi._locals = s
    return fi._locals


class Client(object):
    """Default meaning of everything; override what matters."""
    class_state_unknown = True
    P = None

    def import_fails(self, name):
        return True

    def inline(self, fi):
        return False

    def may_raise(self, fi):
        return True

    def opaque_fn(self, st, fr, node, fi, args, kw):
        return self.P.opaque(st, fr, node, ('fn',), args, self.may_raise(fi))

    def opaque_call(self, st, fr, node, f, args, kw):
        return self.P.opaque(st, fr, node, f, args, True)

    def call(self, st, fr, node, f, args, kw):
        return None

    def method(self, st, fr, node, o, name, args, kw):
        return None

    def getattr(self, st, fr, node, o, name):
        return None

    def subscript(self, st, fr, node, o, i):
        return None

    def compare(self, st, op, a, b):
        return None

    def known(self, st, k):
        return None

    def assume(self, st, k, b):
        return None

    def on_setattr(self, st, fr, node, o, v):
        return None

    def on_setitem(self, st, fr, node, o, v):
        return None

    def on_handle(self, st, exc):
        return None

    def iter_start(self, st, fr, node, el):
        return None

    def iter_end(self, st, fr, node, el, kind):
        return None

    def iter_done(self, st, fr, node, el):
        return None

    def close(self, st, fr, node, v):
        return [('val', st, NONE)]

    def enter_opaque(self, st, fr, node, v):
        return [('val', st, v)]

    def exit_opaque(self, st, fr, node, v):
        return [('val', st, NONE)]
