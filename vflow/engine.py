"""Interprocedural gated value-flow analysis.

The analysis walks each function body once per calling context (loops: until the
set of loop-carried locations is stable), keeping for every variable and object
field the term that describes its value.  Both arms of a conditional are analysed
and joined by gated terms; loops are summarised by their generic iteration
(element, index, accumulated sum, latched value); nothing is executed, no path is
enumerated and no solver is asked.  Everything the code does to opaque API objects
is logged as an event with the conditions (guards) and loops under which it
happens; containers are described by the log of what is put into them.
"""
import ast
import importlib
import copy
import builtins as builtins_
from .terms import *
from . import terms as TM
from .program import FuncInfo, ClassInfo, ModuleInfo

ITER_METHODS = {'scopes', 'coverItems', 'historyNodes', 'iter', 'getiterator', 'iterchildren', 'iterfind', 'iterdescendants'}
PURE_PREFIX = ('get', 'is', 'has', 'num', 'find', 'to', 'as_', 'split', 'strip', 'lower', 'upper', 'starts', 'ends',
               'format', 'join', 'scopes', 'coverItems', 'historyNodes', 'iter', 'items', 'keys', 'values', 'xpath',
               'strf', 'strp', 'replace', 'rstrip', 'lstrip', 'encode', 'decode', 'exists', 'isdir', 'dirname',
               'abspath', 'basename', 'timestamp', 'timetuple', 'isoformat', 'from', 'now', 'today', 'mktime', 'count', 'index',
               'getroot', 'match', 'title', 'copy', 'partition', 'rpartition', 'capitalize', 'zfill', 'ljust', 'rjust')
MAXDEPTH = 40


class HeapObj(object):
    def __init__(self, kind, key, loops, guards, cls=None, where=None):
        self.kind = kind            # inst | list | dict | set | mod
        self.key = key
        self.loops = loops          # tuple of Loop at allocation
        self.guards = guards
        self.cls = cls
        self.where = where
        self.events = []            # container events
        self.default = None         # defaultdict factory
        self.counter = False        # collections.Counter: update adds
        self.shared = None          # description if allocated once per program/class/module
        self.keyed = None           # (dict HeapObj, key term) once stored under a key
        self.owner = None
        self.n = None
        self.ghost = []             # stores seen in an earlier pass over an enclosing loop
        self.shadow = {}            # field -> dict HeapObj: a list searched by a field of its elements, seen as a table

    def __repr__(self):
        nm = self.cls.name if self.cls is not None else self.kind
        return '%s@%s' % (nm, self.n)


class Event(object):
    __slots__ = ('kind', 'recv', 'name', 'args', 'kw', 'guards', 'loops', 'acts', 'site', 'stack', 'result', 'seq',
                 'pure', 'key', 'value', 'obj', 'intry', 'finally_', 'raw', 'op', 'via')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def conds(self):
        return [c for c, t in self.guards]

    def where(self):
        return site_str(self.site, self.stack)

    def __repr__(self):
        return '<%s %s.%s(%s) g=%s l=%s>' % (self.kind, show(self.recv) if self.recv is not None else '', self.name,
                                            ', '.join(map(show, self.args or ())), [show(c) for c, _ in self.guards], self.loops)


def site_str(site, stack):
    if site is None:
        return '?'
    path, line = site
    return '%s:%d in %s' % (path, line, stack[-1] if stack else '<module>')


def slice_conds(dom, n):
    """Bounds (is upper, bound) a position has to meet to lie in the slice."""
    lo, hi = cval(dom.a[1]), cval(dom.a[2])
    out = []
    if lo:
        out.append((False, const(lo) if lo > 0 else add(n, const(lo))))
    if hi is not None:
        out.append((True, const(hi) if hi >= 0 else add(n, const(hi))))
    return out


class Comp(object):
    """One producer of container elements: for loops, if guards: value."""
    __slots__ = ('loops', 'guards', 'value', 'slot', 'key', 'event', 'fill')

    def __init__(self, loops, guards, value, slot=None, key=None, event=None, fill=False):
        self.loops = loops
        self.guards = guards
        self.value = value
        self.slot = slot
        self.key = key
        self.event = event
        self.fill = fill

    def __repr__(self):
        return 'Comp(%s | %s : %s%s)' % (' '.join('%r:%s' % (l, show(l.domain)) for l in self.loops),
                                        ','.join(show(c) for c, _ in self.guards), show(self.value),
                                        ' slot=' + show(self.slot) if self.slot is not None else '')


class State(object):
    __slots__ = ('m', 'pc', 'dead', 'why')

    def __init__(self, m=None, pc=()):
        self.m = m if m is not None else {}
        self.pc = pc
        self.dead = False
        self.why = None

    def fork(self, cond=None, tag=''):
        s = State(dict(self.m), self.pc)
        if cond is not None:
            s.assume(cond, tag)
        return s

    def assume(self, cond, tag=''):
        cs = cond.a if cond.op == 'and' else (cond,)
        for c in cs:
            if c is FALSE:
                self.dead = True
                self.why = 'infeasible'
            if c is not TRUE:
                self.pc = self.pc + ((c, tag),)

    def become(self, s):
        self.m, self.pc, self.dead, self.why = s.m, s.pc, s.dead, s.why


class Everything(object):
    def __contains__(self, x):
        return True


class Frame(object):
    def __init__(self, fid, fi, module, cls, selft):
        self.fid = fid
        self.fi = fi
        self.module = module
        self.cls = cls
        self.selft = selft
        self.returns = []
        self.loopctl = []
        self.yields = None
        self.on_yield = None
        self.parent = None
        self.globals = set()
        self.nonlocals = {}
        self.locals = None
        self.keep = False
        self.site = None       # the call that is running


class LoopCtl(object):
    def __init__(self):
        self.breaks = []
        self.conts = []


class Abort(Exception):
    pass


def leaves_(t):
    return leaves_(t.a[1]) + leaves_(t.a[2]) if t.op == 'ite' else [t]


class Interp(object):
    def __init__(self, prog, iter_methods=ITER_METHODS, opaque_classes=(), opaque_funcs=(), maxsteps=3000000):
        self.prog = prog
        self.log = []
        self.trace = False     # log every use of an opaque value as well
        self.curnode = None
        self.loopnodes = []
        self.unbound = {}        # (name, path, line) -> stack: names nothing binds
        self.modnames = {}
        self.curline = 0
        self.prog_cache = {}
        self.nullable = None
        self.distinct = False  # the children of a scope have different names
        self.initlog = []      # events of module and class level initialisers
        self.heap = {}
        self.loops = []
        self.ctx = ()
        self.frames = []
        self.sitekeys = {}
        self.loopcache = {}
        self.modcache = {}
        self.actn = 0
        self.iter_methods = iter_methods
        self.opaque_classes = set(opaque_classes)
        self.opaque_funcs = set(opaque_funcs)
        self.globals_ = {}
        self.steps = 0
        self.maxsteps = maxsteps
        self.trydepth = []
        self.infinally = 0
        self.visited = set()
        self.unresolved = []
        self.muinit = {}       # (loops, place) -> values it may enter the loop with
        self.raises = []
        self.gstate = State()
        self.instcls = {}
        self.last_death = None
        self.cur_state = None
        self.miss = False
        self.oracle = None       # case assumptions under which loops are followed step by step
        self.lenof = {}
        self.typed_attrs = {}    # 'str'/'int' -> attribute names (and *names of lists of them) of that type
        self.ctors = {}          # name -> class standing for a class generated at run time

    # ------------------------------------------------------------ utilities
    def key(self, *k):
        n = self.sitekeys.get(k)
        if n is None:
            n = len(self.sitekeys)
            self.sitekeys[k] = n
        return n

    def cur_loops(self):
        return tuple(l for l, a in self.loops)

    def cur_acts(self):
        return tuple(a for l, a in self.loops)

    def sitekey(self, node, extra=None):
        return self.key('s', id(node), self.ctx, self.cur_loops(), extra)

    def site(self, node):
        f = self.frames[-1] if self.frames else None
        path = f.module.path if f else '?'
        return (path, getattr(node, 'lineno', 0))

    def stack(self):
        return tuple(f.fi.short if f.fi else '<module>' for f in self.frames)

    def alloc(self, kind, node, st, cls=None, extra=None):
        k = self.sitekey(node, (kind, extra))
        o = self.heap.get(k)
        if o is None:
            o = HeapObj(kind, k, self.cur_loops(), tuple(st.pc), cls, self.site(node))
            o.n = len(self.heap)
            self.heap[k] = o
        o.guards = tuple(st.pc)
        # re-allocation in another pass: drop the old contents
        self.reset_obj(o)
        return mk('ref', o, ())

    def reset_obj(self, o):
        if o.events:
            live = [e for e in o.events if e.seq is not None and e.seq < len(self.log) and self.log[e.seq] is e]
            o.events = live
        o.keyed = None
        for d in o.shadow.values():
            self.reset_obj(d)

    def emit(self, st, kind, node, **kw):
        e = Event(kind=kind, guards=tuple(st.pc), loops=self.cur_loops(), acts=self.cur_acts(),
                  site=self.site(node), stack=self.stack(), intry=tuple(self.trydepth), finally_=self.infinally, **kw)
        e.seq = len(self.log)
        self.log.append(e)
        if e.obj is not None and kind == 'cont':
            e.obj.events.append(e)
            if e.obj.shadow and e.name == 'append' and e.value is not None:
                for f, d in e.obj.shadow.items():
                    d.keyed = e.obj.keyed
                    k = self.getattr_(e.value, f, st, node) if e.value.op == 'ref' else mk('attr', e.value, f)
                    self.emit(st, 'cont', node, obj=d, recv=mk('ref', d, ()), name='store', key=k, value=e.value)
                    self.note_keyed(d, k, e.value)
        return e

    def typed(self, x, ty):
        """x is known (by the schema of the document) to have the builtin type ty."""
        s = self.typed_attrs.get(ty)
        if not s:
            return False
        if x.op == 'attr':
            return x.a[1] in s
        if x.op == 'elem' and x.a[0].domain.op == 'attr':
            return '*' + x.a[0].domain.a[1] in s
        return False

    def nonnull(self, c):
        """Resolve isnone(lookup(d, k)) when only objects were stored in d."""
        for x in set(subterms(c)):
            if x.op == 'isnone' and x.a[0].op == 'lookup' and x.a[0].a[0].op == 'ref':
                ob = x.a[0].a[0].a[0]
                evs = [e for e in (ob.events or ob.ghost) if e.kind == 'cont']
                if evs and all(e.name == 'store' and e.value is not None and isnone(e.value) is FALSE for e in evs):
                    c = subst(c, {x: FALSE})
        return c

    def searched(self, LKt, conds, c):
        """(table, key) when the loop looks in a list for the element with a given field value."""
        if len(LKt) != 1 or LKt[0].domain.op != 'ref' or LKt[0].domain.a[0].kind != 'list':
            return None
        el = mk('elem', LKt[0])
        cs = [x for y in list(conds) + [c] for x in (y.a if y.op == 'and' else (y,)) if x is not TRUE]
        if len(cs) != 1 or cs[0].op != 'op' or cs[0].a[0] != '==':
            return None
        a, b = cs[0].a[1:]
        if not (a.op == 'attr' and a.a[0] is el):
            a, b = b, a
        if not (a.op == 'attr' and a.a[0] is el) or el in set(subterms(b)):
            return None
        ob, sub = LKt[0].domain.a
        f = a.a[1]
        d = ob.shadow.get(f)
        if d is None:
            if ob.events:
                return None
            d = HeapObj('dict', ('shadow', ob.key, f), ob.loops, ob.guards, None, ob.where)
            d.n = len(self.heap)
            self.heap[d.key] = d
            ob.shadow[f] = d
            self.miss = True
        d.keyed = ob.keyed
        return mk('ref', d, sub), b

    def exists_(self, LKt, conds, c, st):
        r = self.searched(LKt, conds, c)
        if r is not None:
            return self.contains(r[1], r[0], st)
        return mk('exists', LKt, conds, c)

    def truncate(self, mark):
        for e in self.log[mark:]:
            if e.kind == 'cont' and e.obj is not None and e.obj.events:
                try:
                    e.obj.events.remove(e)
                except ValueError:
                    pass
                if e.name in ('store', 'append', 'add', 'storeidx') and len(e.obj.ghost) < 64:
                    e.obj.ghost.append(e)
        del self.log[mark:]

    def obj(self, t):
        return t.a[0]

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Abort('analysis budget exceeded')

    # ------------------------------------------------------------ join
    def join(self, a, b):
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n][0] is b.pc[n][0]:
            n += 1
        ca = and_([c for c, t in a.pc[n:]])
        cb = and_([c for c, t in b.pc[n:]])
        pc = a.pc[:n]
        if ca is TRUE or cb is TRUE or cb is not_(ca):
            pass
        else:
            d = or_([ca, cb])
            if d is not TRUE:
                tags = {t for c, t in a.pc[n:]} | {t for c, t in b.pc[n:]}
                tag = 'raise' if 'raise' in tags and tags <= {'raise', ''} else 'join'
                pc = pc + ((d, tag),)
        out = State(None, pc)
        if a.m is b.m:
            out.m = a.m
            return out
        m = dict(a.m)
        for k, v in b.m.items():
            u = m.get(k)
            if u is v:
                continue
            if u is None:
                if k[0] == 'v':
                    m[k] = self.gate(ca, cb, UNDEF, v)
                else:
                    m[k] = v
            else:
                m[k] = self.gate(ca, cb, u, v)
        for k in a.m:
            if k not in b.m and k[0] == 'v':
                m[k] = self.gate(ca, cb, a.m[k], UNDEF)
        out.m = m
        return out

    def gate(self, ca, cb, u, v):
        if ca is TRUE and cb is not TRUE:
            return ite(cb, v, u)
        return ite(ca, u, v)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None or st.dead:
                return None
            st = self.stmt(s, st)
        return st

    def die(self, why):
        self.last_death = why
        return None

    def stmt(self, s, st):
        self.tick()
        self.curnode = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unresolved.append(('stmt ' + type(s).__name__, self.site(s), self.stack()))
            return st
        loop = isinstance(s, (ast.For, ast.While))
        if loop:
            self.loopnodes.append(s)
        try:
            r = m(s, st)
        finally:
            if loop:
                self.loopnodes.pop()
        if r is not None and r.dead:
            return self.die(r.why or 'raise')
        return r

    def fills(self, node, depth=0, seen=()):
        """Names of variables and fields whose containers the code of a loop may add to (by name, over called functions of the module)."""
        k = ('fills', node, depth)
        if k not in self.prog_cache:
            out = set()
            calls = set()
            last = lambda x: x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            for x in ast.walk(node):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                    out.add(last(x.value))
                elif isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Attribute):
                        if x.func.attr in ('append', 'add', 'setdefault', 'update', 'insert', 'extend', '__setitem__'):
                            out.add(last(x.func.value))
                    calls.add(last(x.func))
            if depth < 3:
                for x in ast.walk(self.frames[-1].module.tree):
                    if isinstance(x, ast.FunctionDef) and x.name in calls and x is not node:
                        out |= self.fills(x, depth + 1)
            self.prog_cache[k] = out - {None}
        return self.prog_cache[k]

    def grows(self, ob, ref, st):
        """May an earlier round of a running loop have added to ob?"""
        if not self.loopnodes or tuple(ob.loops) == tuple(self.cur_loops()):
            return False
        names = {k[-1] for k, v in st.m.items() if isinstance(v, T) and v is ref and isinstance(k[-1], str)}
        return any(names & self.fills(n) for n in self.loopnodes)

    def s_Pass(self, s, st):
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if st.dead:
            return st
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if not st.dead:
                self.assign(s.target, v, st, s)
        return st

    def s_AugAssign(self, s, st):
        v = self.ev(s.value, st)
        t = s.target
        opn = OPS[type(s.op)]
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            if old.op == 'ref' and self.obj(old).kind in ('list', 'set') and opn in ('+', '|'):
                self.extend(old, v, st, s)
                return st
            self.assign(t, self.binop(opn, old, v, st, s), st, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            old = self.getattr_(o, t.attr, st, t)
            if old.op == 'ref' and self.obj(old).kind in ('list', 'set') and opn in ('+', '|'):
                self.extend(old, v, st, s)
                return st
            self.setattr_(o, t.attr, self.binop(opn, old, v, st, s), st, s, aug=(opn, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_slice(t.slice, st)
            self.augitem(o, k, opn, v, st, s)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev_slice(t.slice, st)
                if o.op == 'ref':
                    self.emit(st, 'cont', s, obj=self.obj(o), recv=o, name='del', key=k)
                else:
                    self.emit(st, 'call', s, recv=o, name='__delitem__', args=(k,), kw={}, pure=False)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                self.emit(st, 'setattr', s, recv=o, name=t.attr, value=UNDEF, args=())
        return st

    def s_Global(self, s, st):
        self.frames[-1].globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st):
        f = self.frames[-1]
        for n in s.names:
            p = f.parent
            while p is not None:
                if ('v', p.fid, n) in st.m:
                    f.nonlocals[n] = p.fid
                    break
                p = p.parent
        return st

    def s_Import(self, s, st):
        f = self.frames[-1]
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            st.m[('v', f.fid, nm)] = self.modterm(tgt)
        return st

    def s_ImportFrom(self, s, st):
        f = self.frames[-1]
        mod = f.module.absname(s)
        for a in s.names:
            if a.name == '*':
                continue
            v = None
            if mod in self.prog.modules:
                v = self.global_(self.prog.modules[mod], a.name)
            if v is None and mod + '.' + a.name in self.prog.modules:
                v = mk('mod', mod + '.' + a.name)
            if v is None:
                v = mk('ext', mod + '.' + a.name)
            st.m[('v', f.fid, a.asname or a.name)] = v
        return st

    def modterm(self, name):
        return mk('mod', name) if name in self.prog.modules else mk('ext', name)

    def s_FunctionDef(self, s, st):
        f = self.frames[-1]
        fi = FuncInfo(s, f.module, None, f.fi)
        f.keep = True
        st.m[('v', f.fid, s.name)] = mk('closure', self.fi_of(s, f), f)
        return st

    def fi_of(self, node, f):
        k = ('fi', id(node))
        r = self.globals_.get(k)
        if r is None:
            r = FuncInfo(node, f.module, None, f.fi)
            self.globals_[k] = r
        return r

    def s_ClassDef(self, s, st):
        f = self.frames[-1]
        k = ('ci', id(s))
        if k not in self.globals_:
            self.globals_[k] = ClassInfo(s, f.module)
        st.m[('v', f.fid, s.name)] = mk('cls', self.globals_[k])
        return st

    def s_If(self, s, st):
        c = self.truth_(self.evbool(s.test, st), st)
        if st.dead:
            return None
        c = self.simplify_pc(c, st)
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        if self.oracle is not None:
            self.oracle.open.append(c)
        s1, s2 = st.fork(c), st.fork(not_(c))
        n = len(st.pc)
        self.last_death = None
        r1 = self.block(s.body, s1) if not s1.dead else self.die('infeasible')
        d1 = self.last_death
        self.last_death = None
        r2 = self.block(s.orelse, s2) if not s2.dead else self.die('infeasible')
        d2 = self.last_death
        return self.join_tagged(r1, d1, r2, d2, n)

    def join_tagged(self, r1, d1, r2, d2, n):
        if r1 is None and r2 is None:
            self.last_death = d1 if d1 == d2 else 'mixed'
            return None
        if r1 is None:
            r2.pc = r2.pc[:n] + tuple((c, d1 or t) for c, t in r2.pc[n:n + 1]) + r2.pc[n + 1:]
            return r2
        if r2 is None:
            r1.pc = r1.pc[:n] + tuple((c, d2 or t) for c, t in r1.pc[n:n + 1]) + r1.pc[n + 1:]
            return r1
        return self.join(r1, r2)

    def simplify_pc(self, c, st):
        if c is TRUE or c is FALSE:
            return c
        if c.op == 'in':
            return c
        known = {x for x, t in st.pc}
        if c in known:
            return TRUE
        if not_(c) in known:
            return FALSE
        return c

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.dead:
            return self.die('raise')
        st.m[('v', self.frames[-1].fid, '%ret')] = v
        self.frames[-1].returns.append(st)
        return self.die('return')

    def s_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else mk('reraise')
        self.emit(st, 'raise', s, recv=None, name='raise', args=(v,), value=v)
        return self.die('raise')

    def s_Assert(self, s, st):
        c = self.truth_(self.evbool(s.test, st), st)
        if c is FALSE:
            return self.die('raise')
        st.assume(c, 'raise')
        return st

    def s_Break(self, s, st):
        if self.frames[-1].loopctl:
            self.frames[-1].loopctl[-1].breaks.append(st)
        return self.die('break')

    def s_Continue(self, s, st):
        if self.frames[-1].loopctl:
            self.frames[-1].loopctl[-1].conts.append(st)
        return self.die('continue')

    def s_With(self, s, st):
        return self.do_with(list(s.items), s, st)

    def do_with(self, items, s, st):
        if not items:
            return self.block(s.body, st)
        it = items[0]
        v = self.ev(it.context_expr, st)
        if st.dead:
            return None
        if v.op == 'ctxgen':
            # generator-based context manager: run its body, the with-block at the yield
            fi, clos, args, kw, selft, node = v.a
            out = {}
            caller = self.frames[-1]
            nfr = len(self.frames)

            def on_yield(val, st2):
                cur = self.frames[nfr:]
                del self.frames[nfr:]
                try:
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, val, st2, s)
                    r = self.do_with(items[1:], s, st2)
                finally:
                    self.frames.extend(cur)
                return r
            self.call_fn(fi, list(args), dict(kw), st, selft, node, clos=clos, on_yield=on_yield)
            return None if st.dead else st
        if v.op == 'ref' and self.obj(v).kind == 'inst':
            en = self.call_method(v, '__enter__', [], {}, st, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, en, st, s)
            r = self.do_with(items[1:], s, st)
            if r is not None:
                self.call_method(v, '__exit__', [NONE, NONE, NONE], {}, r, s)
            return r
        e = self.emit(st, 'enter', s, recv=v, name='__enter__', args=())
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st, s)
        self.trydepth.append(('with', v, id(s)))
        try:
            r = self.do_with(items[1:], s, st)
        finally:
            self.trydepth.pop()
        self.emit(r if r is not None else st, 'exit', s, recv=v, name='__exit__', args=())
        return r

    def s_Try(self, s, st):
        tid = self.key('try', id(s), self.ctx, self.cur_loops())
        pre = st.fork()
        f = self.frames[-1]
        kinds = []
        for h in s.handlers:
            kinds.append(ast.dump(h.type) if h.type is not None else '')
        mark = len(self.log)
        nret = len(f.returns)
        self.trydepth.append(('try', tid, bool(s.handlers), bool(s.finalbody), tuple(self.hnames(h) for h in s.handlers)))
        try:
            body = st
            if s.handlers:
                exc = mk('exc', tid)
                exc = self.exc_cond(s, st, exc)
                body = st.fork(not_(exc), 'exc')
            n = len(st.pc)
            self.last_death = None
            r = self.block(s.body, body)
            d = self.last_death
        finally:
            self.trydepth.pop()
        outs = []
        if r is not None and s.orelse:
            r = self.block(s.orelse, r)
        if s.handlers:
            raised = [e for e in self.log[mark:] if e.kind == 'raise']
            hres = None
            hd = None
            for i, h in enumerate(s.handlers):
                hs = pre.fork(exc if len(s.handlers) == 1 else mk('exc', tid, i), 'handler')
                # locations changed in the body are unknown at the handler
                if r is not None:
                    for k, v in r.m.items():
                        if k in pre.m and pre.m[k] is not v and k[0] == 'v':
                            hs.m[k] = mk('ite', mk('exc', tid, 'prog'), v, pre.m[k])
                if h.name:
                    hs.m[('v', f.fid, h.name)] = mk('exception', tid, i)
                self.last_death = None
                hr = self.block(h.body, hs)
                hd = self.last_death
                hres = self.join(hres, hr)
            if hres is None and r is not None:
                r.pc = r.pc[:n] + tuple((c, 'raise' if hd == 'raise' else (hd or t)) for c, t in r.pc[n:n + 1]) + r.pc[n + 1:]
            elif hres is not None and r is not None:
                r = self.join(r, hres)
            elif r is None:
                r = hres
                if r is None:
                    self.last_death = d
        if s.finalbody:
            self.infinally += 1
            try:
                if r is not None:
                    r = self.block(s.finalbody, r)
                else:
                    keep = self.last_death
                    outs = f.returns[nret:]
                    if outs:
                        # run the finally block on the returning states
                        nr = []
                        for x in outs:
                            y = self.block(s.finalbody, x)
                            if y is not None:
                                nr.append(y)
                        f.returns[nret:] = nr
                    else:
                        self.block(s.finalbody, pre.fork())
                    self.last_death = keep
            finally:
                self.infinally -= 1
        return r

    def hnames(self, h):
        if h.type is None:
            return '*'
        if isinstance(h.type, ast.Tuple):
            return ','.join(getattr(x, 'id', getattr(x, 'attr', '?')) for x in h.type.elts)
        return getattr(h.type, 'id', getattr(h.type, 'attr', '?'))

    def exc_cond(self, s, st, exc):
        """try: m[k]... except KeyError -- the condition is `k not in m`."""
        if self.oracle is not None and len(s.handlers) == 1 and self.hnames(s.handlers[0]) == 'IndexError' and len(s.body) == 1:
            subs = [n for n in ast.walk(s.body[0]) if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice)]
            if len(subs) == 1:
                o, k = self.ev(subs[0].value, st.fork()), self.ev_slice(subs[0].slice, st.fork())
                if o.op != 'ref':
                    return self.oracle.decide(oper('>=', k, mk('op', 'len', strip_it(o))))
        if len(s.handlers) == 1 and self.hnames(s.handlers[0]) == 'KeyError' and len(s.body) == 1:
            subs = [n for n in ast.walk(s.body[0]) if isinstance(n, ast.Subscript)]
            names = [n for n in subs if isinstance(n.value, (ast.Name, ast.Attribute)) and not isinstance(n.slice, ast.Slice)]
            if len(names) == 1:
                try:
                    o = self.ev(names[0].value, st.fork())
                    k = self.ev_slice(names[0].slice, st.fork())
                    if o.op == 'ref' and self.obj(o).kind == 'dict':
                        return not_(self.contains(k, o, st))
                except Exception:
                    pass
        return exc

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        return self.iterate(s.iter, s.target, lambda st2: self.block(s.body, st2), st, s, s.orelse)

    def iterate(self, iterexpr, target, body, st, node, orelse=()):
        dom = self.ev(iterexpr, st)
        if st.dead:
            return None
        if self.oracle is not None and isinstance(node, ast.For):
            q = self.stepfor(node, strip_it(dom), st)
            if q is not None:
                lo, hi, el = q
                k = ('v', self.frames[-1].fid, '%for' + str(node.lineno))
                if dom.op == 'it' and ('pos', dom) in st.m:
                    k = ('pos', dom)
                else:
                    st.m[k] = lo

                def body2(s2):
                    i = s2.m[k]
                    s2.m[k] = add(i, const(1))
                    self.assign(target, el(i), s2, node)
                    return body(s2)
                return self.stepwise(node, st, lambda s2: self.oracle.decide(oper('<', s2.m[k], hi)), body2, orelse)
        return self.iter_term(dom, lambda v, st2: self.assign(target, v, st2, node), body, st, node, orelse)

    def producers(self, dom, st, node):
        """List of ('const', value) | ('comp', Comp, wrap) | ('loop', domain, fn) describing what iterating dom yields.

        fn maps the Loop to the element term."""
        if dom.op == 'tuple':
            return [('const', v) for v in dom.a]
        if dom.op == 'const' and isinstance(dom.a[0], (tuple, str)):
            return [('const', const(v)) for v in dom.a[0]]
        if dom.op == 'enumerate':
            inner, start = dom.a
            ps = self.producers(inner, st, node)
            out = []
            n = 0
            for p in ps:
                if p[0] == 'const':
                    out.append(('const', mk('tuple', add(const(n), start), p[1])))
                    n += 1
                elif p[0] == 'loop':
                    fn = p[2]
                    out.append(('loop', p[1], lambda L, fn=fn: mk('tuple', add(mk('idx', L), start), fn(L))))
                else:
                    c = p[1]
                    w = p[2]
                    idx = add(const(n), mk('idx', c.loops[-1])) if len(c.loops) == 1 and not c.guards and all(q[0] == 'const' for q in ps[:ps.index(p)]) else \
                        mk('ordinal', tuple(c.loops), dom)
                    out.append(('comp', c, lambda v, w=w, idx=idx: mk('tuple', add(idx, start), w(v))))
            return out
        if dom.op == 'zip':
            ts = dom.a
            ps = [self.producers(t, st, node) for t in ts]
            if all(len(p) == 1 and p[0][0] == 'loop' for p in ps):
                d0, f0 = ps[0][0][1], ps[0][0][2]
                rest = [strip_it(t) for t in ts[1:]]

                def fn(L):
                    L.zipped = tuple(rest)
                    return mk('tuple', f0(L), *[index(r, mk('idx', L)) for r in rest])
                return [('loop', d0, fn)]
            if all(all(q[0] == 'const' for q in p) for p in ps):
                return [('const', mk('tuple', *[q[1] for q in qs])) for qs in zip(*ps)]
            if len(ps) == 2 and all(q[0] == 'const' for q in ps[0]) and len(ps[1]) == 1 and ps[1][0][0] == 'loop':
                r = strip_it(ts[1])
                return [('const', mk('tuple', q[1], index(r, const(i)))) for i, q in enumerate(ps[0])]
            return [('loop', dom, lambda L: mk('elem', L))]
        if dom.op == 'dictitems':
            o, what = dom.a
            if o.op == 'ref':
                return self.dict_producers(o, what, st)
            if what == 'items':
                return [('loop', o, lambda L: mk('tuple', mk('elem', L), index(o, mk('elem', L))))]
            if what == 'values':
                return [('loop', o, lambda L: index(o, mk('elem', L)))]
            return [('loop', o, lambda L: mk('elem', L))]
        if dom.op == 'rangeref':
            r = dom.a[0]
            cs = self.contents(r, st) if self.obj(r).kind == 'list' else None
            if cs is None:
                return [('loop', mk('range', ZERO, mk('op', 'len', r)), lambda L: mk('idx', L))]
            if all(not c.loops and not c.guards for c in cs):
                return [('const', const(i)) for i in range(len(cs))]
            return [('comp', c, lambda v, r=r: mk('posin', r, v)) for c in cs]
        if dom.op == 'rangelen':
            d = dom.a[0]
            if d.op == 'ref':
                return [('loop', mk('range', ZERO, mk('op', 'len', d)), lambda L: mk('idx', L))]
            return [('loop', d, lambda L: mk('idx', L))]
        if dom.op == 'range':
            lo, hi = dom.a
            if is_const(lo) and is_const(hi) and cval(hi) - cval(lo) <= 64:
                return [('const', const(i)) for i in range(cval(lo), cval(hi))]
            return [('loop', dom, lambda L: add(mk('idx', L), lo))]
        if dom.op == 'ref':
            o = self.obj(dom)
            if o.kind == 'dict':
                return self.dict_producers(dom, 'keys', st)
            if o.kind in ('list', 'set'):
                if o.kind == 'list' and self.filling(o):
                    return [('loop', dom, lambda L: mk('elem', L))]
                cs = self.contents(dom, st)
                if cs is None:
                    return [('loop', top('contents of %r' % o), lambda L: mk('elem', L))]
                if o.kind == 'set':
                    for c in cs:
                        if c.loops:
                            c.guards = list(c.guards) + [(mk('uniq', c.value, mk('ref', o, ())), 'uniq')]
                return [self.comp_prod(c) for c in cs]
            if o.kind == 'inst':
                it = self.prog.find_method(o.cls, '__iter__') if o.cls else None
                if it is not None:
                    r = self.call_method(dom, '__iter__', [], {}, st, node)
                    if r is not dom and r.op != 'top':
                        return self.producers(r, st, node)
                return [('loop', dom, lambda L: mk('elem', L))]
        if dom.op == 'it':
            u = ('used', dom)
            if st.m.get(u) is not None:
                d = mk('exhausted', strip_it(dom))
            else:
                pos = st.m.get(('pos', dom))
                d = strip_it(dom) if pos is None else mk('tail', strip_it(dom), pos)
            st.m[u] = TRUE
            return [('loop', d, lambda L: mk('elem', L))]
        if dom.op == 'ite':
            # gated domain: both arms under their conditions
            out = []
            for cond, arm in ((dom.a[0], dom.a[1]), (not_(dom.a[0]), dom.a[2])):
                if arm is NONE:
                    continue
                if arm.op == 'ref':
                    # `x or []`: no element is left out by asking whether there is one
                    cond = and_([c for c in (cond.a if cond.op == 'and' else (cond,)) if not (c.op in ('nonempty', 'truth') and c.a[0] is arm)])
                for p in self.producers(arm, st, node):
                    out.append(('guard', cond, p) if cond is not TRUE else p)
            return out
        if dom.op == 'slice' and dom.a[0].op == 'ref' and self.obj(dom.a[0]).kind == 'list' and not self.filling(self.obj(dom.a[0])) and \
                all(x.op == 'const' for x in dom.a[1:]):
            q = self.sliced(dom, st, node)
            if q is not None:
                return q
        if dom.op == 'listof':
            return [('loop', strip_it(dom), lambda L: mk('elem', L))]
        if dom.op == 'sorted':
            return [('loop', dom, lambda L: mk('elem', L))]
        return [('loop', dom, lambda L: mk('elem', L))]

    def sliced(self, dom, st, node):
        """Producers of list[lo:hi] with constant bounds: those of the list, filtered by position."""
        x = dom.a[0]
        if cval(dom.a[3]) not in (None, 1):
            return None
        conds = slice_conds(dom, mk('op', 'len', x))
        out = []
        for p in self.producers(mk('enumerate', x, ZERO), st, node):
            if p[0] == 'const':
                i, v = p[1].a
                gs = [oper('<', i, b) if up else not_(oper('<', i, b)) for up, b in conds]
                if FALSE in gs:
                    continue
                q = ('const', v)
                for g in gs:
                    if g is not TRUE:
                        q = ('guard', g, q)
                out.append(q)
            elif p[0] == 'comp':
                c, w = p[1], p[2]
                i, v = w(c.value).a
                if any(y.op == 'ordinal' for y in subterms(i)):
                    return None
                gs = [oper('<', i, b) if up else not_(oper('<', i, b)) for up, b in conds]
                out.append(('comp', Comp(c.loops, list(c.guards) + [(g, 'filter') for g in gs if g is not TRUE], v, c.slot, c.key, c.event, c.fill),
                            lambda v: v))
            else:
                return None
        return out

    def comp_prod(self, c):
        if not c.loops and not c.guards and not c.fill:
            return ('const', c.value)
        return ('comp', c, lambda v: v)

    def iter_term(self, dom, bind, body, st, node, orelse=()):
        lconds = None
        d0 = strip_it(dom)
        if d0.op == 'slice' and d0.a[0].op != 'ref' and all(x.op == 'const' for x in d0.a[1:]) and cval(d0.a[3]) in (None, 1) and self.oracle is None:
            q = self.producers(d0.a[0], st, node)
            if len(q) == 1 and q[0][0] == 'loop' and q[0][1].op not in ('range', 'zip', 'top'):
                prods, lconds = q, slice_conds(d0, mk('op', 'len', strip_it(q[0][1])))
        if lconds is None:
            prods = self.producers(dom, st, node)
        f = self.frames[-1]
        broken = []
        for i, p in enumerate(prods):
            if st is None:
                break
            save = self.ctx
            if len(prods) > 1:
                self.ctx = self.ctx + (('u', id(node), i),)
            try:
                guards = []
                while p[0] == 'guard':
                    guards.append((p[1], ''))
                    p = p[2]
                if p[0] == 'const':
                    st, br = self.run_once(p[1], guards, bind, body, st)
                    broken.extend(br)
                elif p[0] == 'comp':
                    c, wrap = p[1], p[2]
                    if c.loops:
                        lk, gd, val = list(c.loops), list(c.guards), c.value
                        stop = can_stop(node)
                        if stop:
                            # this consumer may stop early: its own copy of the loops carries that
                            mp = self.fresh_map(lk, ('brk', id(node), self.ctx))
                            lk = [mp[l] for l in lk]
                            gd = [(rename(g, mp), t) for g, t in gd]
                            val = rename(val, mp)
                        st = self.run_loop(lk, guards + gd, lambda st2: bind(wrap(val), st2), body, st, node, own=stop, sep=broken if orelse else None)
                    else:
                        st, br = self.run_once(wrap(c.value), guards + list(c.guards), bind, body, st)
                        broken.extend(br)
                else:
                    L = self.loop_for(node, p[1], i)
                    for up, b in lconds or ():
                        c = oper('<', mk('idx', L), b)
                        guards.append((c if up else not_(c), 'filter'))
                    st = self.run_loop([L], guards, lambda st2: bind(p[2](L), st2), body, st, node, sep=broken if orelse else None)
            finally:
                self.ctx = save
        if orelse and st is not None:
            st = self.block(orelse, st)
        for b in broken:
            st = self.join(st, b)
        return st

    def loop_for(self, node, domain, i=0, kind='for'):
        k = (id(node), self.ctx, self.cur_loops(), domain, i)
        L = self.loopcache.get(k)
        if L is None:
            L = Loop(domain, node, None, kind, self.site(node))
            self.loopcache[k] = L
        L.trunc = []
        return L

    def run_once(self, v, guards, bind, body, st):
        f = self.frames[-1]
        ctl = LoopCtl()
        f.loopctl.append(ctl)
        n = len(st.pc)
        if guards:
            s1 = st.fork()
            for g, t in guards:
                s1.assume(g, t)
            s0 = st.fork(not_(and_([g for g, t in guards])))
            if s1.dead:
                f.loopctl.pop()
                return st, []
        else:
            s1, s0 = st, None
        bind(v, s1)
        r = body(s1)
        f.loopctl.pop()
        for c in ctl.conts:
            r = self.join(r, c)
        if s0 is not None:
            r = self.join(r, s0)
        return r, ctl.breaks

    def run_loop(self, LK, guards, bind, body, st, node, whilecond=None, own=True, sep=None):
        """Summarise one loop (LK: product of loops being iterated)."""
        LKt = tuple(LK)
        f = self.frames[-1]
        mkey = (id(node), self.ctx, LKt)
        mod = dict(self.modcache.get(mkey, {}))   # key -> None | counter-init
        n = len(st.pc)
        outer_miss, missed = self.miss, False
        for _pass in range(14):
            self.miss = False
            mark = len(self.log)
            nret = len(f.returns)
            s1 = st.fork()
            for k, cnt in mod.items():
                if cnt is not None:
                    s1.m[k] = add(mk('idx', LKt[-1]) if len(LKt) == 1 else mk('ordinal', LKt, None), cnt)
                elif k in s1.m or k[0] == 'v':
                    s1.m[k] = mk('mu', LKt, k, ) if k in s1.m else mk('mu', LKt, k)
            for l in LK:
                self.actn += 1
                self.loops.append((l, self.actn))
                if own:
                    l.trunc = []
            for g, t in guards:
                s1.assume(g, t)
            nb = len(s1.pc)
            ctl = LoopCtl()
            f.loopctl.append(ctl)
            r = None
            if not s1.dead:
                if whilecond is not None:
                    c = whilecond(s1)
                    if s1.dead:
                        pass
                    elif c is not TRUE:
                        s1.assume(c, 'while')
                        nb = len(s1.pc)
                bind(s1)
                r = body(s1)
            f.loopctl.pop()
            del self.loops[len(self.loops) - len(LK):]
            end = r
            for c in ctl.conts:
                end = self.join(end, c)
            rets = f.returns[nret:]
            # which outer locations changed?
            changed = set()
            for e2 in [end] + ctl.breaks + rets:
                if e2 is None:
                    continue
                for k, v in e2.m.items():
                    if s1_get(s1, st, mod, k, LKt) is v:
                        continue
                    if k[0] == 'v' and k[2] == '%ret':
                        continue
                    if k[0] == 'f' and k[1].op == 'ref' and any(l in k[1].a[0].loops for l in LK):
                        continue
                    if k[0] in ('f',) and k[1].op == 'new' and any(l in free_loops(k[1]) for l in LK):
                        continue
                    if k[0] in ('used', 'pos') and any(l in free_loops(k[1]) for l in LK):
                        continue
                    if k[0] in ('used', 'pos') and k not in st.m and self.it_local(k[1], LK):
                        continue
                    if k[0] == 'v' and k not in st.m and k[1] != f.fid:
                        fr = self.frame_alive(k[1])
                        if not fr:
                            continue
                    changed.add(k)
            new = changed - set(mod)
            if new:
                for k in new:
                    mod[k] = None
                self.truncate(mark)
                del f.returns[nret:]
                continue
            # counters
            ncnt = {}
            if end is not None and not ctl.breaks and not rets or True:
                for k, cnt in mod.items():
                    if cnt is not None or end is None:
                        continue
                    mu = mk('mu', LKt, k)
                    v = end.m.get(k)
                    init = st.m.get(k)
                    if v is not None and init is not None and v is add(mu, const(1)) and is_const(init) and isinstance(cval(init), int) and len(LKt) == 1:
                        ncnt[k] = init
            if ncnt:
                mod.update(ncnt)
                self.truncate(mark)
                del f.returns[nret:]
                continue
            if not missed and any(e.kind == 'cont' and e.name == 'storeidx' and e.obj.keyed is not None and
                                  e.key.op == 'const' and self.extra_loops(e.obj, e) for e in self.log[mark:]):
                self.miss = True
            if self.miss and not missed:
                # a lookup ran before the store it reads (an earlier iteration's): look again
                missed = True
                self.truncate(mark)
                del f.returns[nret:]
                continue
            break
        else:
            self.unresolved.append(('loop not stabilised', self.site(node), self.stack()))
        self.miss = outer_miss or self.miss
        self.modcache[mkey] = dict(mod)
        conds = tuple(c for c, t in guards)
        truncs = []
        for b in ctl.breaks:
            truncs.append(and_([c for c, t in b.pc[nb - 0:]]) if len(b.pc) >= nb else TRUE)
        rtruncs = []
        for b in rets:
            rtruncs.append(and_([c for c, t in b.pc[nb:]]))
        if own or truncs or rtruncs:
            for l in LK:
                l.trunc = truncs + rtruncs if own else l.trunc + [c for c in truncs + rtruncs if c not in l.trunc]
        out = st.fork()
        # summary of every changed location
        for k, cnt in mod.items():
            init = st.m.get(k, UNDEF)
            self.muinit.setdefault((LKt, k), set()).add(init)
            if end is None:
                out.m[k] = init
                continue
            v = end.m.get(k, UNDEF)
            out.m[k] = self.summarise(LKt, conds, k, init, v, cnt)
        if end is not None:
            for k, v in end.m.items():
                if k not in out.m:
                    out.m[k] = v
                elif k[0] == 'f' and k not in mod:
                    out.m[k] = v
        out.pc = st.pc
        # breaks: value at the first breaking iteration
        for b, c in zip(ctl.breaks, truncs):
            ex = self.exists_(LKt, conds, c, st)
            m2 = dict(out.m)
            for k in mod:
                vb = b.m.get(k, UNDEF)
                m2[k] = self.at_first(LKt, conds, c, vb, mk('mu', LKt, k), st, node)
                if cnt_of(mod, k) is not None and vb is s1.m.get(k):
                    m2[k] = mk('first', LKt, conds, c, vb)
            for k, v in b.m.items():
                if k not in m2:
                    m2[k] = v
            bs = State(m2, st.pc + ((ex, 'broke'),))
            ns = State(dict(out.m), st.pc + ((not_(ex), 'broke'),))
            if sep is not None:
                sep.append(bs)
                out = ns
            else:
                out = self.join(bs, ns)
        # returns from inside the loop
        if rets:
            newr = []
            for b, c in zip(rets, rtruncs):
                ex = self.exists_(LKt, conds, c, st)
                m2 = dict(b.m)
                rk = ('v', f.fid, '%ret')
                for k in list(mod) + [rk]:
                    if k in m2:
                        m2[k] = self.at_first(LKt, conds, c, m2[k], None, st, node)
                newr.append(State(m2, st.pc + ((ex, 'found'),)))
            f.returns[nret:] = newr
            allc = or_([self.exists_(LKt, conds, c, st) for c in rtruncs])
            if allc is TRUE:
                return self.die('return')
            out.assume(not_(allc), 'return')
        return out

    def it_local(self, it, LK):
        """iterator object created inside the loop being run"""
        return it.op == 'it' and any(l in it.a[2] for l in LK)

    def frame_alive(self, fid):
        return any(fr.fid == fid for fr in self.frames)

    def at_first(self, LKt, conds, c, v, mu, st=None, node=None):
        if v.op in ('const', 'sym', 'undef') or not (set(LKt) & free_loops(v)):
            return v
        if st is not None and v.op == 'elem':
            r = self.searched(LKt, conds, c)
            if r is not None and v.a[0] is LKt[0]:
                return self.lookup(r[0], r[1], st, node)
        return mk('first', LKt, conds, c, v)

    def summarise(self, LKt, conds, k, init, v, cnt):
        mu = mk('mu', LKt, k)
        if cnt is not None:
            step = v
            if len(LKt) == 1 and v is add(mk('idx', LKt[0]), cnt, const(1)):
                if not conds:
                    return add(init, mk('op', 'len', LKt[0].domain))
                return add(init, mk('sum', LKt, conds, const(1)))
            return mk('fold', LKt, conds, k, init, v)
        if v is mu:
            return init
        parts = addends(v, mu)
        if parts is not None:
            r = init
            for gs, e in parts:
                g = conds + tuple(gs)
                if e.op == 'sum':
                    s = mk('sum', LKt + e.a[0], g + e.a[1], e.a[2])
                else:
                    s = mk('sum', LKt, g, e)
                r = add(r, s)
            return r
        if mu not in set(subterms(v)):
            if v.op == 'const' and init is v:
                return v
            if k[0] in ('used',):
                return v
            # overwritten in every iteration
            return ite(mk('exists', LKt, conds, TRUE), mk('last', LKt, conds, TRUE, v), init)
        l = latch(v, mu)
        if l is not None:
            c, nv = l
            if nv.op == 'const' or not (set(LKt) & free_loops(nv)):
                return ite(self.exists_(LKt, conds, c, self.cur_state or State()), nv, init)
            return ite(mk('exists', LKt, conds, c), mk('last', LKt, conds, c, nv), init)
        return mk('fold', LKt, conds, k, init, v)

    def stepwise(self, node, st, cond, body, orelse):
        """Follow a loop under case assumptions: the oracle decides its condition and says when to stop."""
        f = self.frames[-1]
        exits = []
        n = 0
        while st is not None:
            if n == 0:
                self.oracle.first(self, node, f, st)
            c = cond(st)
            if st.dead:
                st = None
                break
            if c is FALSE:
                st = self.block(orelse, st) if orelse else st
                break
            if c is not TRUE:
                self.oracle.open.append(c)
                raise Abort('condition %s not decided' % show(c)[:80])
            if n and self.oracle.again(self, node, f, st):
                st = self.die('again')
                break
            n += 1
            if n > 6:
                raise Abort('loop not followed')
            ctl = LoopCtl()
            f.loopctl.append(ctl)
            r = body(st)
            f.loopctl.pop()
            for x in ctl.conts:
                r = self.join(r, x)
            exits += ctl.breaks
            st = r
        for b in exits:
            st = self.join(st, b)
        return st

    def stepfor(self, s, dom, st):
        """(cell, start, bound, element) of a for loop over a range, list or slice that is followed step by step."""
        off = None
        if dom.op == 'enumerate':
            off = dom.a[1] if len(dom.a) > 1 else ZERO
            dom = strip_it(dom.a[0])
        if dom.op == 'range' and off is None:
            a = dom.a
            if len(a) == 3 and a[2] is not const(1):
                return None
            lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
            return lo, hi, lambda i: i
        if dom.op == 'slice' and dom.a[2] is NONE and dom.a[3] is NONE:
            L, lo = dom.a[0], dom.a[1]
        elif dom.op in ('sym', 'listof', 'copyof'):
            L, lo = dom, ZERO
        else:
            return None
        if off is None:
            return lo, mk('op', 'len', L), lambda i: index(L, i)
        return lo, mk('op', 'len', L), lambda i: mk('tuple', i if off is lo else add(i, off, oper('*', const(-1), lo)), index(L, i))

    def s_While(self, s, st):
        if self.oracle is not None:
            return self.stepwise(s, st, lambda q: self.truth_(self.evbool(s.test, q), q), lambda q: self.block(s.body, q), s.orelse)
        c0 = self.truth_(self.evbool(s.test, st.fork()), st)
        if c0 is FALSE:
            return self.block(s.orelse, st) if s.orelse else st
        L = self.loop_for(s, mk('while', self.key('w', id(s), self.ctx, self.cur_loops())), 0, 'while')
        # first look: what does one iteration do?
        mark = len(self.log)
        probe = st.fork()
        nret = len(self.frames[-1].returns)
        cond = []

        def wc(st2):
            c = self.truth_(self.evbool(s.test, st2), st2)
            cond[:] = [c]
            return c
        ctlmark = len(self.frames[-1].returns)
        out = self.run_loop([L], [], lambda st2: None, lambda st2: self.block(s.body, st2), probe, s, whilecond=wc)
        c = cond[0] if cond else TRUE
        mod = self.modcache.get((id(s), self.ctx, (L,)), {})
        # while i < len(X): normalise to a for loop over X
        dom = None
        extra = []
        drop = {}
        ix = mk('idx', L)
        cs = list(c.a) if c.op == 'and' else [c]
        for cc in cs:
            if cc.op == 'op' and cc.a[0] in ('<', '!=', '>') and len(cc.a) == 3:
                a, b = (cc.a[1], cc.a[2]) if cc.a[0] != '>' else (cc.a[2], cc.a[1])
                if a is ix and b.op == 'op' and b.a[0] == 'len':
                    dom = b.a[1]
                    continue
                if a is ix:
                    dom = mk('range', ZERO, b)
                    continue
            if cc.op == 'not' and cc.a[0].op == 'isnone' and cc.a[0].a[0].op == 'mu':
                k = cc.a[0].a[0].a[1]
                init = st.m.get(k)
                if init is not None and init.op == 'nextv' and is_const(init.a[1]):
                    it = init.a[0]
                    pk = ('pos', it)
                    # each iteration ends by fetching the next one
                    if mod.get(pk, None) is not None:
                        dom = strip_it(it)
                        drop = {k: it}
                        continue
            extra.append(cc)
        # while True: x = next(it) ... (StopIteration -> break)
        if dom is not None and dom.op != 'ref':
            self.truncate(mark)
            del self.frames[-1].returns[ctlmark:]
            L2 = self.loop_for(s, dom, 1)
            for k2 in list(mod):
                self.modcache.setdefault((id(s), self.ctx, (L2,)), {})
            keep = dict(st.m)

            def bind(st2):
                for k in drop:
                    st2.m[k] = mk('elem', L2)

            def wc2(st2):
                r = [x for x in (self.truth_(self.evbool(s.test, st2), st2).a if self.truth_(self.evbool(s.test, st2), st2).op == 'and' else (self.truth_(self.evbool(s.test, st2), st2),))]
                rest = []
                for x in r:
                    if x.op == 'op' and x.a[0] in ('<', '!=', '>'):
                        a, b = (x.a[1], x.a[2]) if x.a[0] != '>' else (x.a[2], x.a[1])
                        if a.op == 'idx' and a.a[0] is L2:
                            continue
                        if a is mk('mu', (L2,), ('v', self.frames[-1].fid, None)):
                            continue
                    if x.op == 'not' and x.a[0].op == 'isnone' and x.a[0].a[0].op in ('mu',):
                        if x.a[0].a[0].a[1] in drop:
                            continue
                    rest.append(x)
                return and_(rest)
            out = self.run_loop([L2], [], bind, lambda st2: self.block(s.body, st2), st, s, whilecond=wc2)
            if out is not None:
                for k, it in drop.items():
                    out.m[k] = NONE
                    out.m[('used', it)] = TRUE
            if extra:
                L2.trunc = L2.trunc + [not_(x) for x in extra]
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        return out

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, node):
        f = self.frames[-1]
        if isinstance(t, ast.Name):
            if t.id in f.globals:
                self.emit(st, 'setglobal', node, recv=mk('mod', f.module.name), name=t.id, value=v, args=(v,))
                st.m[('g', f.module.name, t.id)] = v
            elif t.id in f.nonlocals:
                st.m[('v', f.nonlocals[t.id], t.id)] = v
            else:
                st.m[('v', f.fid, t.id)] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr_(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_slice(t.slice, st)
            self.setitem(o, k, v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if v.op == 'ref' and self.obj(v).kind == 'list':
                lit = self.literal_list(v)
                if lit is not None and len(lit) == n and not star:
                    v = mk('tuple', *lit)
            for i, x in enumerate(t.elts):
                if star:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, top('starred unpack'), st, node)
                else:
                    self.assign(x, self.getitem(v, const(i), st, node), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, top('starred'), st, node)

    def literal_list(self, ref):
        o = self.obj(ref)
        if all(e.name == 'append' and e.loops == o.loops and len(e.guards) <= len(o.guards) for e in o.events):
            return [e.value for e in o.events]
        return None

    def matched(self, o, st):
        """(table, key, guard): o is the element of a list picked by the value of a field."""
        if o.op != 'elem' or not self.loops or self.loops[-1][0] is not o.a[0]:
            return None
        for g, t in st.pc:
            if g.op == 'op' and g.a[0] == '==':
                r = self.searched((o.a[0],), (), g)
                if r is not None:
                    return r[0], r[1], g
        return None

    def setattr_(self, o, name, v, st, node, aug=None):
        m = self.matched(o, st)
        if m is not None:
            d, k, g = m
            last = self.loops.pop()
            try:
                s2 = st.fork()
                i = [c for c, t in s2.pc].index(g)
                s2.pc = s2.pc[:i] + s2.pc[i + 1:]
                s2.assume(self.contains(k, d, s2), '')
                tgt = self.lookup(d, k, s2, node)
                if tgt is not o:
                    if aug is None and v is not None:
                        v = subst(v, {o: tgt})
                    self.setattr_(tgt, name, v, s2, node, aug)
                    return
            finally:
                self.loops.append(last)
        if o.op == 'ref' and self.obj(o).kind == 'inst':
            ob = self.obj(o)
            if ob.cls is not None:
                for k in self.prog.mro(ob.cls):
                    if name in k.setters:
                        self.call_fn(k.setters[name], [v], {}, st, o, node)
                        return
            if ob.keyed is not None:
                # one object per key: the field accumulates over the iterations
                if aug is not None:
                    self.emit(st, 'cont', node, obj=ob, recv=o, name='augidx', key=const(name), value=aug[1], op=(aug[0], None))
                else:
                    e = self.emit(st, 'cont', node, obj=ob, recv=o, name='storeidx', key=const(name), value=v)
                    if v.op == 'ref' and v.a[0].kind in ('list', 'dict', 'set') and not v.a[1] and v.a[0].keyed is None and self.lazy(ob, e):
                        v.a[0].keyed = ob.keyed
                return
            st.m[('f', o, name)] = v
            self.emit(st, 'setattr', node, recv=o, name=name, value=v, args=(v,), op=aug)
            return
        if o.op == 'cls':
            self.emit(st, 'setattr', node, recv=o, name=name, value=v, args=(v,), op=aug)
            st.m[('f', o, name)] = v
            return
        if o.op == 'ite':
            self.emit(st, 'setattr', node, recv=o, name=name, value=v, args=(v,), op=aug)
            for arm, c in ((o.a[1], o.a[0]), (o.a[2], not_(o.a[0]))):
                if arm.op in ('ref', 'new', 'ite') or arm.op not in ('const', 'undef'):
                    cur = st.m.get(('f', arm, name))
                    st.m[('f', arm, name)] = ite(c, v, cur if cur is not None else mk('attr', arm, name))
            return
        self.emit(st, 'setattr', node, recv=o, name=name, value=v, args=(v,), op=aug)
        st.m[('f', o, name)] = v

    def setitem(self, o, k, v, st, node):
        if o.op == 'ite' and any(x.op == 'ref' for x in leaves_(o)):
            return self.each_case(o, st, lambda x, s: self.setitem(x, k, v, s, node))
        if o.op == 'ref':
            ob = self.obj(o)
            if ob.kind == 'dict':
                # m[k] = m.get(k, 0) + x   or   m[k] = m[k] + x
                a = self.as_aug(o, k, v)
                if a is not None:
                    init, x = a
                    self.emit(st, 'cont', node, obj=ob, recv=o, name='aug', key=k, value=x, op=('+', init))
                    return
                self.emit(st, 'cont', node, obj=ob, recv=o, name='store', key=k, value=v)
                self.note_keyed(ob, k, v)
                return
            if ob.kind == 'list':
                self.emit(st, 'cont', node, obj=ob, recv=o, name='storeidx', key=k, value=v)
                return
            if ob.kind == 'inst' and ob.cls is not None and self.prog.find_method(ob.cls, '__setitem__'):
                self.call_method(o, '__setitem__', [k, v], {}, st, node)
                return
        self.emit(st, 'call', node, recv=o, name='__setitem__', args=(k, v), kw={}, pure=False)
        st.m[('x', o, k)] = v

    def note_keyed(self, d, k, v):
        if v.op == 'ref' and v.a[0].kind in ('list', 'dict', 'set', 'inst') and not v.a[1]:
            vo = v.a[0]
            dl = set(d.loops)
            if vo.keyed is None and any(l not in dl for l in vo.loops):
                vo.keyed = (d, k)
        elif v.op == 'tuple':
            for x in v.a:
                if isinstance(x, T):
                    self.note_keyed(d, k, x)

    def as_aug(self, o, k, v):
        if v.op == 'op' and v.a[0] == '+':
            for i, x in enumerate(v.a[1:]):
                r = None
                if x.op == 'lookup' and x.a[0] is o and x.a[1] is k:
                    r = UNDEF
                elif x.op == 'ite':
                    c, a, b = x.a
                    if c.op == 'in' and c.a[0] is k and c.a[1] is o and a.op == 'lookup' and a.a[0] is o and a.a[1] is k:
                        r = b
                if r is not None:
                    rest = [y for j, y in enumerate(v.a[1:]) if j != i]
                    return r, add(*rest)
            return None
        # (m.get(k) or 0) etc.
        return None

    def each_case(self, o, st, f):
        """Run f on each container a gated value may be, under the condition that it is that one."""
        if o.op != 'ite':
            return f(o, st)
        pcs = {c for c, t in st.pc}
        c = o.a[0]
        for x, g in ((o.a[1], c), (o.a[2], not_(c))):
            if not_(g) in pcs or x is NONE or x is UNDEF:
                continue
            self.each_case(x, st if g in pcs or g is TRUE else st.fork(g), f)

    def augitem(self, o, k, opn, v, st, node):
        if o.op == 'ite' and any(x.op == 'ref' for x in leaves_(o)):
            return self.each_case(o, st, lambda x, s: self.augitem(x, k, opn, v, s, node))
        if o.op == 'ref':
            ob = self.obj(o)
            if ob.kind == 'dict':
                init = UNDEF
                if ob.default is not None:
                    init = self.default_value(ob, st, node)
                self.emit(st, 'cont', node, obj=ob, recv=o, name='aug', key=k, value=v, op=(opn, init))
                return
            if ob.kind == 'list':
                self.emit(st, 'cont', node, obj=ob, recv=o, name='augidx', key=k, value=v, op=(opn, None))
                return
        if o.op == 'lookup' or o.op in ('top',):
            self.emit(st, 'call', node, recv=o, name='__augitem__', args=(k, const(opn), v), kw={}, pure=False)
            return
        old = self.getitem(o, k, st, node)
        self.setitem(o, k, self.binop(opn, old, v, st, node), st, node)

    def default_value(self, ob, st, node):
        d = ob.default
        if d.op == 'builtin' and d.a[0] == 'int':
            return ZERO
        if d.op == 'builtin' and d.a[0] == 'list':
            return self.alloc('list', node, st, extra='dflt')
        if d.op == 'builtin' and d.a[0] == 'dict':
            return self.alloc('dict', node, st, extra='dflt')
        if d.op == 'builtin' and d.a[0] == 'set':
            return self.alloc('set', node, st, extra='dflt')
        if d.op in ('closure', 'func', 'cls', 'bm'):
            return self.call(d, [], {}, st, node)
        return top('default factory')

    # ------------------------------------------------------------ containers
    def base_of(self, ob):
        """(loops, guards) of the context in which the object (or its key group) is unique."""
        seen = set()
        while ob.keyed is not None and ob not in seen:
            seen.add(ob)
            ob = ob.keyed[0]
        return ob.loops, ob.guards

    def key_chain(self, ob):
        """key terms that identify a keyed object, outermost first."""
        out = []
        seen = set()
        while ob.keyed is not None and ob not in seen:
            seen.add(ob)
            out.insert(0, ob.keyed[1])
            ob = ob.keyed[0]
        return out

    def extra_loops(self, ob, e):
        base = set(self.base_of(ob)[0])
        return [l for l in e.loops if l not in base]

    def rel_guards(self, ob, e):
        base = {c for c, t in self.base_of(ob)[1]}
        return [(c, t) for c, t in e.guards if c not in base]

    def building(self, ob, e):
        act = set(self.cur_acts())
        base = set(self.base_of(ob)[0])
        return any(a in act for l, a in zip(e.loops, e.acts) if l not in base)

    def filling(self, ob):
        """A list of objects that the loops being run append to."""
        act = set(self.cur_loops())
        base = set(self.base_of(ob)[0])
        if not any(l not in base for l in act):
            return False
        evs = [e for e in ob.events if e.name == 'append']
        if evs:
            return all(e.value is not None and e.value.op == 'ref' and e.value.a[0].kind == 'inst' for e in evs) and \
                any(self.building(ob, e) for e in evs)
        evs = [e for e in ob.ghost if e.name == 'append']
        if not evs:
            # nothing yet: an earlier iteration may have appended
            self.miss = self.miss or not ob.events
            return False
        return all(e.value is not None and e.value.op == 'ref' and e.value.a[0].kind == 'inst' for e in evs) and \
            any(l in act for e in evs for l in e.loops if l not in base)

    def same_iteration(self, e):
        return set(e.acts) <= set(self.cur_acts())

    def fresh_map(self, loops, tag):
        """Copies of a chain of loops that are not currently being iterated."""
        act = set(self.cur_loops())
        n = 0
        while True:
            mp = {}
            ok = True
            for l in loops:
                nl = copy_loop(l, rename(l.domain, mp), (tag, n))
                mp[l] = nl
                if nl in act:
                    ok = False
            if ok:
                return mp
            n += 1

    def merge_comps(self, comps):
        """Join producers that differ only by complementary guards."""
        changed = True
        comps = list(comps)
        while changed:
            changed = False
            for i in range(len(comps)):
                for j in range(i + 1, len(comps)):
                    a, b = comps[i], comps[j]
                    if a.fill or b.fill:
                        continue
                    if tuple(a.loops) == tuple(b.loops) and a.value is b.value and a.slot is b.slot and a.key is b.key:
                        ga = [c for c, t in a.guards]
                        gb = [c for c, t in b.guards]
                        ra = and_([c for c in ga if c not in gb])
                        rb = and_([c for c in gb if c not in ga])
                        if ra is TRUE or rb is TRUE or ra is not_(rb):
                            common = [(c, t) for c, t in a.guards if c in gb]
                            comps[i] = Comp(a.loops, common, a.value, a.slot, a.key, a.event)
                            del comps[j]
                            changed = True
                            break
                if changed:
                    break
        return comps

    def contents(self, ref, st, kinds=('append', 'storeidx', 'add', 'insert', 'fill')):
        ob, sub = ref.a
        sub = dict(sub)
        comps = []
        chain = self.key_chain(ob)
        act = set(self.cur_loops())
        for e in ob.events:
            if e.name not in kinds:
                if e.name in ('augidx', 'aug', 'sort', 'reverse'):
                    continue
                if e.name in ('store',):
                    continue
                return None
            extra = self.extra_loops(ob, e)
            if not chain and self.building(ob, e):
                return None
            gs = [(c, t) for c, t in self.rel_guards(ob, e)]
            val = e.value
            slot = e.key if e.name == 'storeidx' else None
            loops = list(extra)
            if chain:
                mp = self.fresh_map(extra, ('g', ob.n))
                loops = [mp[l] for l in extra]
                gs = [(rename(c, mp), t) for c, t in gs]
                for k in chain:
                    g = eq(rename(k, mp), rename(k, sub))
                    if g is not TRUE:
                        gs.append((g, 'group'))
                val = rename(val, mp)
                slot = rename(slot, mp) if slot is not None else None
            else:
                mp = dict(sub)
                if any(l in act for l in extra):
                    mp.update(self.fresh_map(extra, ('i', ob.n)))
                if mp:
                    loops = [mp.get(l, l) for l in extra]
                    if any(l in sub for l in extra) is False and sub:
                        m2 = dict(sub)
                        loops = []
                        for l in extra:
                            nl = copy_loop(l, rename(l.domain, m2), ('s', ob.n)) if rename(l.domain, m2) is not l.domain else mp.get(l, l)
                            m2[l] = nl
                            loops.append(nl)
                        mp = m2
                    gs = [(rename(c, mp), t) for c, t in gs]
                    val = rename(val, mp)
                    slot = rename(slot, mp) if slot is not None else None
            if e.name == 'fill':
                comps.append(Comp(loops, gs, val, slot=None, event=e, fill=True))
            else:
                if slot is not None and not self.slot_ok(ob, e):
                    gs = gs + [(mk('slot', slot, mk('ref', ob, ())), 'slot')]
                comps.append(Comp(loops, gs, val, slot=slot, event=e))
        if any(c.slot is not None for c in comps):
            # positional list: constant slots override the literal elements they replace
            lit = [c for c in comps if c.slot is None and not c.loops and not c.fill]
            if lit and not any(c.fill for c in comps):
                return None
        return self.merge_comps(comps)

    def slot_ok(self, ob, e):
        """Does every element of the iteration get a slot of its own, within the list?"""
        fills = [f.key for f in ob.events if f.name == 'fill']
        k = e.key
        if k.op == 'idx' and k.a[0] in e.loops:
            d = k.a[0].domain
            return all(f.op == 'op' and f.a[0] == 'len' and (f.a[1] is d or strip_it(f.a[1]) is d) or
                       (d.op == 'range' and f is d.a[1]) for f in fills)
        if k.op == 'ordinal' and all(l in e.loops for l in k.a[0]):
            d = k.a[1]
            if d is not None and d.op == 'enumerate':
                return all(f is mk('op', 'len', d.a[0]) or f.op == 'op' and f.a[0] == 'len' and self.same_length(f.a[1], d.a[0]) for f in fills)
        if k.op == 'posin' :
            return all(f is mk('op', 'len', k.a[0]) for f in fills)
        return False

    def same_length(self, a, b):
        """Are these two lists filled by the same iteration, one element for each pass?"""
        def sig(x):
            if x.op != 'ref' or x.a[1]:
                return None
            ob = self.obj(x)
            if ob.kind != 'list' or ob.keyed or self.key_chain(ob) or not ob.events or any(e.name != 'append' for e in ob.events):
                return None
            out = [tuple(ob.loops)]
            for e in ob.events:
                mp = {}
                for n, l in enumerate(self.extra_loops(ob, e)):
                    if TM.truncs(l):
                        return None
                    mp[l] = copy_loop(l.root(), rename(l.domain, mp), ('len', n))
                out.append((tuple(mp.values()), frozenset(rename(c, mp) for c, t in self.rel_guards(ob, e))))
            return out
        x = sig(a)
        return x is not None and x == sig(b)

    def spelled_out(self, x):
        """The strings a list or tuple written out in full holds, or None."""
        if x.op == 'tuple':
            vs = list(x.a)
        elif x.op == 'ref':
            ob = self.obj(x)
            if ob.kind != 'list' or ob.keyed or self.key_chain(ob) or x.a[1] or ob.shadow or len(ob.events) > 12 or \
                    tuple(ob.loops) != tuple(self.cur_loops()):
                return None
            vs = []
            for e in ob.events:
                if self.extra_loops(ob, e) or self.rel_guards(ob, e) or (not self.same_iteration(e) and ob.loops) or \
                        e.name != 'append' or e.value is None:
                    return None
                vs.append(e.value)
        else:
            return None
        return vs if all(v.op in ('str', 'cat', 'fmt') or is_str(v) for v in vs) else None

    def concrete(self, x):
        """The Python list of constant terms a container is known to hold, or None."""
        if x.op == 'const' and isinstance(x.a[0], str):
            return [const(c) for c in x.a[0]]
        if x.op == 'tuple':
            return list(x.a) if all(v.op == 'const' for v in x.a) else None
        if x.op == 'dictitems' and x.a[1] == 'keys':
            x = x.a[0]
        if x.op != 'ref':
            return None
        ob = self.obj(x)
        if ob.kind not in ('list', 'set', 'dict') or ob.keyed or self.key_chain(ob) or x.a[1] or ob.shadow or len(ob.events) > 60:
            return None
        if tuple(ob.loops) != tuple(self.cur_loops()):
            return None  # an enclosing iteration may add to it
        out = []
        for e in ob.events:
            if self.extra_loops(ob, e) or self.rel_guards(ob, e) or (not self.same_iteration(e) and ob.loops):
                return None
            if e.name == 'append' and ob.kind == 'list' and e.value is not None and e.value.op == 'const':
                out.append(e.value)
            elif e.name == 'add' and ob.kind == 'set' and e.value is not None and e.value.op == 'const' or \
                    e.name == 'store' and ob.kind == 'dict' and e.key is not None and e.key.op == 'const':
                v = e.value if ob.kind == 'set' else e.key
                if v not in out:
                    out.append(v)
            elif e.name in ('sort', 'reverse') and e.key is None:
                try:
                    out = sorted(out, key=lambda v: cval(v)) if e.name == 'sort' else out[::-1]
                except TypeError:
                    return None
            else:
                return None
        return out

    def contains(self, k, ref, st):
        if ref.op == 'ref':
            ob = self.obj(ref)
            pcs = {c for c, t in st.pc}
            if ob.kind in ('dict', 'set', 'list'):
                for e in ob.events:
                    kk = e.key if ob.kind == 'dict' else e.value
                    if e.name in ('store', 'aug', 'add', 'append') and kk is k and self.same_iteration(e) and \
                            all(c in pcs for c, t in e.guards):
                        return TRUE
                if all(e.name in ('store', 'add', 'append') and not e.loops and not e.guards and (e.key if ob.kind == 'dict' else e.value).op == 'const'
                       for e in ob.events) and k.op == 'const' and not self.cur_loops():
                    return TRUE if any((e.key if ob.kind == 'dict' else e.value) is k for e in ob.events) else FALSE
                if self.grows(ob, ref, st):
                    return mk('in', k, ref, len(ob.events))
                if ob.kind == 'dict' and ob.events and len(ob.events) <= 40 and not ob.keyed and \
                        all(e.name == 'store' and e.key.op == 'const' and not self.extra_loops(ob, e) and not self.rel_guards(ob, e) for e in ob.events):
                    return or_([eq(k, e.key) for e in ob.events])
                if ob.kind != 'dict' and ob.events and all(e.name == 'append' and e.loops == ob.loops and len(e.guards) <= len(ob.guards) for e in ob.events):
                    return or_([eq(k, e.value) for e in ob.events])
                cs = self.concrete(ref)
                if cs is not None:
                    return or_([eq(k, c) for c in cs]) if cs else FALSE
                return mk('in', k, ref, len(ob.events))
        if ref.op == 'tuple':
            return or_([eq(k, x) for x in ref.a])
        if ref.op == 'dictitems' and ref.a[1] == 'keys':
            return self.contains(k, ref.a[0], st)
        if ref.op == 'const' and k.op == 'const':
            try:
                return TRUE if cval(k) in ref.a[0] else FALSE
            except Exception:
                pass
        if ref.op == 'ite':
            return ite(ref.a[0], self.contains(k, ref.a[1], st), self.contains(k, ref.a[2], st))
        return mk('in', k, strip_it(ref), None)

    def dict_events(self, ob):
        ev = list(ob.events)
        if any(e.name not in ('store', 'aug') for e in ev):
            return None
        return ev

    def match_key(self, ob, e, k):
        """Loop mapping under which e's key is the term k, or None."""
        if e.key is k:
            return {}
        extra = self.extra_loops(ob, e)
        if not extra:
            return None
        byroot = {}
        for l in free_loops(k):
            byroot.setdefault(l.root(), []).append(l)
        mp = {}
        for l in extra:
            c = byroot.get(l.root())
            if c is None:
                continue
            # domains must agree under the mapping so far
            pick = None
            for x in c:
                if x.domain is rename(l.domain, mp):
                    pick = x
            if pick is None:
                pick = c[0]
            if pick is not l:
                mp[l] = pick
        # loops that only occur through the domains of others
        chg = True
        while chg:
            chg = False
            for l, x in list(mp.items()):
                a, b = l.domain, x.domain
                for la in free_loops(a):
                    if la in extra and la not in mp:
                        for lb in free_loops(b):
                            if lb.root() is la.root() and lb is not la:
                                mp[la] = lb
                                chg = True
        if mp and rename(e.key, mp) is k:
            return mp
        return None

    def lookup(self, ref, k, st, node):
        ob, sub = ref.a
        evs = self.dict_events(ob)
        if evs is None:
            return mk('lookup', ref, k)
        ghost = ob.ghost
        if k.op == 'const':
            val = None
            for e in evs:
                if e.key.op != 'const' or e.name != 'store' or self.extra_loops(ob, e):
                    val = None
                    break
                if e.key is k or cval(e.key) == cval(k):
                    gs = and_([c for c, t in self.rel_guards(ob, e)])
                    pcs = {c for c, t in st.pc}
                    gs = and_([c for c, t in self.rel_guards(ob, e) if c not in pcs])
                    val = e.value if gs is TRUE or val is None else ite(gs, e.value, val)
            if val is not None:
                return val
        elif evs and all(e.key.op == 'const' and e.name == 'store' and not self.extra_loops(ob, e) and not self.rel_guards(ob, e) for e in evs) \
                and not ob.keyed and len(evs) <= 40:
            # table lookup: a gated choice among the entries
            v = mk('keyerror', k)
            seen = {}
            for e in evs:
                seen[cval(e.key)] = e
            for e in reversed(list(seen.values())):
                v = ite(eq(k, e.key), e.value, v)
            return v
        allev = evs
        cand = [(e, self.match_key(ob, e, k)) for e in evs]
        cand = [(e, m) for e, m in cand if m is not None]
        if not any(e.name == 'store' for e, m in cand) and not any(e.name == 'aug' and e.op[1] is not UNDEF for e, m in cand):
            g = [(e, self.match_key(ob, e, k)) for e in ghost] if ob.default is None else []
            g = [(e, m) for e, m in g if m is not None and e.name == 'store']
            for e, m in g:
                v = rename(e.value, m)
                if self.is_containerish(v):
                    return v
            if ob.default is not None:
                v = self.default_value(ob, st, node)
                c = self.contains(k, ref, st)
                s2 = st.fork(not_(c))
                self.emit(s2, 'cont', node, obj=ob, recv=ref, name='store', key=k, value=v)
                self.note_keyed(ob, k, v)
                return v
            if not evs:
                self.miss = True
            return mk('lookup', ref, k)
        mp0 = cand[0][1]
        stores = [e for e, m in cand if e.name == 'store']
        for e in list(stores):
            # value chosen by whether the key is already there: one store for each case
            c = next((x for x in subterms(e.value) if x.op == 'in' and x.a[0] is e.key and x.a[1].op == 'ref' and x.a[1].a[0] is ob), None)
            if c is not None:
                i = stores.index(e)
                e1, e2 = copy.copy(e), copy.copy(e)
                e1.guards, e1.value = tuple(e.guards) + ((not_(c), 'if'),), subst(e.value, {c: FALSE})
                e2.guards, e2.value = tuple(e.guards) + ((c, 'if'),), subst(e.value, {c: TRUE})
                stores[i:i + 1] = [e1, e2]
        for a in list(stores):
            # overwritten later in the same iteration, whatever the case
            for b in stores[stores.index(a) + 1:]:
                if b.loops == a.loops and b.key is a.key and set(b.guards) <= set(a.guards) and \
                        not any(x.op == 'lookup' and x.a[0].op == 'ref' and x.a[0].a[0] is ob for x in subterms(b.value)):
                    stores.remove(a)
                    break
        augs = [e for e, m in cand if e.name == 'aug']
        build = any(self.building(ob, e) for e, m in cand)
        inself = lambda c: self.seen_test(c, ob)

        def first_only(e):
            return any(c.op == 'not' and inself(c.a[0]) and c.a[0].a[0] is e.key for c, t in e.guards)

        def later_only(e):
            return any(inself(c) and c.a[0] is e.key for c, t in e.guards)
        selfref = [e for e in stores if any(x.op == 'lookup' and x.a[0].op == 'ref' and x.a[0].a[0] is ob for x in subterms(e.value))]
        plain = [e for e in stores if e not in selfref]
        if len(plain) == 1 and not selfref and not augs:
            e = plain[0]
            v = rename(e.value, mp0)
            if self.is_containerish(e.value):
                if first_only(e) or not self.extra_loops(ob, e):
                    if self.of_first(ob, e, st):
                        return mk('firstkey', ref, k, v)
                    return v
                if self.same_iteration(e):
                    return v
                return v if not self.extra_loops(ob, e) else self.mark_last(v, ref, k)
            if not self.extra_loops(ob, e):
                return v
            if self.same_iteration(e) and all(c in {x for x, t in st.pc} for c, t in e.guards):
                return v
            if first_only(e) and not build:
                return v
            if build:
                return mk('lookup', ref, k)
            return mk('lastkey', ref, k, v)
        if build:
            if plain and all(self.is_containerish(e.value) for e in plain) and len(plain) == 1:
                return rename(plain[0].value, mp0)
            if plain and selfref and len(plain) == 1 and plain[0].value.op == 'tuple':
                pass
            return mk('lookup', ref, k)
        if len(plain) > 1:
            # complementary first/other stores of the same value
            vals = {e.value for e in plain}
            if len(vals) == 1 and not augs and not selfref:
                return mk('lastkey', ref, k, rename(plain[0].value, mp0)) if not self.is_containerish(plain[0].value) else self.mark_last(rename(plain[0].value, mp0), ref, k)
            gs = [(and_([c for c, t in self.rel_guards(ob, e)]), e) for e in plain]
            return mk('lookup', ref, k)
        if not plain:
            if not augs:
                return mk('lookup', ref, k)
            init = [e.op[1] for e in augs if e.op[1] is not UNDEF]
            if not init:
                return mk('lookup', ref, k)
            v0, g0 = init[0], None
        else:
            v0, g0 = plain[0].value, plain[0]
        if self.is_containerish(v0) and v0.op != 'tuple':
            return rename(v0, mp0)
        firstonly = g0 is None or first_only(g0) or not self.extra_loops(ob, g0)
        if not firstonly:
            return mk('lastkey', ref, k, rename(v0, mp0))
        lk = None

        def fold(init, ups):
            """init value of the first, ups: list of (event, addend)"""
            out = rename(init, mp0)
            total = []
            for e, x in ups:
                if later_only(e) and g0 is not None and init is x and tuple(e.loops) == tuple(g0.loops):
                    # first contributes x through the initial store, the others add x
                    out = ZERO
                    total.append(self.gsum(ob, e, x, k, mp0, sub, drop=lambda c: inself(c) and c.a[0] is e.key))
                else:
                    total.append(self.gsum(ob, e, x, k, mp0, sub))
            return add(out, *total)
        ups = []
        for e in augs:
            if e.op[0] != '+':
                return mk('lookup', ref, k)
            ups.append((e, e.value))
        if v0.op == 'tuple' and not augs:
            lkt = None
            comps = []
            for i, x0 in enumerate(v0.a):
                cu = []
                ok = True
                for e in selfref:
                    lkt = mk('lookup', mk('ref', ob, ()), e.key)
                    if e.value.op != 'tuple' or len(e.value.a) != len(v0.a):
                        return top('tuple update of another shape')
                    u = e.value.a[i]
                    me = mk('index', lkt, const(i))
                    if u is me:
                        continue
                    a = addends(u, me)
                    if a is None or any(g for g, x in a):
                        # conditional or other updates
                        if u.op != 'op':
                            ok = False
                            break
                        ok = False
                        break
                    for g, x in a:
                        cu.append((e, x))
                if not ok:
                    comps.append(mk('keyfold', ref, k, const(i)))
                    continue
                comps.append(fold(x0, cu) if cu else rename(x0, mp0))
            return mk('tuple', *comps)
        for e in selfref:
            lkt = mk('lookup', mk('ref', ob, ()), e.key)
            a = addends(e.value, lkt)
            if a is None:
                return mk('keyfold', ref, k, ZERO)
            for g, x in a:
                ups.append((e, x if not g else ite(and_(g), x, ZERO)))
        return fold(v0, ups)

    def seen_test(self, c, ob):
        """c: `key in X`, X being ob or a container that receives the same keys (names already seen)."""
        if c.op != 'in' or c.a[1].op != 'ref':
            return False
        x = c.a[1].a[0]
        if x is ob:
            return True
        if x.kind not in ('dict', 'list', 'set') or x.loops != ob.loops:
            return False
        return any((e.key if x.kind == 'dict' else e.value) is c.a[0] for e in x.events + x.ghost if e.name in ('store', 'append', 'add'))

    def of_first(self, ob, e, st):
        """Is the stored object made from data of the element that stored it, while elements under other parents share its key?"""
        v = e.value
        extra = self.extra_loops(ob, e)
        if v.op != 'ref' or v.a[0].kind != 'inst' or len(extra) < 2:
            return False
        pinned = set(free_loops(e.key)) if e.key.op != 'call' else {l for l in extra if e.key.a[0] is mk('elem', l)}
        for c, t in e.guards:
            if t == 'group':
                pinned |= set(free_loops(c))
        if not any(l not in pinned and strip_it(l.domain).op == 'call' for l in extra):
            return False
        ex = set(extra)
        for k, x in st.m.items():
            if k[0] == 'f' and k[1] is v and isinstance(x, T) and x is not e.key and x.op != 'ref' and any(l in ex for l in free_loops(x)):
                return True
        return False

    def mark_last(self, v, ref, k):
        return mk('lastkey', ref, k, v)

    def is_containerish(self, v):
        if v.op == 'ref':
            return True
        if v.op == 'tuple':
            return any(self.is_containerish(x) for x in v.a)
        return v.op == 'new'

    def gsum(self, ob, e, x, k, mp0, sub, drop=None):
        extra = self.extra_loops(ob, e)
        chain = self.key_chain(ob)
        mp = self.fresh_map(extra, ('gs', ob.n, e.key))
        gs = []
        for c, t in self.rel_guards(ob, e):
            if drop is not None and drop(c):
                continue
            gs.append(rename(c, mp))
        for kk in chain:
            g = eq(rename(kk, mp), rename(kk, dict(sub)))
            if g is not TRUE:
                gs.append(g)
        g = eq(rename(e.key, mp), k)
        if g is not TRUE:
            gs.append(g)
        xx = rename(x, mp)
        loops = tuple(mp[l] for l in extra)
        if xx.op == 'sum':
            return mk('sum', loops + xx.a[0], tuple(gs) + xx.a[1], xx.a[2])
        if not loops:
            return ite(and_(gs), xx, ZERO)
        return mk('sum', loops, tuple(gs), xx)

    def own_name(self, key, L):
        """key is the name of the element of L, one of the children of one scope"""
        d = L.domain.a[0] if L.domain.op == 'it' else L.domain
        return key.op == 'call' and key.a[1] in ('getScopeName', 'getName') and not key.a[2] and key.a[0] is mk('elem', L) and \
            d.op == 'call' and d.a[1] in ('scopes', 'coverItems')

    def dict_producers(self, ref, what, st):
        ob, sub = ref.a
        evs = self.dict_events(ob)
        if evs is None:
            return [('loop', top('contents of %r' % ob), lambda L: mk('elem', L))]
        if any(self.building(ob, e) for e in evs) and not ob.keyed:
            return [('loop', top('contents of %r while being built' % ob), lambda L: mk('elem', L))]
        out = []
        seen = []
        chain = self.key_chain(ob)
        act = set(self.cur_loops())
        comps = []
        for e in evs:
            extra = self.extra_loops(ob, e)
            gs = self.rel_guards(ob, e)
            key = e.key
            loops = list(extra)
            mp = {}
            if chain or any(l in act for l in extra):
                mp = self.fresh_map(extra, ('g' if chain else 'i', ob.n))
                loops = [mp[l] for l in extra]
                gs = [(rename(c, mp), t) for c, t in gs]
                for kk in chain:
                    g = eq(rename(kk, mp), rename(kk, dict(sub)))
                    if g is not TRUE:
                        gs.append((g, 'group'))
                key = rename(key, mp)
            # membership tests on this very dictionary only separate first from later
            gs2 = []
            for c, t in gs:
                b = c.a[0] if c.op == 'not' else c
                if b.op == 'in' and b.a[0] is key and self.seen_test(b, ob):
                    continue
                gs2.append((c, t))
            c = Comp(loops, gs2, key, key=key, event=e)
            dup = False
            for d in comps:
                if d.value is key and tuple(d.loops) == tuple(loops):
                    dg = {x for x, t in d.guards}
                    cg = {x for x, t in gs2}
                    if dg == cg or dg <= cg:
                        dup = True
                    elif cg <= dg:
                        d.guards = gs2
                        dup = True
            if not dup:
                comps.append(c)
        comps = self.merge_comps(comps)
        if self.distinct and len(comps) == 1 and len(evs) == 1 and not chain and evs[0].name == 'store' and evs[0].value is not None and \
                len(comps[0].loops) == 1 and self.own_name(comps[0].value, comps[0].loops[0]):
            # one entry for each of the siblings, whose names differ
            c, e = comps[0], evs[0]
            mp = {a: b for a, b in zip(self.extra_loops(ob, e), c.loops) if a is not b}
            val = rename(e.value, mp) if mp else e.value
            if not has_top(val) and not (mp and self.is_containerish(val)):
                return [('comp', c, lambda v: v if what == 'keys' else val if what == 'values' else mk('tuple', v, val))]
        for c in comps:
            if c.loops:
                c.guards = list(c.guards) + [(mk('uniq', c.value, mk('ref', ob, ())), 'uniq')]
            key = c.value

            def wrap(v, key=key):
                if what == 'keys':
                    return key
                val = self.lookup(ref, key, st, None)
                return val if what == 'values' else mk('tuple', key, val)
            if not c.loops and not c.guards:
                out.append(('const', wrap(key)))
            else:
                out.append(('comp', c, wrap))
        return out

    def extend(self, ref, src, st, node):
        ob = self.obj(ref)
        nm = 'append' if ob.kind == 'list' else 'add'
        box = {}

        def bind(v, st2):
            box['v'] = v

        def body(st2):
            self.emit(st2, 'cont', node, obj=ob, recv=ref, name=nm, value=box['v'], key=None)
            return st2
        r = self.iter_term(src, bind, body, st, node)
        if r is not None:
            st.become(r)

    def index_list(self, ref, k, st, node):
        ob, sub = ref.a
        lit = [e for e in ob.events if e.name == 'append']
        others = [e for e in ob.events if e.name not in ('append',)]
        islit = all(e.loops == ob.loops and (len(e.guards) == len(ob.guards) if ob.keyed is not None else len(e.guards) <= len(ob.guards)) for e in lit)
        if islit and lit and k.op == 'const' and isinstance(cval(k), int) and all(e.name in ('augidx', 'storeidx') and e.key.op == 'const' for e in others):
            i = cval(k)
            if -len(lit) <= i < len(lit):
                i %= len(lit)
                v = lit[i].value
                mine = [e for e in others if cval(e.key) % len(lit) == i]
                if not mine and self.ghost_cell(ob, k):
                    return mk('cell', ref, const(i))
                if not mine:
                    return rename(v, dict(sub))
                return self.cell_value(ob, ref, const(i), v, mine, sub)
        if k.op == 'posin' and k.a[0] is ref:
            return k.a[1]
        cs = self.contents(ref, st)
        if cs is None:
            return mk('index', ref, k)
        cs = [c for c in cs if not c.fill]
        if len(cs) == 1 and k.op == 'const' and cval(k) in (0, -1):
            c = cs[0]
            if not c.loops and not c.guards:
                return c.value
            if cval(k) == 0:
                return self.first_of(ref, c, st)
            return mk('last', tuple(c.loops), tuple(x for x, t in c.guards), TRUE, c.value)
        if len(cs) == 1 and k.op == 'idx' and len(cs[0].loops) == 1 and not cs[0].guards and cs[0].loops[0].domain is k.a[0].domain:
            return rename(cs[0].value, {cs[0].loops[0]: k.a[0]})
        if k.op == 'const' and isinstance(cval(k), int) and all(not c.loops and not c.guards for c in cs) and -len(cs) <= cval(k) < len(cs):
            return cs[cval(k)].value
        return mk('index', ref, k)

    def first_of(self, ref, c, st):
        """First element of a group: the current element when the key was just deduplicated."""
        ob = ref.a[0]
        chain = self.key_chain(ob)
        act = self.cur_loops()
        mp = {}
        for l in c.loops:
            o = l.origin
            if o is not None:
                for a in act:
                    if a is o:
                        mp[l] = a
        if chain and len(mp) == len(c.loops):
            gs = [rename(g, mp) for g, t in c.guards]
            pcs = {x for x, t in st.pc}
            fresh = any((g.op == 'not' and g.a[0].op == 'in' and g.a[0].a[0] is chain[-1]) or
                        (g.op == 'uniq' and g.a[0] is chain[-1]) for g in pcs)
            if all(g is TRUE or g in pcs for g in gs) and fresh:
                return rename(c.value, mp)
        return mk('first', tuple(c.loops), tuple(x for x, t in c.guards), TRUE, c.value)

    def ghost_cell(self, ob, k):
        act = set(self.cur_loops())
        return any(e.name == 'storeidx' and e.key is k and any(l in act for l in self.extra_loops(ob, e)) for e in ob.ghost)

    def lazy(self, ob, e):
        """if x.f is None: x.f = <new container>"""
        me = isnone(mk('cell', mk('ref', ob, ()), e.key))
        return any(c is me for c, t in e.guards)

    def cell_value(self, ob, ref, key, base, mine, sub):
        """Value of a list cell or object field that is updated by the events `mine`."""
        if len(mine) == 1 and mine[0].name == 'storeidx' and base is NONE and mine[0].value.op == 'ref' and \
                mine[0].value.a[0].kind in ('list', 'dict', 'set') and self.lazy(ob, mine[0]):
            return rename(mine[0].value, dict(sub))
        if any(self.building(ob, e) for e in mine):
            return mk('cell', ref, key)
        sub = dict(sub)
        me = mk('cell', mk('ref', ob, ()), key)
        ups = []
        for e in mine:
            if e.name == 'augidx':
                if e.op[0] != '+':
                    return mk('cellfold', ref, key)
                ups.append((e, e.value, ()))
                continue
            a = addends(e.value, me)
            if a is None:
                if me in set(subterms(e.value)):
                    return mk('cellfold', ref, key)
                if not self.extra_loops(ob, e) and not self.rel_guards(ob, e):
                    base = e.value
                    ups = []
                    continue
                if len(mine) == 1:
                    return mk('lastcell', ref, key, rename(e.value, sub))
                return mk('cellfold', ref, key)
            for g, x in a:
                ups.append((e, x, tuple(g)))
        out = rename(base, sub)
        zeroed = False
        tot = []
        for e, x, g in ups:
            drop = None
            if ob.keyed is not None and not g and x is base and not zeroed:
                d, kk = ob.keyed
                own = [c for c, t in e.guards if c.op == 'in' and c.a[1].op == 'ref' and c.a[1].a[0] is d and c.a[0] is kk]
                if own:
                    # the first one contributes through the initial value, the others add theirs
                    drop = own
                    zeroed = True
                    out = ZERO
            tot.append(self.cell_sum(ob, e, sub, x, g, drop))
        return add(out, *tot)

    def cell_sum(self, ob, e, sub, x=None, more=(), drop=None):
        x = e.value if x is None else x
        extra = self.extra_loops(ob, e)
        chain = self.key_chain(ob)
        if not extra:
            g = and_([c for c, t in self.rel_guards(ob, e)] + list(more))
            return rename(ite(g, x, ZERO), dict(sub))
        mp = self.fresh_map(extra, ('cs', ob.n))
        gs = [rename(c, mp) for c, t in self.rel_guards(ob, e) if not (drop and c in drop)] + [rename(c, mp) for c in more]
        for kk in chain:
            g = eq(rename(kk, mp), rename(kk, dict(sub)))
            if g is not TRUE:
                gs.append(g)
        xx = rename(x, mp)
        loops = tuple(mp[l] for l in extra)
        if xx.op == 'sum':
            return mk('sum', loops + xx.a[0], tuple(gs) + xx.a[1], xx.a[2])
        return mk('sum', loops, tuple(gs), xx)

    def getitem(self, o, k, st, node):
        if o.op == 'ref':
            ob = self.obj(o)
            if ob.kind == 'dict':
                return self.lookup(o, k, st, node)
            if ob.kind == 'list':
                return self.index_list(o, k, st, node)
            if ob.kind == 'inst' and ob.cls is not None and self.prog.find_method(ob.cls, '__getitem__'):
                return self.call_method(o, '__getitem__', [k], {}, st, node)
        if o.op == 'tuple':
            return index(o, k)
        if o.op == 'cls' and self.prog.is_enum(o.a[0]) and k.op == 'const':
            m = self.prog.enum_members(o.a[0])
            if k.a[0] in m:
                return const(self.prog.enum_canon(o.a[0], k.a[0]))
        x = st.m.get(('x', o, k))
        if x is not None:
            return x
        if o.op == 'ite':
            return ite(o.a[0], self.getitem(o.a[1], k, st, node), self.getitem(o.a[2], k, st, node))
        self.use(st, node, 'index', o, None, (k,))
        if o.op == 'const' and k.op == 'const':
            try:
                return const(o.a[0][cval(k)])
            except Exception:
                return top('const index')
        return index(strip_it(o), k)

    def getslice(self, o, lo, hi, step, st, node):
        if self.trace:
            self.use(st, node, "index", o, None, (lo, hi))
        if o.op == 'cat' and lo is NONE and step is NONE and hi.op == 'const' and isinstance(cval(hi), int) and cval(hi) < 0:
            lastp = o.a[-1]
            n = -cval(hi)
            if lastp.op == 'const' and isinstance(lastp.a[0], str) and len(lastp.a[0]) >= n:
                r = cat(*(o.a[:-1] + (const(lastp.a[0][:-n]),)))
                if r.op == 'cat' and len(r.a) == 1:
                    return r.a[0]
                return r
        if o.op == 'const' and all(x.op == 'const' for x in (lo, hi, step)):
            try:
                return const(o.a[0][cval(lo):cval(hi):cval(step)])
            except Exception:
                pass
        if o.op == 'ite':
            return ite(o.a[0], self.getslice(o.a[1], lo, hi, step, st, node), self.getslice(o.a[2], lo, hi, step, st, node))
        if lo is NONE and hi is NONE and step is NONE:
            return strip_it(o)
        if o.op == 'ref' and self.obj(o).kind == 'list' and all(x.op == 'const' for x in (lo, hi, step)):
            cs = self.concrete(o)
            if cs:
                r = self.alloc('list', node, st)
                for v in cs[cval(lo):cval(hi):cval(step)]:
                    self.emit(st, 'cont', node, obj=self.obj(r), recv=r, name='append', value=v)
                return r
        if (o.op == 'ref' and self.obj(o).kind == 'list' or o.op in ('listof', 'it')) and lo is NONE and hi is NONE and step is const(-1) and self.oracle is None:
            return self.builtin("reversed", [o], {}, st, node)
        return mk('slice', strip_it(o), lo, hi, step)

    # ------------------------------------------------------------ expressions
    def ev_slice(self, s, st):
        if isinstance(s, ast.Slice):
            return mk('sl', *[self.ev(x, st) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        return self.ev(s, st)

    def evbool(self, e, st):
        return self.ev(e, st)

    def ev(self, e, st):
        self.tick()
        if st.dead:
            return top('dead')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return top('expr ' + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        self.curline = e.lineno
        f = self.frames[-1]
        n = e.id
        if n in f.globals:
            v = st.m.get(('g', f.module.name, n))
            return v if v is not None else self.global_or_builtin(f.module, n)
        if n in f.nonlocals:
            return st.m.get(('v', f.nonlocals[n], n), UNDEF)
        fr = f
        while fr is not None:
            v = st.m.get(('v', fr.fid, n))
            if v is not None:
                return v
            if fr.locals is not None and n in fr.locals:
                if fr is f:
                    self.emit(st, 'undef', e, name=n, args=())
                return UNDEF
            fr = fr.parent
        v = st.m.get(('g', f.module.name, n))
        if v is not None:
            return v
        return self.global_or_builtin(f.module, n)

    def global_or_builtin(self, module, n):
        v = self.global_(module, n)
        if v is not None:
            return v
        if n in BUILTINS:
            return mk('builtin', n)
        if not self.trydepth and not module.name.startswith('verif') and n not in self.module_names(module):
            self.unbound.setdefault((n, module.path, self.curline), self.stack())
        return mk('ext', 'unbound:' + n)

    def module_names(self, module):
        """Names the module level may bind; everything when an outside module is imported with *."""
        r = self.modnames.get(module.name)
        if r is not None:
            return r
        out = set(dir(builtins_)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__'}
        seen = set()

        def star(m):
            if m.name in seen:
                return True
            seen.add(m.name)
            ok = True
            for x in m.bind.get('*', ('', ()))[1]:
                if x in self.prog.modules:
                    ok = star(self.prog.modules[x]) and ok
                elif x in ('ctypes', 'typing', 'enum', 'os.path', 'datetime'):
                    # a module of the standard library exports what it exports
                    try:
                        k = importlib.import_module(x)
                    except ImportError:
                        return False
                    out.update(getattr(k, '__all__', None) or [y for y in vars(k) if not y.startswith('_')])
                else:
                    ok = False
            return ok
        if not star(module):
            r = Everything()
        else:
            todo = list(module.tree.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    out.add(x.name)
                    continue
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    out.add(x.id)
                if isinstance(x, ast.alias):
                    out.add((x.asname or x.name).split('.')[0])
                if isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                todo += list(ast.iter_child_nodes(x))
            for x in ast.walk(module.tree):
                if isinstance(x, ast.Global):
                    out |= set(x.names)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('globals', 'exec', 'eval', 'setattr', '__import__'):
                    if x.func.id == 'setattr' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id not in out:
                        continue      # an attribute of a local object, not of a module
                    out = Everything()
                    break
            r = out
        self.modnames[module.name] = r
        return r

    def global_(self, module, n):
        k = ('g', module.name, n)
        if k in self.globals_:
            return self.globals_[k]
        b = self.prog.lookup(module, n)
        if b is None:
            return None
        if b[0] == 'func':
            v = mk('func', b[1])
        elif b[0] == 'class':
            v = mk('cls', b[1])
        elif b[0] == 'module':
            v = mk('mod', b[1])
        elif b[0] == 'ext':
            v = mk('ext', b[1])
        else:
            _, m2, nm, expr = b
            k2 = ('g', m2.name, nm)
            if k2 in self.globals_:
                return self.globals_[k2]
            self.globals_[k2] = top('recursive global')
            v = self.shared_value(expr, m2, 'module %s.%s' % (m2.name, nm))
            self.globals_[k2] = v
        self.globals_[k] = v
        return v

    def shared_value(self, expr, module, what, cls=None):
        """A value evaluated once per program: module or class level, default arguments."""
        fr = Frame(('mod', module.name, what), None, module, cls, None)
        sl, sc, sf = self.loops, self.ctx, self.frames
        self.loops, self.ctx, self.frames = [], (), [fr]
        st = State()
        if cls is not None:
            for nm, ex in cls.assigns.items():
                pass
        mark = len(self.log)
        try:
            v = self.ev(expr, st)
        finally:
            self.loops, self.ctx, self.frames = sl, sc, sf
        # evaluated once: its effects are not part of the pass over a loop that happens to need it first
        self.initlog.extend(self.log[mark:])
        del self.log[mark:]
        self.gstate.m.update({k: x for k, x in st.m.items() if k[0] != 'v'})
        if v.op == 'ref':
            v.a[0].shared = what
            for k2, x in st.m.items():
                if k2[0] == 'f':
                    self.instcls[k2] = x
        return v

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr_(o, e.attr, st, e)

    def use(self, st, node, what, o, name=None, args=()):
        if self.trace and o is not None and o.op not in ('const', 'ref', 'builtin', 'ext', 'mod', 'cls', 'func', 'closure', 'bm', 'cm', 'undef'):
            self.emit(st, 'use', node, recv=o, name=what, key=name, args=tuple(args))

    def field_absent(self, o, name, st):
        """Is the object, made here and in full view, surely without this attribute?"""
        if o.op != 'ref' or o.a[0].kind != 'inst':
            return False
        ob, sub = o.a
        if ob.keyed is not None or ob.shared or ob.cls is None or sub:
            return False
        if tuple(ob.loops) != tuple(self.cur_loops()) or self.loopnodes:
            return False            # an earlier iteration may have set it
        if ('f', o, name) in st.m or self.gstate.m.get(('f', o, name)) is not None:
            return False
        eb = self.prog.ext_bases(ob.cls)
        if eb and not all(b in ('object', 'ABC', 'abc.ABC') for b in eb):
            return False
        return self.prog.find_method(ob.cls, name) is None and self.class_attr(ob.cls, name, st) is None \
            and self.prog.find_method(ob.cls, '__getattr__') is None and not (name.startswith('__') and name.endswith('__'))

    def getattr_(self, o, name, st, node):
        op = o.op
        if op == 'ref':
            ob, sub = o.a
            if ob.kind == 'inst':
                if ob.keyed is not None:
                    mine = [e for e in ob.events if e.key is const(name)]
                    if not mine and self.ghost_cell(ob, const(name)):
                        return mk('cell', o, const(name))
                    if mine:
                        base = st.m.get(('f', mk('ref', ob, ()), name), UNDEF)
                        return self.cell_value(ob, o, const(name), base, mine, sub)
                v = st.m.get(('f', o, name))
                if v is not None:
                    return v
                if sub:
                    v = st.m.get(('f', mk('ref', ob, ()), name))
                    if v is not None:
                        return rename(v, dict(sub))
                v = self.gstate.m.get(('f', o, name))
                if v is not None:
                    return v
                if ob.cls is not None:
                    fi = self.prog.find_method(ob.cls, name)
                    if fi is not None:
                        if fi.is_property:
                            return self.call_fn(fi, [], {}, st, o, node)
                        if fi.is_static:
                            return mk('func', fi)
                        if fi.is_class:
                            return mk('bm', mk('cls', ob.cls), fi)
                        return mk('bm', o, fi)
                    v = self.class_attr(ob.cls, name, st)
                    if v is not None:
                        return v
                    if name == '__class__':
                        return mk('cls', ob.cls)
                    if not self.prog.ext_bases(ob.cls) or all(b in ('object', 'ABC', 'abc.ABC') for b in self.prog.ext_bases(ob.cls)):
                        self.emit(st, 'noattr', node, recv=o, name=name, args=())
                return mk('attr', o, name)
            return mk('cm', o, name)
        if op == 'cls':
            c = o.a[0]
            v = st.m.get(('f', o, name))
            if v is not None:
                return v
            if self.prog.is_enum(c):
                m = self.prog.enum_members(c)
                if name in m:
                    return const(self.prog.enum_canon(c, name))
            fi = self.prog.find_method(c, name)
            if fi is not None:
                if fi.is_class:
                    return mk('bm', o, fi)
                return mk('func', fi)
            v = self.class_attr(c, name, st)
            if v is not None:
                return v
            if name in ('__name__', '__qualname__'):
                return const(c.name)
            return mk('attr', o, name)
        if op == 'mod':
            m = self.prog.modules.get(o.a[0])
            if m is not None:
                v = st.m.get(('g', m.name, name))
                if v is not None:
                    return v
                v = self.global_(m, name)
                if v is not None:
                    return v
                if o.a[0] + '.' + name in self.prog.modules:
                    return mk('mod', o.a[0] + '.' + name)
            return mk('ext', o.a[0] + '.' + name)
        if op == 'ext':
            return mk('ext', o.a[0] + '.' + name)
        if op == 'super':
            cls, selft = o.a
            real = self.class_of(selft) or cls
            fi = self.prog.find_method(real, name, after=cls)
            if fi is not None:
                if fi.is_property:
                    return self.call_fn(fi, [], {}, st, selft, node)
                return mk('bm', selft, fi)
            return mk('ext', 'object.' + name)
        if op in ('lastkey', 'firstkey') and o.a[2].op == 'ref' and o.a[2].a[0].kind == 'inst':
            v = self.getattr_(o.a[2], name, st, node)
            if v.op == 'const':
                return v
            if v.op not in ('bm', 'ref'):
                return mk(op, o.a[0], o.a[1], v)
        if op == 'ite':
            a, b = o.a[1], o.a[2]
            if a is UNDEF:
                return self.getattr_(b, name, st, node)
            if b is UNDEF:
                return self.getattr_(a, name, st, node)
            return ite(o.a[0], self.getattr_(a, name, st, node), self.getattr_(b, name, st, node))
        if op == 'const':
            v = o.a[0]
            if isinstance(v, EnumVal):
                if name == 'value':
                    return const(v.value)
                if name == 'name':
                    return const(v.name)
            if v is None:
                self.emit(st, 'nullattr', node, recv=o, name=name, args=())
            return mk('attr', o, name)
        if op == 'closure' or op == 'func':
            return mk('attr', o, name)
        v = st.m.get(('f', o, name))
        if v is not None:
            return v
        if op in ('first', 'last') and isinstance(o.a[3], T) and o.a[3].op in ('ref', 'tuple'):
            inner = self.getattr_(o.a[3], name, st, node)
            if inner.op not in ('bm', 'cm'):
                return mk(op, o.a[0], o.a[1], o.a[2], inner)
        self.use(st, node, 'attr', o, name)
        return mk('attr', o, name)

    def class_of(self, t):
        if t is None:
            return None
        if t.op == 'ref' and t.a[0].kind == 'inst':
            return t.a[0].cls
        if t.op == 'cls':
            return t.a[0]
        return None

    def class_attr(self, c, name, st):
        for k in self.prog.mro(c):
            v = st.m.get(('f', mk('cls', k), name))
            if v is not None:
                return v
            if name in k.assigns:
                gk = ('ca', k, name)
                if gk not in self.globals_:
                    self.globals_[gk] = top('recursive class attribute')
                    self.globals_[gk] = self.shared_value(k.assigns[name], k.module, 'class %s.%s' % (k.qualname, name), k)
                return self.globals_[gk]
            if name in k.inner:
                return mk('cls', k.inner[name])
        return None

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            lo, hi, step = [self.ev(x, st) if x is not None else NONE for x in (s.lower, s.upper, s.step)]
            return self.getslice(o, lo, hi, step, st, e)
        k = self.ev(e.slice, st)
        return self.getitem(o, k, st, e)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, st)
                    if v.op == 'tuple':
                        out.extend(v.a)
                    else:
                        return top('starred tuple')
                else:
                    out.append(self.ev(x, st))
            return mk('tuple', *out)
        return mk('tuple', *[self.ev(x, st) for x in e.elts])

    def e_List(self, e, st):
        vals = [(x, self.ev(x.value if isinstance(x, ast.Starred) else x, st)) for x in e.elts]
        r = self.alloc('list', e, st)
        for x, v in vals:
            if isinstance(x, ast.Starred):
                self.extend(r, v, st, e)
            else:
                self.emit(st, 'cont', e, obj=self.obj(r), recv=r, name='append', value=v)
        return r

    def e_Set(self, e, st):
        vals = [self.ev(x, st) for x in e.elts]
        r = self.alloc('set', e, st)
        for v in vals:
            self.emit(st, 'cont', e, obj=self.obj(r), recv=r, name='add', value=v)
        return r

    def e_Dict(self, e, st):
        kv = [(self.ev(k, st) if k is not None else None, self.ev(v, st)) for k, v in zip(e.keys, e.values)]
        r = self.alloc('dict', e, st)
        for k, v in kv:
            if k is None:
                self.dict_update(r, v, st, e)
            else:
                self.emit(st, 'cont', e, obj=self.obj(r), recv=r, name='store', key=k, value=v)
                self.note_keyed(self.obj(r), k, v)
        return r

    def dict_update(self, r, v, st, node):
        box = {}
        tally = self.obj(r).counter
        if tally and not (v.op == 'ref' and self.obj(v).kind == 'dict'):
            # counts the elements themselves
            def bind1(x, st2):
                box['k'] = x

            def body1(st2):
                self.augitem(r, box['k'], '+', const(1), st2, node)
                return st2
            s2 = self.iter_term(v, bind1, body1, st, node)
            if s2 is not None:
                st.become(s2)
            return

        def bind(x, st2):
            box['k'], box['v'] = self.getitem(x, ZERO, st2, node), self.getitem(x, const(1), st2, node)

        def body(st2):
            if tally:
                self.augitem(r, box['k'], '+', box['v'], st2, node)
            else:
                self.setitem(r, box['k'], box['v'], st2, node)
            return st2
        s2 = self.iter_term(mk('dictitems', v, 'items'), bind, body, st, node)
        if s2 is not None:
            st.become(s2)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(OPS[type(e.op)], a, b, st, e)

    def lenx(self, t):
        return self.lenof.get(t) or t

    def binop(self, opn, a, b, st, node):
        if self.lenof and opn in ('+', '-', '*', '/', '//', '%') and not any(x.op == 'ref' and self.obj(x).kind == 'list' for x in (a, b)):
            a, b = self.lenx(a), self.lenx(b)
        if opn == '%' and is_str(a):
            return self.percent(a, b)
        if opn == '*':
            for x, y in ((a, b), (b, a)):
                if x.op == 'ref' and self.obj(x).kind == 'list':
                    lit = self.literal_list(x)
                    if lit is not None and len(lit) == 1:
                        r = self.alloc('list', node, st, extra='fill')
                        self.emit(st, 'cont', node, obj=self.obj(r), recv=r, name='fill', value=lit[0], key=y)
                        return r
                    return top('list repeat')
                if x.op == 'const' and isinstance(x.a[0], str):
                    if y.op == 'const':
                        return const(x.a[0] * cval(y))
                    return mk('repeat', x, y)
        if opn == '+' and (a.op == 'ref' or b.op == 'ref') and not (is_str(a) or is_str(b)):
            ka = self.obj(a).kind if a.op == 'ref' else 'opaque'
            kb = self.obj(b).kind if b.op == 'ref' else 'opaque'
            if ka == 'list' or kb == 'list':
                r = self.alloc('list', node, st, extra='plus')
                save = self.ctx
                self.ctx = save + (('l', id(node)),)
                self.extend(r, a, st, node)
                self.ctx = save + (('r', id(node)),)
                self.extend(r, b, st, node)
                self.ctx = save
                return r
        if opn == '+' and a.op == 'tuple' and b.op == 'tuple':
            return mk('tuple', *(a.a + b.a))
        if opn == '|' and a.op == 'const' and b.op == 'const' and isinstance(a.a[0], EnumVal) and isinstance(b.a[0], EnumVal) and isinstance(cval(a), int) and isinstance(cval(b), int):
            return const(cval(a) | cval(b))
        if a.op == 'ite' and is_const(a.a[1]) and is_const(a.a[2]) and is_const(b) and opn != '%':
            return ite(a.a[0], oper(opn, a.a[1], b), oper(opn, a.a[2], b))
        return oper(opn, a, b)

    def percent(self, a, b):
        if a.op != 'const':
            if a.op == 'cat':
                pass
            return mk('fmt', a, b)
        args = list(b.a) if b.op == 'tuple' else [b]
        if b.op == 'mu' or b.op == 'top':
            return mk('fmt', a, b)
        return self.format_percent(a.a[0], args)

    def format_percent(self, s, args):
        parts = []
        i = 0
        buf = ''
        args = list(args)
        while i < len(s):
            c = s[i]
            if c == '%':
                j = i + 1
                while j < len(s) and s[j] not in 'diouxXeEfFgGcrsa%':
                    j += 1
                if j >= len(s):
                    return top('format')
                if s[j] == '%':
                    buf += '%'
                else:
                    if s[i + 1:i + 2] == '(':
                        return top('named format')
                    if not args:
                        return mk('badfmt', const(s))
                    parts.append(const(buf))
                    buf = ''
                    spec = s[i + 1:j + 1]
                    stars = spec.count('*')
                    if stars:
                        if len(args) < stars + 1:
                            return mk('badfmt', const(s))
                        pieces = []
                        for seg in spec.split('*'):
                            pieces.append(const(seg))
                            if len(pieces) < 2 * stars + 1:
                                w = args.pop(0)
                                pieces.append(const('%d' % cval(w)) if w.op == 'const' and isinstance(cval(w), int) else mk('str', w, 's'))
                        c = cat(const('%'), *pieces)
                        if c.op == 'const':
                            spec = c.a[0][1:]
                        else:
                            parts.append(mk('fmt', c, args.pop(0)))
                            i = j + 1
                            continue
                    parts.append(mk('str', args.pop(0), spec))
                i = j + 1
            else:
                buf += c
                i += 1
        parts.append(const(buf))
        if args:
            return mk('badfmt', const(s))
        return cat(*parts)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                spec = 's'
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st)
                    spec = sp.a[0] if sp.op == 'const' else '?'
                parts.append(mk('str', x, spec) if not is_str(x) or spec != 's' else x)
        r = cat(*parts)
        if r.op not in ('cat', 'const'):
            r = mk('cat', r)
        return r

    def e_FormattedValue(self, e, st):
        return mk('str', self.ev(e.value, st), 's')

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth_(v, st))
        if isinstance(e.op, ast.USub):
            return const(-cval(v)) if numc(v) else mk('op', 'neg', v)
        if isinstance(e.op, ast.Invert):
            return const(~cval(v)) if numc(v) else mk('op', '~', v)
        return v

    def truth_(self, v, st):
        if self.lenof:
            v = self.lenx(v)
        if self.oracle is not None and v.op != 'ref':
            return self.oracle.decide(truth(v))
        if v.op == 'ref':
            ob = self.obj(v)
            if ob.kind == 'inst':
                if ob.cls is not None and not self.prog.find_method(ob.cls, '__len__') and not self.prog.find_method(ob.cls, '__bool__'):
                    return TRUE
            else:
                n = self.length(v, st)
                if n is not None:
                    return n[1]
                return mk('nonempty', v)
        if self.trace:
            self.use(st, self.curnode, 'truth', v)
        return truth(v)

    def length(self, ref, st):
        """(number of elements, is it non-empty) of a list of this analysis, when its producers are all known."""
        ob = self.obj(ref)
        if ob.kind != 'list' or self.key_chain(ob) or ref.a[1] or any(e.name not in ('append', 'insert', 'sort', 'reverse') for e in ob.events):
            return None
        comps = self.contents(ref, st)
        if comps is None or any(c.slot is not None or c.fill for c in comps):
            return None
        ns, bs = [], []
        for c in comps:
            gs = [g for g, t in c.guards]
            if any(has_top(g) for g in gs) or any(TM.truncs(l) for l in c.loops) or any(g.op in ('in', 'uniq', 'slot') or (g.op == 'not' and g.a[0].op == 'in') for g in gs):
                return None
            g = and_(gs)
            if not c.loops:
                ns.append(ite(g, const(1), ZERO))
                bs.append(g)
            elif len(c.loops) == 1 and g is TRUE:
                ns.append(mk('op', 'len', strip_it(c.loops[0].domain)))
                bs.append(mk('nonempty', strip_it(c.loops[0].domain)))
            else:
                ns.append(mk('sum', tuple(c.loops), tuple(gs), const(1)))
                bs.append(mk('exists', tuple(c.loops), tuple(gs), TRUE))
        if not ns:
            return ZERO, FALSE
        n = ns[0]
        for x in ns[1:]:
            n = self.binop('+', n, x, st, None)
        return n, or_(bs)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        cur = st
        cond = []
        first = self.ev(e.values[0], st)
        res = first
        sts = []
        known = []
        vs = [first]
        s = st
        for x in e.values[1:]:
            t = self.truth_(vs[-1], st)
            if t is (FALSE if isand else TRUE):
                break
            s2 = s.fork(t if isand else not_(t))
            if s2.dead:
                break
            before = s2.m
            snapshot = dict(s2.m)
            v = self.ev(x, s2)
            vs.append(v)
            if s2.m != snapshot and not s2.dead:
                s3 = s.fork(not_(t) if isand else t)
                j = self.join(s2, s3)
                st.m = j.m
                s = st
        ts = [self.truth_(v, st) for v in vs]
        if all(is_bool(v) for v in vs):
            return and_(ts) if isand else or_(ts)
        # value semantics
        r = vs[-1]
        for v, t in zip(reversed(vs[:-1]), reversed(ts[:-1])):
            r = ite(t, r, v) if isand else ite(t, v, r)
        return r

    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        out = []
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, st)
            out.append(self.compare(type(op), l, r, st))
            l = r
        return and_(out) if len(out) > 1 else out[0]

    def compare(self, op, l, r, st):
        if self.lenof:
            l, r = self.lenx(l), self.lenx(r)
        if op in (ast.Is, ast.Eq):
            return self.eq_(l, r, op is ast.Is)
        if op in (ast.IsNot, ast.NotEq):
            return not_(self.eq_(l, r, op is ast.IsNot))
        if op is ast.In:
            return self.contains(l, r, st)
        if op is ast.NotIn:
            return not_(self.contains(l, r, st))
        return oper(CMP[op], l, r)

    def eq_(self, l, r, ident=False):
        if l.op == 'ref' and r.op == 'ref' and l is not r and not l.a[1] and not r.a[1]:
            if l.a[0] is not r.a[0] and ident:
                return FALSE
        c = eq(l, r)
        if l is NONE or r is NONE:
            c = self.nonnull(c)
        return c

    def e_IfExp(self, e, st):
        c = self.truth_(self.ev(e.test, st), st)
        c = self.simplify_pc(c, st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        s1, s2 = st.fork(c), st.fork(not_(c))
        a = self.ev(e.body, s1) if not s1.dead else top('dead')
        b = self.ev(e.orelse, s2) if not s2.dead else top('dead')
        if s1.dead and s2.dead:
            st.dead = True
            return top('dead')
        if s1.dead:
            st.become(s2)
            return b
        if s2.dead:
            st.become(s1)
            return a
        st.become(self.join(s1, s2))
        return ite(c, a, b)

    def e_Lambda(self, e, st):
        f = self.frames[-1]
        f.keep = True
        return mk('closure', self.fi_of(e, f), f)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Starred(self, e, st):
        return top('starred')

    def comp(self, e, st, kind, emitfn):
        r = self.alloc(kind, e, st)
        f = self.frames[-1]

        def level(i, st2):
            if i == len(e.generators):
                emitfn(r, st2)
                return st2
            g = e.generators[i]

            def body(st3):
                for c in g.ifs:
                    t = self.truth_(self.ev(c, st3), st3)
                    if t is FALSE:
                        return self.die('continue')
                    st3.assume(t, 'filter')
                return level(i + 1, st3)
            return self.iterate(g.iter, g.target, body, st2, g)
        # targets are local to the comprehension: use shadow names
        saved = {}
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            saved[n] = st.m.get(('v', f.fid, n))
        s2 = level(0, st.fork())
        if s2 is not None:
            pc = st.pc
            st.become(s2)
            st.pc = pc
        for n in names:
            if saved[n] is None:
                st.m.pop(('v', f.fid, n), None)
            else:
                st.m[('v', f.fid, n)] = saved[n]
        return r

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list', lambda r, s: self.emit(s, 'cont', e, obj=self.obj(r), recv=r, name='append', value=self.ev(e.elt, s)))

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st)

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set', lambda r, s: self.emit(s, 'cont', e, obj=self.obj(r), recv=r, name='add', value=self.ev(e.elt, s)))

    def e_DictComp(self, e, st):
        def em(r, s):
            k = self.ev(e.key, s)
            v = self.ev(e.value, s)
            self.setitem(r, k, v, s, e)
        return self.comp(e, st, 'dict', em)

    def e_Yield(self, e, st):
        f = self.frames[-1]
        v = self.ev(e.value, st) if e.value is not None else NONE
        if f.on_yield is not None:
            r = f.on_yield(v, st)
            if r is None:
                st.dead = True
                st.why = getattr(self, 'last_death', 'raise')
            else:
                st.become(r)
            return NONE
        if f.yields is not None:
            self.emit(st, 'cont', e, obj=self.obj(f.yields), recv=f.yields, name='append', value=v)
        return NONE

    def e_YieldFrom(self, e, st):
        f = self.frames[-1]
        v = self.ev(e.value, st)
        if f.yields is not None:
            self.extend(f.yields, v, st, e)
        return NONE

    def e_Await(self, e, st):
        return top('await')

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = self.frames[-1]
            if e.args:
                c = self.ev(e.args[0], st)
                s = self.ev(e.args[1], st) if len(e.args) > 1 else f.selft
                return mk('super', c.a[0], s) if c.op == 'cls' else top('super')
            fr = f
            while fr is not None and fr.cls is None:
                fr = fr.parent
            if fr is None:
                return top('super')
            return mk('super', fr.cls, fr.selft)
        fn = self.ev(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v.op == 'tuple':
                    args.extend(v.a)
                elif v.op == 'ref' and self.obj(v).kind == 'list' and self.literal_list(v) is not None:
                    args.extend(self.literal_list(v))
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.ev(a, st))
            if st.dead:
                return top('dead')
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if v.op == 'ref' and self.obj(v).kind == 'dict' and all(x.name == 'store' and x.key.op == 'const' for x in self.obj(v).events):
                    for x in self.obj(v).events:
                        kw[x.key.a[0]] = x.value
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        if st.dead:
            return top('dead')
        return self.call(fn, args, kw, st, e)

    def call(self, fn, args, kw, st, node):
        op = fn.op
        if op == 'func':
            fi = fn.a[0]
            if fi.qualname in self.opaque_funcs:
                return self.opaque_call(None, fi.qualname, args, kw, st, node, pure=False)
            selft = None
            return self.call_fn(fi, args, kw, st, None, node)
        if op == 'bm':
            recv, fi = fn.a
            if fi.qualname in self.opaque_funcs:
                return self.opaque_call(recv, fi.name, args, kw, st, node, pure=False)
            return self.call_fn(fi, args, kw, st, recv, node)
        if op == 'closure':
            fi, fr = fn.a
            return self.call_fn(fi, args, kw, st, None, node, clos=fr)
        if op == 'cls':
            return self.instantiate(fn.a[0], args, kw, st, node)
        if op == 'cm':
            return self.cont_method(fn.a[0], fn.a[1], args, kw, st, node)
        if op == 'builtin':
            return self.builtin(fn.a[0], args, kw, st, node)
        if op == 'partial':
            return self.call(fn.a[0], list(fn.a[1]) + args, dict(dict(fn.a[2]), **kw), st, node)
        if op == 'attr':
            return self.opaque_call(fn.a[0], fn.a[1], args, kw, st, node)
        if op == 'ext':
            return self.ext_call(fn.a[0], args, kw, st, node)
        if op == 'ite':
            c = fn.a[0]
            arms = []
            s1, s2 = st.fork(c), st.fork(not_(c))
            a = self.call(fn.a[1], args, kw, s1, node) if fn.a[1].op not in ('undef',) and not s1.dead else top('dead')
            b = self.call(fn.a[2], args, kw, s2, node) if fn.a[2].op not in ('undef',) and not s2.dead else top('dead')
            if s1.dead and s2.dead:
                st.dead = True
                return top('dead')
            if s1.dead:
                st.become(s2)
                return b
            if s2.dead:
                st.become(s1)
                return a
            st.become(self.join(s1, s2))
            return ite(c, a, b)
        if op == 'ref' and self.obj(fn).kind == 'inst':
            return self.call_method(fn, '__call__', args, kw, st, node)
        # calling an opaque value
        return self.opaque_call(fn, '__call__', args, kw, st, node, pure=False)

    def call_method(self, recv, name, args, kw, st, node):
        m = self.getattr_(recv, name, st, node)
        return self.call(m, args, kw, st, node)

    def bind_args(self, fi, args, kw, st, node, clos):
        """param name -> term (None if the call does not fit the signature)"""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        bad = None
        if any(x.op == 'star' for x in args):
            if len(args) == 1 and a.vararg is not None and not names:
                pass
            else:
                bad = 'starred call'
        for n in names:
            if args:
                out[n] = args.pop(0)
            elif n in kw:
                out[n] = kw.pop(n)
        for x in a.kwonlyargs:
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defs:
            if n not in out:
                out[n] = self.default_arg(fi, n, d, clos)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                bad = bad or 'missing argument %s' % n
                out[n] = top('missing argument ' + n)
        if a.vararg is not None:
            if len(args) == 1 and args[0].op == 'star':
                out[a.vararg.arg] = args[0].a[0]
            else:
                out[a.vararg.arg] = mk('tuple', *args)
            args = []
        if args:
            bad = bad or 'too many arguments'
        if a.kwarg is not None:
            out[a.kwarg.arg] = ('kwargs', kw)
            kw = {}
        kw.pop('**', None)
        if kw:
            bad = bad or 'unexpected keyword %s' % sorted(kw)
        return out, bad

    def default_arg(self, fi, n, d, clos):
        k = ('da', id(fi.node), n)
        if k not in self.globals_:
            if clos is not None and not isinstance(d, ast.Constant):
                # default evaluated in the defining scope
                st = self.cur_state
                fr = self.frames
                self.frames = [clos]
                try:
                    return self.ev(d, st)
                finally:
                    self.frames = fr
            self.globals_[k] = self.shared_value(d, fi.module, 'default argument %s of %s' % (n, fi.qualname), fi.cls)
        return self.globals_[k]

    def call_fn(self, fi, args, kw, st, selft, node, clos=None, on_yield=None):
        self.cur_state = st
        if selft is not None and not fi.is_static:
            args = [selft] + list(args)
        elif fi.is_class and selft is None and fi.cls is not None:
            selft = mk('cls', fi.cls)
            args = [selft] + list(args)
        elif selft is None and fi.cls is not None and not fi.is_static and args:
            selft = args[0]      # C.method(self, ...)
        if fi.is_ctxmgr and on_yield is None:
            base = args[1:] if selft is not None and not fi.is_static else args
            return mk('ctxgen', fi, clos, tuple(base), tuple(kw.items()), selft if not fi.is_static else None, node)
        # recursion
        depth = sum(1 for f in self.frames if f.fi is fi)
        if self.oracle is not None and depth and self.oracle.again(self, fi, None, st):
            st.dead, st.why = True, 'again'
            return top('again')
        # a helper shared by the levels of a recursion is followed once more at each of its call sites
        if depth >= 4 or depth >= 2 and any(f.fi is fi and f.site is node for f in self.frames) or len(self.frames) > MAXDEPTH:
            r = mk('rec', fi, tuple(x for x in args), self.key('r', id(node), self.ctx, self.cur_loops()), self.cur_loops())
            self.emit(st, 'rec', node, recv=selft, name=fi.qualname, args=tuple(args), kw=kw, result=r, raw=fi)
            return r
        bound, bad = self.bind_args(fi, args, kw, st, node, clos)
        if bad:
            self.emit(st, 'badcall', node, recv=selft, name=fi.qualname, args=tuple(args), value=const(bad), raw=fi)
        self.visited.add(fi.qualname)
        fid = self.key('f', id(fi.node), self.ctx, id(node), self.cur_loops())
        fr = Frame(fid, fi, fi.module, fi.cls, selft)
        fr.site = node
        fr.parent = clos
        fr.on_yield = on_yield
        fr.locals = local_names(fi.node)
        save = self.ctx
        self.emit(st, 'inline', node, recv=selft, name=fi.qualname, args=tuple(args), kw=kw, raw=fi, value=bound)
        self.ctx = self.ctx + (('c', id(node)),)
        if fi.is_gen and on_yield is None:
            fr.yields = self.alloc('list', fi.node, st, extra=('gen', id(node)))
        self.frames.append(fr)
        s = st.fork()
        for n, v in bound.items():
            if isinstance(v, tuple):
                d = self.alloc('dict', fi.node, s, extra=('kw', id(node)))
                for kn, kvv in v[1].items():
                    self.emit(s, 'cont', node, obj=self.obj(d), recv=d, name='store', key=const(kn), value=kvv)
                v = d
            s.m[('v', fid, n)] = v
        npc = len(st.pc)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body, s)
                s.m[('v', fid, '%ret')] = v
                if not s.dead:
                    fr.returns.append(s)
            else:
                self.last_death = None
                r = self.block(fi.node.body, s)
                if r is not None:
                    r.m[('v', fid, '%ret')] = NONE
                    fr.returns.append(r)
        finally:
            self.frames.pop()
            self.ctx = save
        out = None
        for x in reversed(fr.returns):
            out = x if out is None else self.join(x, out)
        if out is None:
            st.dead = True
            st.why = 'raise'
            return top('no return')
        rv = out.m.get(('v', fid, '%ret'), NONE)
        if not fr.keep:
            for k in [k for k in out.m if k[0] == 'v' and k[1] == fid]:
                del out.m[k]
        else:
            out.m.pop(('v', fid, '%ret'), None)
        st.m, st.pc = out.m, out.pc
        if fr.yields is not None:
            return fr.yields
        return rv

    def instantiate(self, c, args, kw, st, node):
        if self.prog.is_enum(c):
            if len(args) == 1 and args[0].op == 'const':
                for m in self.prog.enum_members(c).values():
                    if m.value == cval(args[0]):
                        return const(self.prog.enum_canon(c, m.name))
            return mk('call', mk('cls', c), '__enum__', tuple(args), ())
        if c.qualname in self.opaque_classes:
            return self.opaque_call(None, c.qualname, args, kw, st, node, pure=False)
        r = self.alloc('inst', node, st, cls=c, extra=c.qualname)
        # fields of an earlier abstract instance at the same site are stale
        for k in [k for k in st.m if k[0] == 'f' and k[1] is r]:
            del st.m[k]
        init = self.prog.find_method(c, '__init__')
        self.emit(st, 'create', node, recv=r, name=c.qualname, args=tuple(args), kw=kw)
        if init is not None:
            self.call_fn(init, args, kw, st, r, node)
        else:
            if any(d in ('dataclass',) for d in deco_names(c.node)):
                self.dataclass_init(c, r, args, kw, st, node)
            elif (args or kw) and not self.prog.ext_bases(c):
                self.emit(st, 'badcall', node, recv=r, name=c.qualname, args=tuple(args), value=const('arguments to constructor without parameters'))
            elif self.prog.ext_bases(c) and any(b not in ('object', 'ABC', 'abc.ABC', 'Generic') for b in self.prog.ext_bases(c)):
                self.emit(st, 'call', node, recv=r, name='__init__', args=tuple(args), kw=kw, pure=False, result=NONE)
        return r

    def dataclass_init(self, c, r, args, kw, st, node):
        args = list(args)
        for k in reversed(self.prog.mro(c)):
            for n in k.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    nm = n.target.id
                    if args:
                        v = args.pop(0)
                    elif nm in kw:
                        v = kw[nm]
                    elif n.value is not None:
                        if isinstance(n.value, ast.Call) and any(q.arg == 'default_factory' for q in n.value.keywords):
                            fac = [q.value for q in n.value.keywords if q.arg == 'default_factory'][0]
                            v = self.call(self.ev(fac, st), [], {}, st, fac)
                        else:
                            v = self.ev(n.value, st)
                    else:
                        v = top('missing field')
                    st.m[('f', r, nm)] = v

    def norm_args(self, name, args, kw):
        """positional form of an API call, by the declared parameter names"""
        if not kw:
            return tuple(args), {}
        p = self.iface_params(name, set(kw))
        if p is None:
            return tuple(args), dict(kw)
        names, defaults = p
        out = list(args)
        k = dict(kw)
        i = len(out)
        while i < len(names) and k:
            n = names[i]
            if n in k:
                out.append(k.pop(n))
            elif n in defaults and any(x in k for x in names[i:]):
                out.append(defaults[n])
            else:
                break
            i += 1
        return tuple(out), k

    def iface_params(self, name, used):
        """Parameter order of an API method: the declarations that know all the keywords used must agree."""
        sigs = self.globals_.get(('ifp', name))
        if sigs is None:
            sigs = {}
            for m in self.prog.modules.values():
                for b in list(m.bind.values()):
                    if b[0] == 'class' and name in b[1].methods:
                        fi = b[1].methods[name]
                        ps = tuple(fi.params[1:])
                        a = fi.node.args
                        ds = {}
                        for n, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
                            ds[n] = (d, fi)
                        sigs.setdefault(ps, ds)
            self.globals_[('ifp', name)] = sigs
        fit = [p for p in sigs if used <= set(p)]
        if not fit:
            return None
        pos = {tuple(p.index(u) for u in sorted(used)) for p in fit}
        if len(pos) > 1:
            return None
        longest = max(fit, key=len)
        return longest, {n: self.shared_value(d, fi.module, 'default', fi.cls) for n, (d, fi) in sigs[longest].items()}

    def opaque_call(self, recv, name, args, kw, st, node, pure=None):
        if self.ctors and recv is not None and name in self.ctors:
            c = self.prog.cls(self.ctors[name])
            if c is not None:
                return self.instantiate(c, args, kw, st, node)
        raw = (tuple(args), dict(kw))
        args, kw = self.norm_args(name, args, kw)
        if recv is not None and recv.op == 'const' and isinstance(recv.a[0], str) and name in ('format', 'join', 'split', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'ljust', 'rjust', 'center', 'capitalize', 'title', 'rstrip', 'lstrip', 'zfill', 'isdigit'):
            r = self.str_method(recv, name, args, kw, st, node)
            if r is not None:
                return r
        if recv is not None and recv.op not in ('const',) and name in ('items', 'keys', 'values') and not args:
            return mk('dictitems', recv, name)
        if recv is not None and name in ('append', 'insert', 'pop', 'remove', 'extend', 'clear', 'sort', 'reverse'):
            # the last element of a list this analysis did not see made
            st.m.pop(('x', recv, const(-1)), None)
            if name == 'append' and len(args) == 1 and not kw and recv.op in ('sym', 'attr'):
                st.m[('x', recv, const(-1))] = args[0]
        if pure is None:
            pure = name.startswith(PURE_PREFIX) and not name.startswith('setdefault')
        if recv is not None and recv.op == 'ite' and recv.a[1] is UNDEF:
            recv = recv.a[2]
        if recv is not None and recv.op == 'ite' and recv.a[2] is UNDEF:
            recv = recv.a[1]
        if pure:
            t = mk('call', recv, name, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])))
            if name == 'get' and len(args) in (1, 2) and recv is not None:
                t = mk('call', recv, 'get', tuple(args), ())
            if name in self.iter_methods:
                res = mk('it', t, self.sitekey(node), self.cur_loops())
            else:
                res = t
        else:
            res = mk('new', name, self.sitekey(node), self.cur_loops())
            if self.nullable and name.startswith(self.nullable):
                # the result of a foreign function may be nothing
                res = mk('attr', res, 'result')
        self.emit(st, 'call', node, recv=recv, name=name, args=tuple(args), kw=kw, result=res, pure=pure, raw=raw if self.trace else None)
        return res

    def str_method(self, recv, name, args, kw, st, node):
        s = recv.a[0]
        if name == 'format':
            return self.str_format(s, args, kw)
        if all(a.op == 'const' for a in args) and not kw:
            try:
                v = getattr(s, name)(*[cval(a) for a in args])
                if isinstance(v, (str, bool, int)):
                    return const(v)
            except Exception:
                pass
        if name == 'join' and len(args) == 1:
            cs = self.concrete(args[0])
            if cs is not None and all(isinstance(c.a[0], str) for c in cs):
                return const(s.join(c.a[0] for c in cs))
            vs = self.spelled_out(args[0])
            if vs:
                parts = []
                for v in vs:
                    parts += [const(s), v] if parts and s else [v]
                return cat(*parts)
            return mk('strjoin', recv, args[0])
        return None

    def str_format(self, s, args, kw):
        import string
        parts = []
        n = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                parts.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[n]
                    n += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return top('format field')
                parts.append(v if is_str(v) and not spec else mk('str', v, spec or 's'))
        except Exception:
            return mk('badfmt', const(s))
        r = cat(*parts)
        return r if r.op in ('cat', 'const') else mk('cat', r)

    def ext_call(self, name, args, kw, st, node):
        last = name.rsplit('.', 1)[-1]
        if name in ('collections.OrderedDict', 'OrderedDict'):
            return self.builtin('dict', args, kw, st, node)
        if name == 'collections.defaultdict':
            r = self.alloc('dict', node, st)
            self.obj(r).default = args[0] if args and args[0] is not NONE else None
            for a in args[1:]:
                self.dict_update(r, a, st, node)
            return r
        if name == 'collections.Counter' and not args and not kw:
            r = self.alloc('dict', node, st)
            self.obj(r).default = mk('builtin', 'int')
            self.obj(r).counter = True
            return r
        if name == 'itertools.chain.from_iterable' and len(args) == 1:
            r = self.alloc('list', node, st)
            box = {}

            def bind(v, s2):
                box['v'] = v

            def body(s2):
                self.extend(r, box['v'], s2, node)
                return s2
            s3 = self.iter_term(args[0], bind, body, st, node)
            if s3 is not None:
                st.become(s3)
            return r
        if name == 'itertools.islice' and len(args) in (2, 3):
            return self.getslice(args[0], args[1] if len(args) == 3 else NONE, args[-1], NONE, st, node)
        if name == 'collections.deque' and not args:
            return self.alloc('list', node, st)
        if name == 'itertools.chain':
            r = self.alloc('list', node, st)
            save = self.ctx
            for i, a in enumerate(args):
                self.ctx = save + (('ch', i),)
                self.extend(r, a, st, node)
            self.ctx = save
            return r
        if name in ('functools.partial',) and args:
            return mk('partial', args[0], tuple(args[1:]), tuple(kw.items()))
        if name == 'copy.copy' or name == 'copy.deepcopy':
            return mk('copyof', args[0], const(last == 'deepcopy'))
        if name == 'sys.exit':
            self.emit(st, 'call', node, recv=None, name=name, args=tuple(args), kw=kw, pure=False, result=NONE)
            self.emit(st, 'raise', node, recv=None, name='raise', args=(mk('ext', 'SystemExit'),) + tuple(args), value=mk('exit', args[0] if args else ZERO))
            st.dead = True
            st.why = 'raise'
            return top('exit')
        if name == 'operator.attrgetter' or name == 'operator.itemgetter' or name == 'operator.methodcaller':
            return mk('opgetter', last, tuple(args))
        if name.startswith('math.') and all(numc(a) for a in args):
            import math
            try:
                return const(getattr(math, last)(*[cval(a) for a in args]))
            except Exception:
                pass
        if name == 'functools.reduce' and len(args) == 3:
            box = {}
            fid = self.key('reduce', id(node), self.ctx)
            k = ('v', fid, 'acc')
            st.m[k] = args[2]
            fr = Frame(fid, self.frames[-1].fi, self.frames[-1].module, None, None)
            self.frames.append(fr)

            def bind(v, s2):
                box['v'] = v

            def body(s2):
                r = self.call(args[0], [s2.m[k], box['v']], {}, s2, node)
                s2.m[k] = r
                return None if s2.dead else s2
            try:
                s3 = self.iter_term(args[1], bind, body, st, node)
            finally:
                self.frames.pop()
            if s3 is not None:
                st.become(s3)
            return st.m.get(k, top('reduce'))
        return self.opaque_call(None, name, args, kw, st, node, pure=last.startswith(PURE_PREFIX) or name.startswith(('os.path.', 'math.', 'logging.', 'datetime.', 'calendar.', 'time.')) or last in ('QName', 'StringIO'))

    def cont_method(self, ref, name, args, kw, st, node):
        ob = self.obj(ref)
        k = ob.kind

        def em(nm, **q):
            return self.emit(st, 'cont', node, obj=ob, recv=ref, name=nm, **q)
        if k in ('list',):
            if name == 'append':
                em('append', value=args[0])
                return NONE
            if name == 'extend':
                self.extend(ref, args[0], st, node)
                return NONE
            if name == 'insert':
                em('insert', key=args[0], value=args[1])
                return NONE
            if name in ('sort', 'reverse'):
                em(name, key=const(True) if args or kw else None)
                return NONE
            if name == 'copy':
                r = self.alloc('list', node, st)
                self.extend(r, ref, st, node)
                return r
            if name in ('index', 'count'):
                return mk('call', ref, name, tuple(args), ())
            if name == 'pop' and not kw and (not args or args[0] is const(-1)) and ob.events and not ob.keyed and not ob.shadow:
                e = ob.events[-1]
                if e.name == 'append' and e.acts == self.cur_acts() and e.value is not None and \
                        {c for c, t in e.guards} == {c for c, t in st.pc}:
                    # takes back what was appended last in this very iteration
                    del ob.events[-1]
                    self.emit(st, 'cont', node, recv=ref, name='unappend')
                    return e.value
            if name in ('pop', 'remove', 'clear'):
                em(name, value=args[0] if args else None)
                return top('list.' + name)
            if name in ('__len__',):
                return mk('op', 'len', ref)
            if name == 'popleft':
                em('pop')
                return top('popleft')
        if k == 'set':
            if name == 'add':
                em('add', value=args[0])
                return NONE
            if name == 'update':
                for a in args:
                    self.extend(ref, a, st, node)
                return NONE
            if name in ('discard', 'remove', 'clear', 'pop'):
                em(name, value=args[0] if args else None)
                return top('set.' + name)
            return top('set.' + name)
        if k == 'dict':
            if name in ('keys', 'items', 'values'):
                return mk('dictitems', ref, name)
            if name == 'get':
                d = args[1] if len(args) > 1 else kw.get('default', NONE)
                c = self.contains(args[0], ref, st)
                if c is TRUE:
                    return self.lookup(ref, args[0], st, node)
                if c is FALSE:
                    return d
                sav = ob.default
                ob.default = None
                v = self.lookup(ref, args[0], st, node)
                ob.default = sav
                if v.op == 'ite' or v.op == 'const':
                    return subst(v, {mk('keyerror', args[0]): d})
                return ite(c, v, d)
            if name == 'setdefault':
                d = args[1] if len(args) > 1 else NONE
                c = self.contains(args[0], ref, st)
                if c is not TRUE:
                    s2 = st.fork(not_(c))
                    self.emit(s2, 'cont', node, obj=ob, recv=ref, name='store', key=args[0], value=d, via='setdefault')
                    self.note_keyed(ob, args[0], d)
                if self.is_containerish(d):
                    return d
                return self.lookup(ref, args[0], st, node)
            if name == 'update':
                for a in args:
                    self.dict_update(ref, a, st, node)
                for kn, v in kw.items():
                    self.setitem(ref, const(kn), v, st, node)
                return NONE
            if name in ('pop', 'clear', 'popitem'):
                em(name, key=args[0] if args else None)
                return top('dict.' + name)
            if name == 'copy':
                r = self.alloc('dict', node, st)
                self.dict_update(r, ref, st, node)
                return r
        return top('%s.%s' % (k, name))

    def builtin(self, name, args, kw, st, node):
        a = args
        if self.trace and name in ('len', 'isinstance', 'hasattr', 'type', 'vars', 'getattr', 'id', 'reversed', 'next'):
            self.use(st, node, name, a[0] if a else None, None, tuple(a[1:]))
        if name == 'len' and len(a) == 1:
            x = a[0]
            if x.op == 'tuple':
                return const(len(x.a))
            if x.op == 'const' and isinstance(x.a[0], (str, tuple)):
                return const(len(x.a[0]))
            if x.op == 'ref' and self.obj(x).kind == 'inst':
                return self.call_method(x, '__len__', [], {}, st, node)
            if x.op == 'dictitems':
                x = x.a[0]
            if x.op == 'ref':
                n = self.length(x, st)
                t = mk('op', 'len', strip_it(x))
                self.lenof[t] = n[0] if n is not None and self.lenof.get(t, n[0]) is n[0] else None
            return mk('op', 'len', strip_it(x))
        if name == 'range':
            if len(a) == 1:
                if a[0].op == 'op' and a[0].a[0] == 'len':
                    return mk('rangelen', a[0].a[1]) if a[0].a[1].op != 'ref' else mk('rangeref', a[0].a[1])
                return mk('range', ZERO, a[0])
            if len(a) == 2:
                if a[0] is ZERO:
                    return self.builtin('range', [a[1]], {}, st, node)
                return mk('range', a[0], a[1])
            return top('range step')
        if name == 'enumerate':
            return mk('enumerate', a[0], a[1] if len(a) > 1 else kw.get('start', ZERO))
        if name == 'zip':
            return mk('zip', *a)
        if name in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter', 'dict'):
            if name == 'dict':
                r = self.alloc('dict', node, st)
                if a:
                    self.dict_update(r, a[0], st, node)
                for kn, v in kw.items():
                    self.setitem(r, const(kn), v, st, node)
                return r
            if not a:
                return self.alloc('set' if name in ('set', 'frozenset') else 'list', node, st) if name != 'tuple' else mk('tuple')
            x = a[0]
            if name == 'iter':
                if x.op == 'it':
                    return x
                if x.op in ('ref', 'tuple'):
                    return x
                return mk('it', x, self.sitekey(node), self.cur_loops())
            if name == 'sorted' or name == 'reversed':
                if x.op == 'ref' and self.obj(x).kind in ('list', 'set', 'dict') or x.op in ('dictitems',):
                    r = self.alloc('list', node, st)
                    self.extend(r, x, st, node)
                    self.emit(st, 'cont', node, obj=self.obj(r), recv=r, name='sort' if name == 'sorted' else 'reverse', key=const(True) if len(a) > 1 or kw else None, via=node)
                    self.emit(st, 'reorder', node, recv=r, name=name, args=tuple(a), value=kw.get('key'), via=node)
                    return r
                self.emit(st, 'reorder', node, recv=x, name=name, args=tuple(a), value=kw.get('key'), via=node)
                return mk('sorted' if name == 'sorted' else 'reversed', strip_it(x))
            if name in ('set', 'frozenset'):
                r = self.alloc('set', node, st)
                self.extend(r, x, st, node)
                return r
            if x.op == 'tuple':
                if name == 'tuple':
                    return x
                r = self.alloc('list', node, st)
                for v in x.a:
                    self.emit(st, 'cont', node, obj=self.obj(r), recv=r, name='append', value=v)
                return r
            if x.op == 'it':
                pos = st.m.get(('pos', x))
                if st.m.get(('used', x)) is not None:
                    return mk('listof', mk('exhausted', strip_it(x)))
                st.m[('used', x)] = TRUE
                if pos is not None:
                    return mk('listof', mk('tail', strip_it(x), pos))
                return mk('listof', strip_it(x))
            if x.op in ('ref', 'dictitems', 'enumerate', 'zip', 'ite', 'range', 'rangelen', 'rangeref'):
                if x.op == 'ref' and self.obj(x).kind == 'inst':
                    return mk('listof', x)
                r = self.alloc('list', node, st)
                self.extend(r, x, st, node)
                return r
            return mk('listof', strip_it(x))
        if name in ('map', 'filter') and len(a) == 2:
            r = self.alloc('list', node, st)
            box = {}

            def bind(v, s2):
                box['v'] = v

            def body(s2):
                v = box['v']
                if name == 'map':
                    v = self.call(a[0], [v], {}, s2, node)
                else:
                    c = self.truth_(v, s2) if a[0] is NONE else self.truth_(self.call(a[0], [v], {}, s2, node), s2)
                    if c is FALSE:
                        return self.die('continue')
                    s2.assume(c, 'filter')
                if s2.dead:
                    return None
                self.emit(s2, 'cont', node, obj=self.obj(r), recv=r, name='append', value=v)
                return s2
            s3 = self.iter_term(a[1], bind, body, st, node)
            if s3 is not None:
                pc = st.pc
                st.become(s3)
                st.pc = pc
            return r
        if name == 'sum' and a:
            fid = self.key('sum', id(node), self.ctx)
            k = ('v', fid, 'acc')
            st.m[k] = a[1] if len(a) > 1 else ZERO
            fr = Frame(fid, self.frames[-1].fi, self.frames[-1].module, None, None)
            self.frames.append(fr)
            box = {}

            def bind(v, s2):
                box['v'] = v

            def body(s2):
                s2.m[k] = add(s2.m[k], box['v'])
                return s2
            try:
                s3 = self.iter_term(a[0], bind, body, st, node)
            finally:
                self.frames.pop()
            if s3 is not None:
                st.become(s3)
            r = st.m.pop(k, top('sum'))
            return r
        if name in ('any', 'all') and len(a) == 1:
            fid = self.key('any', id(node), self.ctx)
            k = ('v', fid, 'acc')
            st.m[k] = FALSE if name == 'any' else TRUE
            fr = Frame(fid, self.frames[-1].fi, self.frames[-1].module, None, None)
            self.frames.append(fr)
            box = {}

            def bind(v, s2):
                box['v'] = v

            def body(s2):
                t = self.truth_(box['v'], s2)
                s2.m[k] = ite(t, TRUE, s2.m[k]) if name == 'any' else ite(t, s2.m[k], FALSE)
                return s2
            try:
                s3 = self.iter_term(a[0], bind, body, st, node)
            finally:
                self.frames.pop()
            if s3 is not None:
                st.become(s3)
            return st.m.pop(k, top('any'))
        if name == 'next':
            x = a[0]
            dflt = a[1] if len(a) > 1 else None
            if x.op == 'ref':
                cs = self.contents(x, st)
                if cs is not None:
                    cs = [c for c in cs if not c.fill]
                    if len(cs) == 1:
                        c = cs[0]
                        if not c.loops and not c.guards:
                            return c.value
                        conds = tuple(g for g, t in c.guards)
                        v = self.at_first(tuple(c.loops), conds, TRUE, c.value, None, st, node)
                        if dflt is None:
                            return v
                        return ite(self.exists_(tuple(c.loops), conds, TRUE, st), v, dflt)
                return top('next')
            pos = st.m.get(('pos', x), ZERO)
            if self.oracle is not None and x.op == 'it':
                c = self.oracle.decide(oper('<', pos, mk('op', 'len', strip_it(x))))
                if c is FALSE:
                    if dflt is not None:
                        return dflt
                    v = mk('builtin', 'StopIteration')
                    self.emit(st, 'raise', node, recv=None, name='raise', args=(v,), value=v)
                    st.dead, st.why = True, 'raise'
                    return top('stop')
                if c is TRUE:
                    st.m[('pos', x)] = add(pos, const(1))
                    return index(strip_it(x), pos)
            st.m[('pos', x)] = add(pos, const(1))
            v = mk('nextv', x if x.op == 'it' else strip_it(x), pos, dflt if dflt is not None else UNDEF)
            self.emit(st, 'next', node, recv=x, name='next', args=tuple(a), result=v)
            return v
        if name == 'isinstance':
            x, c = a[0], a[1]
            cl = self.class_of(x)
            if cl is not None and c.op == 'cls':
                return TRUE if c.a[0] in self.prog.mro(cl) else FALSE
            if x.op == 'const' and c.op == 'builtin':
                return TRUE if type(x.a[0]).__name__ == c.a[0] else FALSE
            if x is NONE:
                return FALSE
            if is_str(x) and c.op == 'builtin' and c.a[0] == 'str':
                return TRUE
            return mk('isinst', x, c)
        if name == 'getattr':
            if a[1].op == 'const':
                if len(a) > 2:
                    if self.field_absent(a[0], a[1].a[0], st):
                        return a[2]
                    v = self.getattr_(a[0], a[1].a[0], st, node)
                    if v.op == 'attr':
                        return mk('getattrd', a[0], a[1].a[0], a[2])
                    return v
                return self.getattr_(a[0], a[1].a[0], st, node)
            if a[1].op == 'ite':
                return ite(a[1].a[0], self.builtin('getattr', [a[0], a[1].a[1]], {}, st, node), self.builtin('getattr', [a[0], a[1].a[2]], {}, st, node))
            return top('getattr')
        if name == 'setattr':
            if a[1].op == 'const':
                self.setattr_(a[0], a[1].a[0], a[2], st, node)
                return NONE
            self.emit(st, 'setattr', node, recv=a[0], name='?', value=a[2], args=(a[2],))
            return NONE
        if name == 'hasattr':
            if a[1].op == 'const' and a[0].op == 'ref' and a[0].a[0].kind == 'inst' and a[0].a[0].keyed is None:
                if self.field_absent(a[0], a[1].a[0], st):
                    return FALSE
                v = st.m.get(('f', a[0], a[1].a[0]))
                if v is not None and not any(x is UNDEF or x.op in ('mu', 'top') for x in subterms(v)):
                    return TRUE
            return mk('hasattr', a[0], a[1].a[0] if a[1].op == 'const' else None)
        if name in ('int', 'float', 'str', 'bool', 'abs', 'round', 'repr', 'hex'):
            if not a:
                return const({'int': 0, 'float': 0.0, 'str': '', 'bool': False}.get(name))
            x = a[0]
            if name == 'bool':
                return self.truth_(x, st)
            if name == 'str':
                if x.op == 'const' and not isinstance(x.a[0], EnumVal):
                    return const(str(x.a[0]))
                if is_str(x) or self.typed(x, 'str'):
                    return x
                return mk('str', x, 's')
            if name == 'int' and self.typed(x, 'int'):
                return x
            if name == 'int' and is_bool(x):
                return ite(x, const(1), ZERO)
            if name == 'int' and x.op == 'const':
                try:
                    return const(int(cval(x)))
                except Exception:
                    return top('int')
            if name == 'round':
                return mk('op', 'round', *a)
            if name in ('int', 'float') and x.op == 'sum':
                pass
            return mk('op', name, *a)
        if name in ('min', 'max'):
            if len(a) == 1 and set(kw) <= {'default'}:
                cs = self.concrete(a[0])
                if cs:
                    try:
                        return const((min if name == 'min' else max)(cval(x) for x in cs))
                    except TypeError:
                        pass
                elif cs is not None and 'default' in kw:
                    return kw['default']
            if all(numc(x) for x in a) and len(a) > 1:
                return const((min if name == 'min' else max)(cval(x) for x in a))
            return mk('op', name, *a)
        if name == 'type':
            c = self.class_of(a[0])
            return mk('cls', c) if c is not None else mk('op', 'type', a[0])
        if name == 'print':
            self.emit(st, 'call', node, recv=None, name='print', args=tuple(a), kw=kw, pure=False, result=NONE)
            return NONE
        if name == 'open':
            r = mk('new', 'open', self.sitekey(node), self.cur_loops())
            self.emit(st, 'call', node, recv=None, name='open', args=tuple(a), kw=kw, pure=False, result=r)
            return r
        if name == 'super':
            return top('super')
        if name == 'property':
            return top('property')
        if name == 'id':
            return mk('op', 'id', *a)
        if name in ('Exception', 'ValueError', 'KeyError', 'NotImplementedError', 'RuntimeError', 'StopIteration', 'TypeError',
                    'AttributeError', 'IndexError', 'AssertionError', 'IOError', 'OSError', 'FileNotFoundError', 'BaseException', 'SystemExit'):
            return mk('exc_obj', name, tuple(a))
        if name == 'exit' or name == 'quit':
            return self.ext_call('sys.exit', a, kw, st, node)
        if name == 'callable':
            return TRUE if a[0].op in ('func', 'closure', 'bm', 'cls') else mk('op', 'callable', *a)
        if name == 'divmod' and len(a) == 2:
            return mk('tuple', oper('//', *a), oper('%', *a))
        if name == 'pow' and len(a) == 2:
            return oper('**', *a)
        if name == 'object':
            return self.alloc('inst', node, st)
        return top('builtin ' + name)

    # ------------------------------------------------------------ entry points
    def new(self, qual, args=(), kw=None, st=None):
        """Abstractly construct an instance of a class of the program."""
        c = self.prog.cls(qual)
        if c is None:
            raise Abort('class %s not found' % qual)
        return self.enter(lambda s, n: self.instantiate(c, list(args), kw or {}, s, n), st, c.module, ('new', qual))

    def enter(self, f, st, module, tag):
        node = self.globals_.get(('entry', tag))
        if node is None:
            node = ast.parse('0').body[0].value
            self.globals_[('entry', tag)] = node
        fr = Frame(('entry', self.key('entry', tag)), None, module, None, None)
        self.frames.append(fr)
        try:
            return f(st, node)
        finally:
            self.frames.pop()

    def invoke(self, recv, name, args=(), kw=None, st=None, tag=None):
        c = self.class_of(recv)
        mod = c.module if c else None

        def f(s, n):
            m = self.getattr_(recv, name, s, n)
            return self.call(m, list(args), kw or {}, s, n)
        return self.enter(f, st, mod or next(iter(self.prog.modules.values())), ('inv', name, tag))

    def callq(self, qual, args=(), kw=None, st=None, tag=None):
        fi = self.prog.func(qual)
        if fi is None:
            raise Abort('function %s not found' % qual)
        return self.enter(lambda s, n: self.call_fn(fi, list(args), kw or {}, s, None, n), st, fi.module, ('call', qual, tag))


def can_stop(node):
    """Does the body of this loop contain a break of its own or a return?"""
    if not isinstance(node, (ast.For, ast.While)):
        return False

    def walk(ns, inner):
        for n in ns:
            if isinstance(n, ast.Return):
                return True
            if isinstance(n, ast.Break) and not inner:
                return True
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            isl = isinstance(n, (ast.For, ast.While))
            for fld in ('body', 'orelse', 'finalbody', 'handlers'):
                b = getattr(n, fld, None)
                if isinstance(b, list) and walk(b, inner or (isl and fld == 'body')):
                    return True
        return False
    return walk(node.body, False)


def s1_get(s1, st, mod, k, LKt):
    if k in mod:
        c = mod[k]
        if c is not None:
            return add(mk('idx', LKt[-1]) if len(LKt) == 1 else mk('ordinal', LKt, None), c)
        return mk('mu', LKt, k)
    return st.m.get(k)


def cnt_of(mod, k):
    return mod.get(k)


def addends(v, mu):
    """v as mu + sum of gated addends: [(guards, e)], or None."""
    if v is mu:
        return []
    if v.op == 'ite':
        c, a, b = v.a
        if mu in set(subterms(c)):
            return None
        pa, pb = addends(a, mu), addends(b, mu)
        if pa is None or pb is None:
            return None
        out = []
        for g, e in pa:
            out.append(((c,) + tuple(g), e))
        for g, e in pb:
            # unconditional addend on both sides
            hit = [i for i, (g2, e2) in enumerate(out) if e2 is e and g2 == (c,) + tuple(g)]
            if hit:
                out[hit[0]] = (tuple(g), e)
            else:
                out.append(((not_(c),) + tuple(g), e))
        return out
    if v.op == 'op' and v.a[0] == '+':
        rest = list(v.a[1:])
        inner = [x for x in rest if mu in set(subterms(x))]
        if len(inner) != 1:
            return None
        rest.remove(inner[0])
        p = addends(inner[0], mu)
        if p is None:
            return None
        return p + [((), e) for e in rest]
    return None


def latch(v, mu):
    """v = (cond ? new : mu) -> (cond, new)"""
    if v.op != 'ite':
        return None
    c, a, b = v.a
    if mu in set(subterms(c)):
        return None
    if b is mu and mu not in set(subterms(a)):
        return c, a
    if a is mu and mu not in set(subterms(b)):
        return not_(c), b
    la, lb = latch(a, mu), latch(b, mu)
    if b is mu and la:
        return and_([c, la[0]]), la[1]
    if a is mu and lb:
        return and_([not_(c), lb[0]]), lb[1]
    if la and lb and la[1] is lb[1]:
        return or_([and_([c, la[0]]), and_([not_(c), lb[0]])]), la[1]
    return None


_locals = {}


def local_names(node):
    r = _locals.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    out = set()
    if isinstance(node, ast.FunctionDef):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
        if a.vararg:
            out.add(a.vararg.arg)
        if a.kwarg:
            out.add(a.kwarg.arg)
        glob = set()

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    out.add((al.asname or al.name).split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            for c in ast.iter_child_nodes(n):
                walk(c)
        for b in node.body:
            walk(b)
        out -= glob
    elif isinstance(node, ast.Lambda):
        out = {x.arg for x in node.args.args}
    _locals[id(node)] = (node, out)
    return out


def deco_names(node):
    out = []
    for d in node.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        out.append(getattr(d, 'id', getattr(d, 'attr', '')))
    return out


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter', 'dict',
            'map', 'filter', 'sum', 'any', 'all', 'next', 'isinstance', 'getattr', 'setattr', 'hasattr', 'int', 'float',
            'str', 'bool', 'abs', 'round', 'repr', 'hex', 'min', 'max', 'type', 'print', 'open', 'super', 'property', 'id',
            'Exception', 'ValueError', 'KeyError', 'NotImplementedError', 'RuntimeError', 'StopIteration', 'TypeError',
            'AttributeError', 'IndexError', 'AssertionError', 'IOError', 'OSError', 'FileNotFoundError', 'BaseException',
            'SystemExit', 'exit', 'quit', 'callable', 'divmod', 'pow', 'object', 'bytes', 'issubclass', 'vars', 'dir',
            'classmethod', 'staticmethod', 'input', 'ord', 'chr', 'format', 'hash', 'KeyboardInterrupt', 'globals', 'locals',
            'UnicodeDecodeError', 'ZeroDivisionError', 'Warning', 'memoryview', 'bytearray', 'complex', 'slice', '__name__', '__file__'}
