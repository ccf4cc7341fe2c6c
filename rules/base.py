"""Shared parts of the checkers: obligations, verdicts, term queries."""
import ast
import os
import sys
sys.setrecursionlimit(20000)
from vflow.terms import *          # noqa
from vflow.terms import T, Loop, EnumVal
from vflow.program import Program
from vflow.engine import Interp, State, Abort

REPO = os.environ.get('PYUCIS_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program(SRC)
    return _prog


class AnchorError(Exception):
    """Something the property is anchored in is gone: the analysis cannot speak."""


class Ctx(object):
    def __init__(self, pid):
        self.pid = pid
        self.obs = []          # (verdict, rule, construct, message, where)
        self.functions = set()
        self.sites = 0
        self.steps = 0
        self.assumptions = []
        self.samples = []
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, msg='', where=''):
        self.obs.append(('ok', rule, construct, msg, where))

    def viol(self, rule, construct, msg, where=''):
        self.obs.append(('violation', rule, construct, msg, where))

    def und(self, rule, construct, msg, where=''):
        self.obs.append(('undecided', rule, construct, msg, where))

    def decide(self, rule, construct, cond, msg, where='', und=False):
        if cond:
            self.ok(rule, construct, msg if und else '', where)
        elif und:
            self.und(rule, construct, msg, where)
        else:
            self.viol(rule, construct, msg, where)
        return cond

    def absorb(self, I, strict=False):
        self.functions |= I.visited
        self.sites += sum(1 for e in I.log if e.kind in ('call', 'cont', 'setattr', 'create', 'inline'))
        self.steps += I.steps
        for (n, path, line), stack in I.unbound.items():
            self.rules.setdefault('bound', 'every name used by the operation is bound')
            self.viol('bound', '%s in %s' % (n, stack[-1] if stack else '?'), 'nothing binds the name %s: the operation fails' % n,
                      '%s:%d (%s)' % (rel(path), line, stack[-1] if stack else '?'))
        for e in I.log:
            if e.kind == 'undef' and not e.guards and not e.loops and not e.intry and e.stack and not str(e.stack[-1]).startswith('verif'):
                self.rules.setdefault('bound', 'every name used by the operation is bound')
                self.viol('bound', '%s in %s' % (e.name, e.stack[-1]), 'the variable %s has no value yet: the operation fails' % e.name, where(e))
        for e in I.log if strict else ():
            if e.kind in ('noattr', 'nullattr') and not e.guards and not e.intry and e.stack and not str(e.stack[-1]).startswith('verif'):
                self.rules.setdefault('bound', 'every name and attribute used by the operation is there')
                self.viol('bound', '%s in %s' % (e.name, e.stack[-1]), '%s has no attribute %s: the operation fails' % (show(e.recv)[:60], e.name), where(e))
        for u in I.unresolved:
            self.und('analysis', '%s' % (u[2][-1] if u[2] else '?'), '%s at %s:%s' % (u[0], u[1][0], u[1][1]))


def rel(path):
    return path[len(REPO) + 1:] if path and path.startswith(REPO + '/') else path


def where(e):
    if e is None or e.site is None:
        return ''
    return '%s:%d (%s)' % (rel(e.site[0]), e.site[1], e.stack[-1] if e.stack else '?')


# ------------------------------------------------------------- order
_parents = {}


def parents(tree):
    if id(tree) not in _parents:
        m = {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                m[c] = n
        _parents[id(tree)] = (tree, m)
    return _parents[id(tree)][1]


UNORDERED_USES = ('sum', 'any', 'all', 'min', 'max', 'len', 'set', 'frozenset', 'fsum')


def reorders(I):
    """The places that sort, reverse or prepend, and whose order can be observed."""
    for e in I.log:
        if e.kind == 'reorder' or (e.kind == 'cont' and e.name in ('sort', 'reverse')):
            if order_used(I, e):
                yield e


def order_used(I, e):
    """Can anything observe the order in which e's sorted or reversed sequence is walked?

    No: where it only feeds an order-independent reduction (a sum, a test of all its items) or an error message."""
    node = e.via
    if not isinstance(node, ast.AST) or e.site is None:
        return True
    mod = [m for m in I.prog.modules.values() if m.path == e.site[0]]
    if not mod:
        return True
    up = parents(mod[0].tree)
    n = node
    while n in up:
        p = up[n]
        if isinstance(p, ast.Raise) or isinstance(p, ast.Assert) and n is p.msg:
            return False
        if isinstance(p, ast.Call) and n in p.args and len(p.args) == 1 and getattr(p.func, 'id', getattr(p.func, 'attr', '')) in UNORDERED_USES:
            return False
        if isinstance(p, (ast.For, ast.AsyncFor)):
            return n is not p.iter or loop_order_used(I, p, e, up)
        if isinstance(p, ast.stmt):
            return True
        if isinstance(p, (ast.SetComp,)):
            return False
        n = p
    return True


def loop_order_used(I, loop, e, up):
    for x in loop.body + loop.orelse:
        for n in ast.walk(x):
            if isinstance(n, (ast.Return, ast.Break, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)):
                return True
    inside = {n for x in loop.body for n in ast.walk(x)}
    fn = loop
    while fn in up and not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        fn = up[fn]
    used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n not in inside}
    aug = {n.target for n in inside if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Mult, ast.BitOr, ast.BitAnd)) and isinstance(n.target, ast.Name)}
    for n in inside:
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in used and n not in aug:
            return True
    lo, hi = loop.body[0].lineno, max(getattr(n, 'end_lineno', 0) or 0 for n in inside)
    deep = None
    for x in I.log:
        if x.site is None:
            continue
        if deep is not None and len(x.stack or ()) <= deep:
            deep = None
        here = x.site[0] == e.site[0] and lo <= x.site[1] <= hi
        if here and x.kind == 'inline':
            deep = len(x.stack or ())
            continue
        if (here or deep is not None) and (x.kind in ('create', 'setattr', 'setglobal', 'cont', 'next', 'raise') or x.kind == 'call' and not x.pure):
            return True
    return False


# ------------------------------------------------------------- term queries
def all_domains(t):
    """Domains of every loop a term depends on, transitively."""
    out, todo = [], list(free_loops(t))
    seen = set()
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        out.append(l.domain)
        todo.extend(free_loops(l.domain))
    return out


UNKNOWN_OPS = {'top', 'lookup', 'mu', 'rec', 'undef', 'posin', 'ordinal', 'fmt', 'star', 'nextv', 'keyerror', 'fold', 'cell',
               'unbound', 'exc', 'exception', 'getattrd', 'closure', 'catfold'}


def unknown(t):
    """Sub-terms the analysis does not resolve."""
    out = []
    if t.op == 'slot':
        return out
    seen = {x for s in subterms(t) if s.op == 'slot' for x in subterms(s)}
    for x in subterms(t):
        if x.op == 'slot' or x in seen:
            continue
        if x.op == 'nextv' and shifted(x):
            continue
        if x.op in UNKNOWN_OPS:
            out.append(x)
        elif x.op == 'index' and x.a[0].op == 'ref':
            out.append(x)
        elif x.op in ('sum', 'first', 'last', 'exists', 'comp'):
            for l in x.a[0]:
                if has_top(l.domain):
                    out.append(l.domain)
    return out


def shifted(x):
    """The item k places after the current one of a loop over the same collection."""
    i = x.a[1]
    if not isinstance(i, T) or i.op != 'op' or i.a[0] != '+' or len(i.a) != 3:
        return False
    l = [y for y in i.a[1:] if y.op == 'idx']
    k = [y for y in i.a[1:] if y.op == 'const' and isinstance(cval(y), int) and cval(y) >= 1]
    return len(l) == 1 and len(k) == 1 and strip_it(l[0].a[0].domain) is strip_it(x.a[0])


def is_enum(t, *names):
    return t.op == 'const' and isinstance(t.a[0], EnumVal) and t.a[0].name in names


def enumc(prog, qual, name):
    c = prog.cls(qual)
    if c is None:
        raise AnchorError('class %s' % qual)
    m = prog.enum_members(c)
    if name not in m:
        raise AnchorError('%s.%s' % (qual, name))
    return const(prog.enum_canon(c, name))


def same_val(a, b):
    """Constants that denote the same number (an enum member and its plain value are interchangeable)."""
    if a is b:
        return True
    return a.op == 'const' and b.op == 'const' and cval(a) == cval(b) and cval(a) is not None


def call_of(t, *names):
    return t.op == 'call' and t.a[1] in names


def name_el(t):
    """x for x.getScopeName() / x.getName()"""
    if t.op == 'call' and t.a[1] in ('getScopeName', 'getName') and not t.a[2]:
        return t.a[0]
    return None


def chain(el):
    """Provenance of a loop element: (root, [(Loop, method, args)...]) outermost first, or None."""
    if el.op != 'elem':
        return None
    L = el.a[0]
    d = strip_it(L.domain)
    if d.op == 'call' and d.a[0] is not None:
        up = chain(d.a[0])
        if up is None:
            if d.a[0].op in ('sym',):
                return d.a[0], [(L, d.a[1], d.a[2])]
            return None
        return up[0], up[1] + [(L, d.a[1], d.a[2])]
    if d.op == 'sym':
        return d, [(L, '', ())]
    if d.op == 'attr':
        base = d.a[0]
        if base.op == 'elem':
            up = chain(base)
            return None if up is None else (up[0], up[1] + [(L, '.' + d.a[1], ())])
        if base.op == 'sym' or (base.op == 'new' and not base.a[2]):
            return base, [(L, '.' + d.a[1], ())]
    if d.op in ('tail', 'exhausted', 'slice', 'sorted', 'reversed'):
        x = d.a[0]
        if x.op == 'call' and x.a[0] is not None:
            up = chain(x.a[0])
            if up is not None:
                return up[0], up[1] + [(L, '%s of %s' % (d.op, x.a[1]), x.a[2])]
            if x.a[0].op == 'sym':
                return x.a[0], [(L, '%s of %s' % (d.op, x.a[1]), x.a[2])]
        if x.op == 'sym':
            return x, [(L, d.op + ' of', ())]
        if x.op == 'attr':
            base = x.a[0]
            if base.op == 'elem':
                up = chain(base)
                return None if up is None else (up[0], up[1] + [(L, '%s of .%s' % (d.op, x.a[1]), ())])
            if base.op == 'sym' or (base.op == 'new' and not base.a[2]):
                return base, [(L, '%s of .%s' % (d.op, x.a[1]), ())]
    return None


def path_of(ch):
    return tuple((m, tuple(cval(a) if a.op == 'const' else show(a) for a in args)) for L, m, args in ch[1])


def pretty_path(p):
    return '/'.join('%s(%s)' % (m, ','.join(map(str, a))) if m else '*' for m, a in p)


def conj(conds):
    return [d for c in conds for d in (c.a if c.op == 'and' else (c,))]


def eq_sides(c):
    if c.op == 'op' and c.a[0] == '==' and len(c.a) == 3:
        return c.a[1], c.a[2]
    return None


def root_of(t):
    """The analysis root (sym) a term hangs off through elements, calls and attributes; None for fresh values."""
    seen = 0
    while seen < 60:
        seen += 1
        if t.op == 'sym':
            return t
        if t.op in ('elem', 'idx'):
            t = strip_it(t.a[0].domain)
        elif t.op in ('attr', 'index', 'tail', 'exhausted', 'slice', 'sorted', 'reversed', 'it', 'listof', 'nextv', 'dictitems', 'getattrd'):
            t = t.a[0]
        elif t.op == 'call' and t.a[0] is not None:
            t = t.a[0]
        elif t.op in ('first', 'last'):
            t = t.a[3]
        elif t.op == 'ite':
            r = root_of(t.a[1])
            if r is not None:
                return r
            t = t.a[2]
        elif t.op in ('lastkey',):
            t = t.a[2]
        else:
            return None
    return None


def leaves(t):
    """Values a gated term may take."""
    if t.op == 'ite':
        return leaves(t.a[1]) + leaves(t.a[2])
    return [t]


class Conditions(set):
    """A set of conditions in which the order of alternatives does not count."""
    def add(self, c):
        set.add(self, c)
        set.add(self, _norm(c))

    def update(self, cs):
        for c in cs:
            self.add(c)

    def __contains__(self, c):
        return set.__contains__(self, c) or set.__contains__(self, _norm(c))


def _norm(c):
    return (c.op, frozenset(_norm(x) for x in c.a)) if c.op in ('or', 'and') else c


def raising(I):
    """Conditions whose violation makes the operation fail with an exception instead."""
    r = getattr(I, '_raising', None)
    if r is None:
        r = Conditions()
        for e in I.log:
            if e.kind == 'raise' and e.guards:
                gs = [c for c, t in e.guards]
                for i in range(len(gs)):
                    r.add(not_(and_(gs[i:])))
        I._raising = r
    return r
