#!/usr/bin/env python3
"""Behaviour-preserving rewrites of one site at a time, for looking for false alarms.

    python3 tools/preserve.py OUT.jsonl [-k kind,kind] file ...      (files relative to src/ucis)

Each rewrite is applied to a scratch copy of the repository's sources; the checks
that look at the file are run on it and any VIOLATION, exit 2 or UNDECIDED is listed.
No check reads this file or its output.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from multiprocessing import Pool

V = os.environ.get('VF_VERIF') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('merge', 'C01 C02 C03 C22'), ('report/coverage_report_builder', 'C04 C05 C22'), ('report/coverage_report.', 'C04 C05 C06 C07'),
       ('report/format_rpt_json', 'C07 C05'), ('report/format_rpt_text', 'C06 C05'), ('report/text', 'C06 C05'), ('xml/xml_writer', 'C08 C10 C11 C25 C22'),
       ('xml/xml_reader', 'C09 C11 C25'), ('xml/', 'C20 C24 C08 C09 C23'), ('yaml', 'C12 C24 C20 C23'), ('mem/', 'C14 C15 C16 C02 C03 C05 C25'),
       ('lib/', 'C21 C17 C23'), ('cmd', 'C19 C20 C23'), ('rgy', 'C23 C19'), ('__init__.py', 'C18 C17 C21'), ('__main__', 'C19 C23'), ('', 'C14 C15 C16 C17 C18 C02 C05 C09')]


def checks(f):
    for k, v in MAP:
        if f.startswith(k):
            return v.split()


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def has(n, *ts):
    return any(isinstance(x, ts) for b in (n if isinstance(n, list) else [n]) for x in ast.walk(b))


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        o = m.get(type(t.ops[0]))
        if o:
            return ast.Compare(t.left, [o()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def nm(i):
    return ast.Name(i, ast.Load())


def sto(i):
    return ast.Name(i, ast.Store())


def simple(x):
    return isinstance(x, (ast.Name, ast.Constant)) or isinstance(x, ast.Attribute) and simple(x.value)


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Fn(object):
    def __init__(self, node, cls, body_of):
        self.node, self.cls = node, cls


def functions(tree):
    out = []

    def go(n, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                go(c, c)
            elif isinstance(c, ast.FunctionDef):
                out.append((c, cls))
                go(c, None)
            elif isinstance(c, (ast.If, ast.Try)):
                go(c, cls)
    go(tree, None)
    return out


def blocks(fn):
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def localvars(fn):
    ps = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        ps.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        ps.add(fn.args.kwarg.arg)
    gl = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    ls = names(fn, (ast.Store, ast.Del)) - gl
    ls |= {h.name for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler) and h.name}
    imp = {(a.asname or a.name).split('.')[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    return ps, ls, imp


def helperable(stmts, fn):
    """(inputs) when the statements can become a procedure of their own: no control leaves, nothing they bind is used elsewhere."""
    if has(stmts, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda):
        pass
    if has(stmts, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.FunctionDef):
        return None
    for s in stmts:                                   # break and continue of a loop inside are fine
        for n in walk_noloop(s):
            if isinstance(n, (ast.Break, ast.Continue)):
                return None
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' for n in ast.walk(s)):
            return None
    ps, ls, imp = localvars(fn)
    w = set()
    for s in stmts:
        w |= names(s, (ast.Store, ast.Del))
        w |= {h.name for h in ast.walk(s) if isinstance(h, ast.ExceptHandler) and h.name}
        if has(s, ast.Import, ast.ImportFrom):
            return None
    inside = {id(x) for s in stmts for x in ast.walk(s)}
    other = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inside}
    compv = set()
    for s in stmts:
        for c in ast.walk(s):
            if isinstance(c, ast.comprehension):
                compv |= names(c.target)
            if isinstance(c, ast.Lambda):
                compv |= {a.arg for a in c.args.args}
    if (w - compv) & other or (w & ps):
        return None
    # everything bound must be bound before it is read: first mention is a store, at the top level of the statements
    seen = set()
    for s in stmts:
        rd = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        if isinstance(s, ast.Assign) and (names(s.value) & (w - compv)) - seen:
            return None
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            return None
        if isinstance(s, ast.Assign):
            seen |= names(s, ast.Store)
        elif isinstance(s, ast.For):
            seen |= names(s.target, ast.Store)
    rd = set()
    for s in stmts:
        rd |= names(s, ast.Load)
    return sorted((rd - w) & (ps | ls)), sorted((rd - w) & imp)


def walk_noloop(s):
    if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
        return
    yield s
    for c in ast.iter_child_nodes(s):
        for x in walk_noloop(c):
            yield x


def rewrites(src, kinds=None):
    """(kind, line, description, new source) of every rewrite."""
    base = ast.parse(src)
    nf = len(functions(base))
    out = []

    def emit(kind, line, desc, tree):
        if kinds and kind not in kinds:
            return
        ast.fix_missing_locations(tree)
        try:
            t = ast.unparse(tree) + '\n'
            compile(t, 'x', 'exec')
        except Exception:
            return
        out.append((kind, line, desc[:70], t))

    for fi in range(nf):
        def fresh():
            t = copy.deepcopy(base)
            fn, cls = functions(t)[fi]
            return t, fn, cls
        t0, f0, c0 = fresh()
        gen = has(f0.body, ast.Yield, ast.YieldFrom)
        ps, ls, imp = localvars(f0)
        # locals renamed
        if ls - ps and not has(f0.body, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal):
            t, fn, cls = fresh()
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n.id in ls - ps - imp:
                    n.id += '_'
                if isinstance(n, ast.ExceptHandler) and n.name in ls - ps:
                    n.name += '_'
            emit('rename', f0.lineno, f0.name, t)
        nb = len(list(blocks(f0)))
        for bi in range(nb):
            own, b0 = list(blocks(f0))[bi]

            def fr():
                t, fn, cls = fresh()
                own, b = list(blocks(fn))[bi]
                return t, fn, cls, own, b
            for si in range(len(b0)):
                s = b0[si]
                ln = s.lineno
                d = ast.unparse(s).split('\n')[0]
                if isinstance(s, ast.If):
                    if s.orelse:
                        t, fn, cls, own, b = fr()
                        x = b[si]
                        x.test, x.body, x.orelse = neg(x.test), x.orelse, x.body
                        emit('ifswap', ln, d, t)
                        if ends(s.body) and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
                            t, fn, cls, own, b = fr()
                            b[si + 1:si + 1] = b[si].orelse
                            b[si].orelse = []
                            emit('noelse', ln, d, t)
                    elif ends(s.body) and si + 1 < len(b0):
                        t, fn, cls, own, b = fr()
                        b[si].orelse = b[si + 1:]
                        del b[si + 1:]
                        emit('addelse', ln, d, t)
                    if not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                        t, fn, cls, own, b = fr()
                        x = b[si]
                        b[si] = ast.If(x.test.values[0], [ast.If(x.test.values[1] if len(x.test.values) == 2 else ast.BoolOp(ast.And(), x.test.values[1:]), x.body, [])], [])
                        emit('andsplit', ln, d, t)
                    if not s.orelse and si == len(b0) - 1 and not gen and not ends(s.body):
                        if own is f0 and f0.name != '__init__' or own is f0:
                            t, fn, cls, own2, b = fr()
                            x = b[si]
                            b[si:] = [ast.If(neg(x.test), [ast.Return(None)], [])] + x.body
                            emit('guard', ln, d, t)
                        elif isinstance(own, (ast.For, ast.While)) and b0 is own.body:
                            t, fn, cls, own2, b = fr()
                            x = b[si]
                            b[si:] = [ast.If(neg(x.test), [ast.Continue()], [])] + x.body
                            emit('guard', ln, d, t)
                    if len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(q[0], ast.Assign) and len(q[0].targets) == 1 for q in (s.body, s.orelse)) and \
                            ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and simple(s.body[0].targets[0]):
                        t, fn, cls, own, b = fr()
                        x = b[si]
                        b[si] = ast.Assign([x.body[0].targets[0]], ast.IfExp(x.test, x.body[0].value, x.orelse[0].value), None)
                        emit('ifexp', ln, d, t)
                    t, fn, cls, own, b = fr()
                    b.insert(si, ast.Assign([sto('cond_v')], b[si].test))
                    b[si + 1].test = nm('cond_v')
                    emit('condvar', ln, d, t)
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                    t, fn, cls, own, b = fr()
                    x = b[si]
                    b[si] = ast.If(x.value.test, [ast.Assign(x.targets, x.value.body)], [ast.Assign(copy.deepcopy(x.targets), x.value.orelse)])
                    emit('ifstmt', ln, d, t)
                if isinstance(s, ast.AugAssign) and simple(s.target) and not isinstance(s.value, (ast.List, ast.ListComp)):
                    t, fn, cls, own, b = fr()
                    x = b[si]
                    l = copy.deepcopy(x.target)
                    l.ctx = ast.Load()
                    b[si] = ast.Assign([x.target], ast.BinOp(l, x.op, x.value))
                    emit('augexp', ln, d, t)
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    t, fn, cls, own, b = fr()
                    x = b[si]
                    b[si:si + 1] = [ast.Assign([sto('result_v')], x.value), ast.Return(nm('result_v'))]
                    emit('rettemp', ln, d, t)
                if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and simple(s.value.func) and \
                        not has(s.value, ast.Starred) and any(not simple(a) for a in s.value.args) and \
                        not (isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == 'logging'):
                    t, fn, cls, own, b = fr()
                    x = b[si]
                    pre = []
                    for i, a in enumerate(x.value.args):
                        if not simple(a):
                            pre.append(ast.Assign([sto('arg%d_v' % i)], a))
                            x.value.args[i] = nm('arg%d_v' % i)
                    b[si:si] = pre
                    emit('argtemp', ln, d, t)
                if isinstance(s, ast.For) and not s.orelse:
                    it = s.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 and \
                            isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                        i = s.target.elts[0].id
                        used = any(isinstance(x, ast.Name) and x.id == i for q in s.body for x in ast.walk(q))
                        if not any(isinstance(n, ast.Continue) for q in s.body for n in walk_noloop(q)):
                            t, fn, cls, own, b = fr()
                            x = b[si]
                            f = ast.For(x.target.elts[1], x.iter.args[0], x.body + [ast.AugAssign(sto(i), ast.Add(), ast.Constant(1))], [])
                            b[si:si + 1] = [ast.Assign([sto(i)], ast.Constant(0)), f]
                            emit('counter', ln, d, t)
                        t, fn, cls, own, b = fr()
                        x = b[si]
                        f = ast.For(x.target.elts[0], ast.Call(nm('range'), [ast.Call(nm('len'), [nm('seq_v')], [])], []),
                                    [ast.Assign([x.target.elts[1]], ast.Subscript(nm('seq_v'), nm(i), ast.Load()))] + x.body, [])
                        b[si:si + 1] = [ast.Assign([sto('seq_v')], ast.Call(nm('list'), [x.iter.args[0]], [])), f]
                        emit('range', ln, d, t)
                        if not used:
                            t, fn, cls, own, b = fr()
                            x = b[si]
                            b[si] = ast.For(x.target.elts[1], x.iter.args[0], x.body, [])
                            emit('noenum', ln, d, t)
                    t, fn, cls, own, b = fr()
                    x = b[si]
                    b[si:si + 1] = [ast.Assign([sto('it_v%d' % bi)], ast.Call(nm('iter'), [x.iter], [])),
                                    ast.While(ast.Constant(True), [ast.Try([ast.Assign([x.target], ast.Call(nm('next'), [nm('it_v%d' % bi)], []))],
                                              [ast.ExceptHandler(nm('StopIteration'), None, [ast.Break()])], [], [])] + x.body, [])]
                    emit('while', ln, d, t)
                    t, fn, cls, own, b = fr()
                    x = b[si]
                    b[si:si] = [ast.Assign([sto('items_v')], ast.Call(nm('list'), [x.iter], []))]
                    x.iter = nm('items_v')
                    emit('aslist', ln, d, t)
                    if isinstance(s.target, ast.Name):
                        h = helperable(s.body, f0)
                        # the loop variable may not be used outside
                    else:
                        h = helperable(s.body, f0)
                    if h is not None and not h[1]:
                        t, fn, cls, own, b = fr()
                        x = b[si]
                        b[si:si] = [ast.FunctionDef('each_v', ast.arguments([], [ast.arg(v) for v in h[0]], None, [], [], None, []), x.body, [], None)]
                        x.body = [ast.Expr(ast.Call(nm('each_v'), [nm(v) for v in h[0]], []))]
                        emit('loopclosure', ln, d, t)
                        selfn = f0.args.args[0].arg if c0 is not None and f0.args.args and not f0.decorator_list else None
                        if selfn:
                            t, fn, cls, own, b = fr()
                            x = b[si]
                            vs = [v for v in h[0] if v != selfn]
                            cls.body.append(ast.FunctionDef('_each_v', ast.arguments([], [ast.arg(selfn)] + [ast.arg(v) for v in vs], None, [], [], None, []), x.body, [], None))
                            x.body = [ast.Expr(ast.Call(ast.Attribute(nm(selfn), '_each_v', ast.Load()), [nm(v) for v in vs], []))]
                            emit('loopmethod', ln, d, t)
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                    t, fn, cls, own, b = fr()
                    x = b[si]
                    g = x.value.generators[0]
                    body = [ast.Expr(ast.Call(ast.Attribute(nm('acc_v'), 'append', ast.Load()), [x.value.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    for q in ast.walk(ast.Module(body, [])):
                        pass
                    b[si:si + 1] = [ast.Assign([sto('acc_v')], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), ast.Assign(x.targets, nm('acc_v'))]
                    emit('unroll', ln, d, t)
                # two independent neighbouring assignments exchanged
                if si + 1 < len(b0) and isinstance(s, ast.Assign) and isinstance(b0[si + 1], ast.Assign):
                    u = b0[si + 1]
                    ok = all(len(q.targets) == 1 and simple(q.targets[0]) and (simple(q.value) or isinstance(q.value, (ast.List, ast.Dict)) and not has(q.value, ast.Name)) for q in (s, u))
                    if ok and not (ast.unparse(s.targets[0]) in ast.unparse(u) or ast.unparse(u.targets[0]) in ast.unparse(s)):
                        t, fn, cls, own, b = fr()
                        b[si], b[si + 1] = b[si + 1], b[si]
                        emit('swap', ln, d, t)
                # x = E; if ... x ...    ->  if ... (x := E) ...
                if si + 1 < len(b0) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(b0[si + 1], ast.If):
                    nl = [q for q in ast.walk(b0[si + 1].test) if isinstance(q, ast.Name) and q.id == s.targets[0].id]
                    tst = b0[si + 1].test
                    if nl and isinstance(tst, ast.Compare) and tst.left is nl[0] and not has(tst, ast.Lambda, ast.ListComp, ast.GeneratorExp):
                        t, fn, cls, own, b = fr()
                        b[si + 1].test.left = ast.NamedExpr(sto(s.targets[0].id), b[si].value)
                        del b[si]
                        emit('walrus', ln, d, t)
                # iteration moved into a generator
                if isinstance(s, ast.For) and not has(s.iter, ast.Lambda, ast.ListComp, ast.GeneratorExp) and not (names(s.iter) & imp) and not any(isinstance(q, ast.Name) and q.id == 'super' for q in ast.walk(s.iter)):
                    vs = sorted(names(s.iter, ast.Load) & (ps | ls))
                    t, fn, cls, own, b = fr()
                    x = b[si]
                    fd = ast.FunctionDef('items_of', ast.arguments([], [ast.arg(v) for v in vs], None, [], [], None, []),
                                         [ast.For(sto('item_v'), x.iter, [ast.Expr(ast.Yield(nm('item_v')))], [])], [], None)
                    x.iter = ast.Call(nm('items_of'), [nm(v) for v in vs], [])
                    t.body.insert(next(z for z, q in enumerate(t.body) if any(y is fn for y in ast.walk(q))), fd)
                    emit('geniter', ln, d, t)
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and simple(s.value.func) and s.value.args and not s.value.keywords and not has(s, ast.Starred):
                    t, fn, cls, own, b = fr()
                    b[si:si + 1] = [ast.Assign([sto('fn_v')], b[si].value.func), ast.Expr(ast.Call(nm('fn_v'), b[si].value.args, []))]
                    emit('methalias', ln, d, t)
                if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and len(s.value.args) >= 2 and not s.value.keywords and not has(s, ast.Starred):
                    t, fn, cls, own, b = fr()
                    c = b[si].value
                    b[si:si] = [ast.Assign([sto('args_v')], ast.Tuple(c.args, ast.Load()))]
                    c.args = [ast.Starred(nm('args_v'), ast.Load())]
                    emit('star', ln, d, t)
                # one or two statements as a helper that hands back what they bind
                for cnt in (1, 2, 3):
                    run_ = b0[si:si + cnt]
                    if len(run_) < cnt or gen or cnt == 1 and not isinstance(s, (ast.If, ast.For, ast.Assign)) or has(run_, ast.Return, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Import, ast.ImportFrom):
                        continue
                    if any(isinstance(q, (ast.Break, ast.Continue)) for z in run_ for q in walk_noloop(z)) or any(isinstance(q, ast.Name) and q.id == 'super' for z in run_ for q in ast.walk(z)):
                        continue
                    inside = {id(x) for z in run_ for x in ast.walk(z)}
                    hn = {h.name for z in run_ for h in ast.walk(z) if isinstance(h, ast.ExceptHandler)}
                    cv = {v for z in run_ for c in ast.walk(z) if isinstance(c, ast.comprehension) for v in names(c.target)}
                    st_ = {v for z in run_ for v in names(z, (ast.Store, ast.Del))} - cv
                    other = {x.id for x in ast.walk(f0) if isinstance(x, ast.Name) and id(x) not in inside}
                    outs = sorted(st_ & other)
                    rd = {v for z in run_ for v in names(z, ast.Load)} - cv
                    cert = set()                       # bound by a plain assignment in the run
                    first = {}
                    okk = not (hn & other)
                    for z in run_:
                        if isinstance(z, ast.Assign):
                            for v in names(z, ast.Load):
                                first.setdefault(v, 'r')
                            for v in names(z, ast.Store):
                                first.setdefault(v, 'w')
                                cert.add(v)
                        else:
                            for v in names(z):
                                first.setdefault(v, 'r')
                    bound = set(ps)                    # bound for certain before the run
                    chain_ = []
                    for o_, bb in blocks(f0):
                        at_ = [z for z, q in enumerate(bb) if any(x is s for x in ast.walk(q))]
                        if at_:
                            chain_ += bb[:at_[0]]
                    for q in chain_ + b0[:si]:
                        if isinstance(q, (ast.Assign, ast.AnnAssign)) and getattr(q, 'value', None) is not None:
                            bound |= names(q, ast.Store)
                        if isinstance(q, ast.With):
                            bound |= {v for i in q.items if i.optional_vars is not None for v in names(i.optional_vars)}
                    for q in ast.walk(f0):
                        if isinstance(q, ast.For) and q is not s and any(x is s for x in ast.walk(q)) and not any(x is s for o_ in q.orelse for x in ast.walk(o_)):
                            bound |= names(q.target)
                    ins = sorted(v for v in (rd | set(outs)) & (ps | ls) if first.get(v) != 'w' and v in bound)
                    if {v for v in outs if v not in cert and v not in bound}:
                        continue
                    if not okk or (rd & imp) or {v for v in rd & ls if first.get(v) == 'r' and v not in bound and v not in st_}:
                        continue
                    if len(outs) > 2:
                        continue
                    meth = c0 is not None and f0.args.args and not f0.decorator_list and f0.args.args[0].arg == 'self'
                    if c0 is not None and not meth:
                        continue
                    t, fn, cls, own2, b = fr()
                    body_ = b[si:si + cnt]
                    vs = [v for v in ins if v != 'self' or not meth]
                    if outs:
                        body_ = body_ + [ast.Return(nm(outs[0]) if len(outs) == 1 else ast.Tuple([nm(v) for v in outs], ast.Load()))]
                    fd = ast.FunctionDef('_part_v', ast.arguments([], ([ast.arg('self')] if meth else []) + [ast.arg(v) for v in vs], None, [], [], None, []), body_, [], None)
                    call = ast.Call(ast.Attribute(nm('self'), '_part_v', ast.Load()) if meth else nm('_part_v'), [nm(v) for v in vs], [])
                    if outs:
                        new_ = ast.Assign([sto(outs[0]) if len(outs) == 1 else ast.Tuple([sto(v) for v in outs], ast.Store())], call)
                    else:
                        new_ = ast.Expr(call)
                    b[si:si + cnt] = [new_]
                    (cls.body if meth else t.body).append(fd)
                    if not meth:
                        t.body.pop()
                        t.body.insert(next(z for z, q in enumerate(t.body) if any(x is fn for x in ast.walk(q))), fd)
                    emit('extract%d' % cnt, ln, d, t)
                # a loop that only appends, as a comprehension
                if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1:
                    q = s.body[0]
                    cond = None
                    if isinstance(q, ast.If) and not q.orelse and len(q.body) == 1:
                        cond, q = q.test, q.body[0]
                    if isinstance(q, ast.Expr) and isinstance(q.value, ast.Call) and isinstance(q.value.func, ast.Attribute) and q.value.func.attr == 'append' and simple(q.value.func.value) and \
                            ast.unparse(q.value.func.value) not in ast.unparse(s.iter):
                        t, fn, cls, own, b = fr()
                        x = b[si]
                        y = x.body[0]
                        cs = []
                        if isinstance(y, ast.If):
                            cs, y = [y.test], y.body[0]
                        b[si] = ast.Expr(ast.Call(ast.Attribute(y.value.func.value, 'extend', ast.Load()), [ast.ListComp(y.value.args[0], [ast.comprehension(x.target, x.iter, cs, 0)])], []))
                        emit('tocomp', ln, d, t)
                # if k not in d: d[k] = v    ->  d.setdefault(k, v)
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.test, ast.Compare) and isinstance(s.test.ops[0], ast.NotIn) and isinstance(s.body[0], ast.Assign):
                    y = s.body[0]
                    if isinstance(y.targets[0], ast.Subscript):
                        dd = s.test.comparators[0]
                        dd = dd.func.value if isinstance(dd, ast.Call) and isinstance(dd.func, ast.Attribute) and dd.func.attr == 'keys' else dd
                        if ast.dump(dd) == ast.dump(y.targets[0].value) and ast.dump(s.test.left) == ast.dump(y.targets[0].slice):
                            t, fn, cls, own, b = fr()
                            b[si] = ast.Expr(ast.Call(ast.Attribute(dd, 'setdefault', ast.Load()), [s.test.left, y.value], []))
                            emit('setdefault', ln, d, t)
                # the rest of the block as a method of its own
                if c0 is not None and f0.args.args and not f0.decorator_list and own is f0 and 0 < si < len(b0) - 1 and not gen:
                    selfn = f0.args.args[0].arg
                    rest = b0[si:]
                    if not has(rest, ast.Global, ast.Nonlocal, ast.FunctionDef) and not any(isinstance(n, ast.Name) and n.id == 'super' for q in rest for n in ast.walk(q)):
                        rd = set()
                        for q in rest:
                            rd |= names(q, ast.Load)
                        before = set(ps)
                        for q in b0[:si]:
                            before |= names(q, ast.Store)
                        bi2 = {(a.asname or a.name).split('.')[0] for q in b0[:si] for n in ast.walk(q) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
                        if not (rd & bi2):
                            # variables certainly bound
                            cert = set(ps)
                            for q in b0[:si]:
                                if isinstance(q, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                                    cert |= names(q, ast.Store)
                            cv = {v for q in rest for c in ast.walk(q) if isinstance(c, ast.comprehension) for v in names(c.target)}
                            need = (rd & before) - (cv - cert)
                            if need <= cert:
                                vs = sorted(need - {selfn})
                                t, fn, cls, own2, b = fr()
                                cls.body.append(ast.FunctionDef('_rest_v', ast.arguments([], [ast.arg(selfn)] + [ast.arg(v) for v in vs], None, [], [], None, []), b[si:], [], None))
                                call = ast.Call(ast.Attribute(nm(selfn), '_rest_v', ast.Load()), [nm(v) for v in vs], [])
                                b[si:] = [ast.Return(call) if has(rest, ast.Return) else ast.Expr(call)]
                                emit('rest', ln, d, t)
        # expressions
        ne = sum(1 for _ in ast.walk(f0))
        nodes = list(ast.walk(f0))
        for k, n in enumerate(nodes):
            def ex(fnc, kind, n=n, k=k):
                t, fn, cls = fresh()
                m = list(ast.walk(fn))[k]
                for p in ast.walk(fn):
                    for f, v in ast.iter_fields(p):
                        if v is m:
                            setattr(p, f, fnc(m))
                        elif isinstance(v, list) and any(q is m for q in v):
                            v[[q is m for q in v].index(True)] = fnc(m)
                emit(kind, n.lineno, ast.unparse(n), t)
            if isinstance(n, (ast.BoolOp, ast.BinOp, ast.IfExp, ast.Compare, ast.Call)) and not has(n, ast.Lambda, ast.Yield, ast.NamedExpr) and (not isinstance(n, ast.Call) or isinstance(n.func, ast.Attribute) and len(n.args) >= 1) and \
                    not any(isinstance(q, ast.Name) and q.id == 'super' for q in ast.walk(n)):
                cvs = {v for c in ast.walk(n) if isinstance(c, ast.comprehension) for v in names(c.target)}
                allc = {v for c in ast.walk(f0) if isinstance(c, ast.comprehension) for v in names(c.target)}
                lam = {a.arg for c in ast.walk(f0) if isinstance(c, ast.Lambda) for a in c.args.args}
                vs = sorted((names(n, ast.Load) & (ps | ls | allc | imp | lam)) - cvs)
                inarg = any(n in ast.walk(q) for q in f0.args.defaults + f0.decorator_list + [a.annotation for a in f0.args.args if a.annotation is not None] + ([f0.returns] if f0.returns is not None else []))
                if not inarg and not any(isinstance(q, ast.FunctionDef) for z in f0.body for q in ast.walk(z)) and not (imp & set(vs)):
                    t, fn, cls = fresh()
                    m = list(ast.walk(fn))[k]
                    for p in ast.walk(fn):
                        for f, v in ast.iter_fields(p):
                            new = ast.Call(nm('value_v'), [nm(z) for z in vs], [])
                            if v is m:
                                setattr(p, f, new)
                            elif isinstance(v, list) and any(q is m for q in v):
                                v[[q is m for q in v].index(True)] = new
                    fd = ast.FunctionDef('value_v', ast.arguments([], [ast.arg(z) for z in vs], None, [], [], None, []), [ast.Return(m)], [], None)
                    t.body.insert(next(z for z, q in enumerate(t.body) if any(x is fn for x in ast.walk(q))), fd)
                    emit('exprfn', n.lineno, ast.unparse(n), t)
            if isinstance(n, ast.Constant) and isinstance(n.value, (str, int)) and not isinstance(n.value, bool) and k and n.value != '':
                par_ = [p for p in nodes for z in ast.iter_child_nodes(p) if z is n]
                if par_ and not isinstance(par_[0], (ast.JoinedStr, ast.Expr, ast.FormattedValue, ast.arg)):
                    t, fn, cls = fresh()
                    m = list(ast.walk(fn))[k]
                    for p in ast.walk(fn):
                        for f, v in ast.iter_fields(p):
                            if v is m:
                                setattr(p, f, nm('LITERAL_V'))
                            elif isinstance(v, list) and any(q is m for q in v):
                                v[[q is m for q in v].index(True)] = nm('LITERAL_V')
                    t.body.insert(next(z for z, q in enumerate(t.body) if any(x is fn for x in ast.walk(q))), ast.Assign([sto('LITERAL_V')], ast.Constant(n.value)))
                    emit('literal', n.lineno, ast.unparse(n), t)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                if isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                    ex(lambda m: ast.Compare(m.comparators[0], m.ops, [m.left]), 'eqflip')
                if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    fl = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
                    ex(lambda m: ast.Compare(m.comparators[0], [fl[type(m.ops[0])]()], [m.left]), 'ltflip')
                if isinstance(n.ops[0], ast.NotIn):
                    ex(lambda m: ast.UnaryOp(ast.Not(), ast.Compare(m.left, [ast.In()], m.comparators)), 'notin')
                c = n.comparators[0]
                if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys':
                    ex(lambda m: ast.Compare(m.left, m.ops, [m.comparators[0].func.value]), 'inkeys')
                if isinstance(n.ops[0], (ast.In,)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys':
                    ex(lambda m: ast.Compare(ast.Call(ast.Attribute(m.comparators[0].func.value, 'get', ast.Load()), [m.left], []), [ast.IsNot()], [ast.Constant(None)]), 'getnone')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'list' and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and \
                    isinstance(n.args[0].func, ast.Name) and n.args[0].func.id == 'filter' and isinstance(n.args[0].args[0], ast.Lambda):
                ex(lambda m: ast.ListComp(nm(m.args[0].args[0].args.args[0].arg), [ast.comprehension(sto(m.args[0].args[0].args.args[0].arg), m.args[0].args[1], [m.args[0].args[0].body], 0)]), 'filter')
            if isinstance(n, ast.List) and not n.elts and isinstance(n.ctx, ast.Load):
                ex(lambda m: ast.Call(nm('list'), [], []), 'listcall')
            if isinstance(n, ast.Dict) and not n.keys:
                ex(lambda m: ast.Call(nm('dict'), [], []), 'dictcall')
            if isinstance(n, ast.IfExp):
                ex(lambda m: ast.IfExp(neg(m.test), m.orelse, m.body), 'ifexpswap')
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and \
                    n.left.value.count('%') == n.left.value.count('%s') and n.left.value.count('%s') == (len(n.right.elts) if isinstance(n.right, ast.Tuple) else 1) and \
                    '{' not in n.left.value:
                ex(lambda m: ast.Call(ast.Attribute(ast.Constant(m.left.value.replace('%s', '{}')), 'format', ast.Load()), m.right.elts if isinstance(m.right, ast.Tuple) else [m.right], []), 'format')

                def fs(m):
                    ps_ = m.left.value.split('%s')
                    vs = m.right.elts if isinstance(m.right, ast.Tuple) else [m.right]
                    o = [ast.Constant(ps_[0])]
                    for a, v in zip(ps_[1:], vs):
                        o += [ast.FormattedValue(v, -1, None), ast.Constant(a)]
                    return ast.JoinedStr([x for x in o if not (isinstance(x, ast.Constant) and x.value == '')])
                ex(fs, 'fstring')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and simple(n.func.value) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and c0 is not None and n.args and not n.keywords:
                g = [q for q in c0.body if isinstance(q, ast.FunctionDef) and q.name == n.func.attr and not q.decorator_list and not q.args.vararg]
                if g and len(n.args) <= len(g[0].args.args) - 1 and not has(n, ast.Starred):
                    an = [a.arg for a in g[0].args.args[1:]]
                    ex(lambda m: ast.Call(m.func, [], [ast.keyword(a, v) for a, v in zip(an, m.args)]), 'kwargs')
            if isinstance(n, ast.BoolOp) and len(n.values) == 2:
                ex(lambda m: ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(m.op, ast.And) else ast.And(), [neg(v) for v in m.values])), 'demorgan') if False else None
    return out


def setup():
    global R
    R = tempfile.mkdtemp(prefix='w.', dir=os.environ.get('VF_SCRATCH', '/tmp'))
    shutil.copytree('/repo/src', R + '/src')
    shutil.copytree('/repo/ve', R + '/ve')


def run(c):
    x = subprocess.run([sys.executable, V + '/check.py', c], capture_output=True, text=True, env=dict(os.environ, PYUCIS_REPO=R, VF_EVID=R + '/ev'))
    return x.returncode, x.stdout


def one(job):
    f, (kind, ln, desc, src) = job
    p = R + '/src/ucis/' + f
    orig = open(p).read()
    try:
        open(p, 'w').write(src)
        res = []
        for c in checks(f):
            r, o = run(c)
            bad = [l for l in o.split('\n') if l.startswith('UNDECIDED')]
            if r == 1:
                res.append((c, 'ALARM', [l for l in o.split('\n') if l.startswith('  ')][:2]))
            elif r:
                res.append((c, 'BROKEN', o.split('\n')[:2]))
            elif bad:
                res.append((c, 'UNDECIDED', bad[:1]))
        tests = None
        if any(r[1] != 'UNDECIDED' for r in res):
            env = dict(os.environ, PYTHONPATH=R + '/src', PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
            x = subprocess.run('cd %s/ve/unit; timeout 60 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors 2>&1 | tail -1' % R, shell=True, capture_output=True, text=True, env=env)
            tests = x.stdout.strip()
        return f, kind, ln, desc, res, tests
    finally:
        open(p, 'w').write(orig)


def show(path):
    import collections
    n = collections.Counter()
    for l in open(path):
        f, kind, ln, desc, res, tests = json.loads(l)
        n['total'] += 1
        for c, v, ls in res:
            n[v] += 1
            print('%-9s %s %s:%d %s | %s | %s | %s' % (v, kind, f, ln, desc, c, (ls[0] if ls else '')[:170], tests or ''))
    print(dict(n))


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'show':
        show(a[1])
        sys.exit()
    outp = a.pop(0)
    ks = None
    if a[0] == '-k':
        ks = set(a[1].split(','))
        a = a[2:]
    jobs = [(f, r) for f in a for r in rewrites(open('/repo/src/ucis/' + f).read(), ks)]
    print(len(jobs), 'rewrites')
    with Pool(int(os.environ.get('VF_JOBS', '7')), setup) as P, open(outp, 'w') as o:
        for r in P.imap_unordered(one, jobs, chunksize=2):
            o.write(json.dumps(r) + '\n')
            o.flush()
