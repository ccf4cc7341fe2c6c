"""Loops written by hand, read as the for loops they are.

The rewrites are exact: each applies only where the hand-written loop visits the same
elements in the same order and nothing else depends on how it was driven.

    it = iter(E); while True: try: x = next(it) / except StopIteration: break ...   ->  for x in it
    i = c; for x in E: ...; i += 1                                                  ->  for i, x in enumerate(E, c)
    i = c; while i < len(S): ...; i += 1                                            ->  for i in range(c, len(S))
    for i in range(len(S)): x = S[i]; ...           (S a list made in the function) ->  for i, x in enumerate(S)
    if c: raise E / else: B                                                         ->  if c: raise E, then B
"""
import ast

LISTS = (ast.List, ast.ListComp)
MUTATORS = {'append', 'insert', 'pop', 'remove', 'extend', 'clear', 'sort', 'reverse', 'popleft', 'appendleft'}


def _mentions(n, name):
    return sum(1 for b in (n if isinstance(n, list) else [n]) for x in ast.walk(b)
               if isinstance(x, ast.Name) and x.id == name or isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names or
               isinstance(x, ast.ExceptHandler) and x.name == name)


def _stores(n, name):
    return [x for b in (n if isinstance(n, list) else [n]) for x in ast.walk(b)
            if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load)]


def _own(stmts, kinds):
    """Statements of the given kinds that belong to this loop, not to one inside."""
    for s in stmts:
        if isinstance(s, kinds):
            yield s
        if isinstance(s, (ast.For, ast.While)):
            for x in _own(s.orelse, kinds):
                yield x
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            for x in _own(getattr(s, f, None) or [], kinds):
                yield x
        for h in getattr(s, 'handlers', None) or []:
            for x in _own(h.body, kinds):
                yield x


def _simple(x):
    return isinstance(x, ast.Name) or isinstance(x, ast.Attribute) and _simple(x.value)


def _call(x, name, n):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == name and len(x.args) == n and not x.keywords and \
        not any(isinstance(a, ast.Starred) for a in x.args)


def _at(n, like):
    for x in ast.walk(n):
        if not hasattr(x, 'lineno') and 'lineno' in x._attributes:
            ast.copy_location(x, like)
    return n


def _load(name, like):
    return ast.copy_location(ast.Name(name, ast.Load()), like)


def _store(name, like):
    return ast.copy_location(ast.Name(name, ast.Store()), like)


class Normal(object):
    def __init__(self, fn):
        self.fn = fn
        self.taken = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)}
        self.shadow = {a.arg for a in fn.args.args} | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        self.block(fn.body)

    def builtin(self, *names):
        return not any(n in self.shadow for n in names)

    def block(self, b):
        k = 0
        while k < len(b):
            s = b[k]
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                k += 1
                continue
            for f in ('body', 'orelse', 'finalbody'):
                x = getattr(s, f, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                    self.block(x)
            for h in getattr(s, 'handlers', None) or []:
                self.block(h.body)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], ast.Raise):
                b[k + 1:k + 1] = s.orelse
                s.orelse = []
            elif isinstance(s, ast.If) and s.orelse and isinstance(s.orelse[-1], ast.Raise):
                b[k + 1:k + 1] = s.body
                s.test = ast.copy_location(ast.UnaryOp(ast.Not(), s.test), s.test)
                s.body, s.orelse = s.orelse, []
            if isinstance(s, ast.While):
                self.while_next(b, k)
            if isinstance(b[k], ast.While):
                self.while_len(b, k)
            if isinstance(b[k], ast.For):
                self.counter(b, k)
            if isinstance(b[k], ast.For):
                self.range_len(b, k)
            k += 1

    # --------------------------------------------------- while True: next()
    def while_next(self, b, k):
        w = b[k]
        if not (isinstance(w.test, ast.Constant) and w.test.value and w.body and isinstance(w.body[0], ast.Try)) or not self.builtin('next', 'iter', 'StopIteration'):
            return
        t = w.body[0]
        if len(t.body) != 1 or t.finalbody or len(t.handlers) != 1 or not isinstance(t.body[0], ast.Assign) or len(t.body[0].targets) != 1:
            return
        h = t.handlers[0]
        n = t.body[0].value
        if not (_call(n, 'next', 1) and isinstance(n.args[0], ast.Name) and isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and len(h.body) == 1):
            return
        it = n.args[0].id
        if isinstance(h.body[0], ast.Break):
            orelse = []
        elif isinstance(h.body[0], ast.Return):
            orelse = h.body
        else:
            return
        rest = list(t.orelse) + w.body[1:]
        if _mentions(rest, it) or _mentions(t.body[0].targets[0], it):
            return
        src = _load(it, n.args[0])
        if k and isinstance(b[k - 1], ast.Assign) and len(b[k - 1].targets) == 1 and isinstance(b[k - 1].targets[0], ast.Name) and \
                b[k - 1].targets[0].id == it and _call(b[k - 1].value, 'iter', 1) and _mentions(self.fn, it) == 2:
            src = b[k - 1].value.args[0]
            b[k - 1].value = ast.copy_location(ast.Constant(None), b[k - 1].value)
        f = ast.For(t.body[0].targets[0], src, rest or [ast.copy_location(ast.Pass(), w)], orelse)
        b[k] = _at(ast.copy_location(f, w), w)

    # ------------------------------------------------------ counted by hand
    def start(self, b, k, i):
        """The statement before b[k] that sets i to a number, nothing in between mentioning it."""
        for j in range(k - 1, -1, -1):
            s = b[j]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i:
                if isinstance(s.value, ast.Constant) and type(s.value.value) is int:
                    return j, s.value
                return None
            if _mentions(s, i):
                return None
        return None

    def step(self, body):
        """(position, name) of a top-level i += 1."""
        for j, s in enumerate(body):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and \
                    type(s.value.value) is int and s.value.value == 1:
                yield j, s.target.id
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
                l, r = s.value.left, s.value.right
                for x, y in ((l, r), (r, l)):
                    if isinstance(x, ast.Name) and x.id == s.targets[0].id and isinstance(y, ast.Constant) and type(y.value) is int and y.value == 1:
                        yield j, x.id
                        break

    def driven(self, b, k, i, j):
        """(start, constant) when i only counts the passes of loop b[k], whose body steps it at position j."""
        w = b[k]
        if len(_stores(w.body, i)) != 1 or _mentions(w.body[j + 1:], i) or next(_own(w.body[:j], (ast.Continue,)), None) is not None or _mentions(w.orelse, i):
            return None
        s = self.start(b, k, i)
        if s is None:
            return None
        inside = _mentions(b[s[0]], i) + _mentions(w, i)
        return s if _mentions(self.fn, i) == inside else None

    def counter(self, b, k):
        w = b[k]
        if not self.builtin('enumerate'):
            return
        for j, i in self.step(w.body):
            if _mentions(w.iter, i) or _mentions(w.target, i):
                continue
            s = self.driven(b, k, i, j)
            if s is None:
                continue
            body = w.body[:j] + w.body[j + 1:]
            t = ast.copy_location(ast.Tuple([_store(i, w.target), w.target], ast.Store()), w.target)
            args = [w.iter] + ([s[1]] if s[1].value else [])
            e = ast.copy_location(ast.Call(_load('enumerate', w.iter), args, []), w.iter)
            b[k] = _at(ast.copy_location(ast.For(t, e, body or [ast.copy_location(ast.Pass(), w)], w.orelse), w), w)
            return

    def steady(self, body, S):
        """The sequence is only read by these statements."""
        root = S
        while isinstance(root, ast.Attribute):
            root = root.value
        if _stores(body, root.id):
            return False
        d = ast.dump(S)
        for s in body:
            par = {c: p for p in ast.walk(s) for c in ast.iter_child_nodes(p)}
            for x in ast.walk(s):
                if not isinstance(x, (ast.Name, ast.Attribute)) or ast.dump(x) != d:
                    continue
                p = par.get(x)
                if isinstance(p, ast.Subscript) and p.value is x and isinstance(p.ctx, ast.Load) or _call(p, 'len', 1):
                    continue
                return False
        return True

    def while_len(self, b, k):
        w = b[k]
        t = w.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and self.builtin('range', 'len')):
            return
        l, r, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, ast.Gt):
            l, r, op = r, l, ast.Lt()
        if not (isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(l, ast.Name) and _call(r, 'len', 1) and _simple(r.args[0])):
            return
        for j, i in self.step(w.body):
            if i != l.id:
                continue
            if _mentions(r, i) or not self.steady(w.body, r.args[0]):
                return
            s = self.driven(b, k, i, j)
            if s is None or isinstance(op, ast.NotEq) and s[1].value != 0:
                return
            body = w.body[:j] + w.body[j + 1:]
            args = ([s[1]] if s[1].value else []) + [r]
            e = ast.copy_location(ast.Call(_load('range', r), args, []), r)
            b[k] = _at(ast.copy_location(ast.For(_store(i, w), e, body or [ast.copy_location(ast.Pass(), w)], w.orelse), w), w)
            return

    # ---------------------------------------------------- positions of a list
    def is_list(self, S):
        """A local that only ever holds lists made here, or a sequence the caller passed (it has a length and is read by position)."""
        if not isinstance(S, ast.Name):
            return False
        params = {a.arg for a in self.fn.args.args}
        if S.id in params:
            return not _stores(self.fn, S.id)
        vs = []
        for x in ast.walk(self.fn):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == S.id for t in x.targets):
                vs.append(x.value)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == S.id and x.value is not None:
                vs.append(x.value)
        return len(vs) == len(_stores(self.fn, S.id)) and bool(vs) and all(isinstance(v, LISTS) or isinstance(v, ast.Name) and v.id in params and not _stores(self.fn, v.id) or _call(v, 'list', 1) or _call(v, 'list', 0) or _call(v, 'sorted', 1) for v in vs)

    def range_len(self, b, k):
        w = b[k]
        it = w.iter
        if not (isinstance(w.target, ast.Name) and self.builtin('range', 'len', 'enumerate', 'list', 'sorted')):
            return
        if _call(it, 'range', 2) and isinstance(it.args[0], ast.Constant) and it.args[0].value == 0:
            ln = it.args[1]
        elif _call(it, 'range', 1):
            ln = it.args[0]
        else:
            return
        if not (_call(ln, 'len', 1) and self.is_list(ln.args[0])):
            return
        S, i = ln.args[0], w.target.id
        if _stores(w.body, i) or not self.steady(w.body, S):
            return
        reads = [x for s in w.body for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == S.id]
        if not reads or not all(isinstance(x.slice, ast.Name) and x.slice.id == i for x in reads):
            return
        if any(isinstance(x, (ast.Lambda, ast.FunctionDef)) for s in w.body for x in ast.walk(s)):
            return
        f = w.body[0]
        body = w.body
        if isinstance(f, ast.Assign) and len(f.targets) == 1 and f.value is reads[0] and len(reads) == 1:
            tgt = f.targets[0]
            body = body[1:] or [ast.copy_location(ast.Pass(), w)]
        else:
            v = i + '_element'
            while v in self.taken:
                v += '_'
            self.taken.add(v)
            tgt = _store(v, w.target)

            class R(ast.NodeTransformer):
                def visit_Subscript(self, n):
                    if n in reads:
                        return ast.copy_location(ast.Name(v, ast.Load()), n)
                    return self.generic_visit(n)
            body = [R().visit(s) for s in body]
        t = ast.copy_location(ast.Tuple([_store(i, w.target), tgt], ast.Store()), w.target)
        e = ast.copy_location(ast.Call(_load('enumerate', it), [S], []), it)
        b[k] = _at(ast.copy_location(ast.For(t, e, body, w.orelse), w), w)


def normalise(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            Normal(n)
    ast.fix_missing_locations(tree)
    return tree
