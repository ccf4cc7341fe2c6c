"""Program model: modules, classes, functions and constants of /repo/src."""
import ast
import os
from .normal import normalise
from .terms import const, EnumVal, mk


class FuncInfo(object):
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = getattr(node, 'name', '<lambda>')
        decos = []
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Call):
                d = d.func
            if isinstance(d, ast.Attribute):
                decos.append(d.attr)
            elif isinstance(d, ast.Name):
                decos.append(d.id)
        self.decos = decos
        self.is_static = 'staticmethod' in decos
        self.is_class = 'classmethod' in decos
        self.is_property = 'property' in decos or 'cached_property' in decos
        self.is_ctxmgr = 'contextmanager' in decos
        self._gen = None

    @property
    def qualname(self):
        return (self.cls.qualname + '.' if self.cls else self.module.name + '.') + self.name

    @property
    def short(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    @property
    def is_gen(self):
        if self._gen is None:
            self._gen = False
            if isinstance(self.node, ast.FunctionDef):
                for n in walk_own(self.node):
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        self._gen = True
        return self._gen

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<fn %s>' % self.qualname


def walk_own(fn):
    """Nodes of a function body without nested functions/classes."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
                todo.append(c)
            elif isinstance(c, ast.FunctionDef) or isinstance(c, ast.Lambda):
                pass


class ClassInfo(object):
    def __init__(self, node, module, outer=None):
        self.node = node
        self.module = module
        self.outer = outer
        self.name = node.name
        self.qualname = (outer.qualname if outer else module.name) + '.' + node.name
        self.methods = {}
        self.setters = {}
        self.assigns = {}
        self.inner = {}
        self._mro = None
        self._members = None
        for n in node.body:
            self._collect(n)

    def _collect(self, n):
        if isinstance(n, ast.FunctionDef):
            fi = FuncInfo(n, self.module, self)
            if 'setter' in fi.decos:
                self.setters[n.name] = fi
            else:
                self.methods[n.name] = fi
        elif isinstance(n, ast.ClassDef):
            self.inner[n.name] = ClassInfo(n, self.module, self)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.assigns[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
            self.assigns[n.target.id] = n.value
        elif isinstance(n, (ast.If, ast.Try)):
            for c in n.body:
                self._collect(c)

    def __repr__(self):
        return '<cls %s>' % self.qualname


class ModuleInfo(object):
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.bind = {}      # name -> binding
        self.globals_written = set()
        self._scan(tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.bind[n.name] = ('func', FuncInfo(n, self))
            elif isinstance(n, ast.ClassDef):
                self.bind[n.name] = ('class', ClassInfo(n, self))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.bind[a.asname] = ('module', a.name)
                    else:
                        self.bind[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                mod = self.absname(n)
                for a in n.names:
                    if a.name == '*':
                        self.bind.setdefault('*', ('stars', []))[1].append(mod)
                    else:
                        self.bind[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.bind[t.id] = ('assign', n.value)
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name) and n.value is not None:
                    self.bind[n.target.id] = ('assign', n.value)
            elif isinstance(n, ast.If):
                self._scan(n.body)
                self._scan(n.orelse)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
                for h in n.handlers:
                    for c in h.body:
                        pass
            elif isinstance(n, ast.With):
                self._scan(n.body)

    def absname(self, n):
        if not n.level:
            return n.module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))


class Program(object):
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.unparsable = []
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != '__pycache__' and not d.endswith('.egg-info'))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                try:
                    src = open(p, encoding='utf-8', errors='replace').read()
                    tree = normalise(ast.parse(src, p))
                except (SyntaxError, ValueError) as e:
                    self.unparsable.append((os.path.relpath(p, root), str(e)))
                    continue
                self.modules[rel] = ModuleInfo(rel, p, tree)
        self._cls = {}

    # -- lookup -----------------------------------------------------------
    def add_source(self, name, src):
        """Register an analysis-only module (an observer of the analysed code)."""
        import ast as _ast
        m = ModuleInfo(name, name, _ast.parse(src))
        self.modules[name] = m
        return m

    def cls(self, qual):
        """ClassInfo by dotted name or None."""
        mod, _, name = qual.rpartition('.')
        if mod in self.modules:
            b = self.lookup(self.modules[mod], name)
            if b and b[0] == 'class':
                return b[1]
        if mod:
            c = self.cls(mod)
            if c:
                return c.inner.get(name)
        return None

    def func(self, qual):
        mod, _, name = qual.rpartition('.')
        if mod in self.modules:
            b = self.lookup(self.modules[mod], name)
            if b and b[0] == 'func':
                return b[1]
        c = self.cls(mod) if mod else None
        if c:
            return self.find_method(c, name)
        return None

    def lookup(self, module, name, seen=None):
        """Resolve a module-level name to ('func'|'class'|'assign'|'module'|'ext', ...)"""
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        b = module.bind.get(name)
        if b is None:
            st = module.bind.get('*')
            if st:
                for m in st[1]:
                    if m in self.modules:
                        r = self.lookup(self.modules[m], name, seen)
                        if r:
                            return r
            if module.name + '.' + name in self.modules:
                return ('module', module.name + '.' + name)
            return None
        if b[0] == 'from':
            mod, nm = b[1], b[2]
            if mod in self.modules:
                r = self.lookup(self.modules[mod], nm, seen)
                if r:
                    return r
                if mod + '.' + nm in self.modules:
                    return ('module', mod + '.' + nm)
                return None
            if mod + '.' + nm in self.modules:
                return ('module', mod + '.' + nm)
            return ('ext', mod + '.' + nm)
        if b[0] == 'module':
            if b[1] in self.modules:
                return b
            return ('ext', b[1])
        if b[0] == 'assign':
            return ('assign', module, name, b[1])
        return b

    # -- classes ----------------------------------------------------------
    def base_classes(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_cls_expr(b, c)
            out.append(r)
        return out

    def resolve_cls_expr(self, e, c):
        """ClassInfo, or dotted external name string."""
        if isinstance(e, ast.Name):
            o = c.outer if c else None
            while o is not None:
                if e.id in o.inner:
                    return o.inner[e.id]
                o = o.outer
            b = self.lookup(c.module, e.id)
            if b is None:
                return e.id
            if b[0] == 'class':
                return b[1]
            if b[0] == 'ext':
                return b[1]
            return e.id
        if isinstance(e, ast.Attribute):
            v = self.resolve_cls_expr(e.value, c)
            if isinstance(v, ClassInfo):
                return v.inner.get(e.attr, v.qualname + '.' + e.attr)
            if isinstance(e.value, ast.Name):
                b = self.lookup(c.module, e.value.id)
                if b and b[0] == 'module' and b[1] in self.modules:
                    b2 = self.lookup(self.modules[b[1]], e.attr)
                    if b2 and b2[0] == 'class':
                        return b2[1]
                    if b2 and b2[0] == 'ext':
                        return b2[1]
            return (v if isinstance(v, str) else '?') + '.' + e.attr
        return '?'

    def mro(self, c):
        if c._mro is None:
            bases = [b for b in self.base_classes(c) if isinstance(b, ClassInfo)]
            seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
            out = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                for s in seqs:
                    if s[0] is h:
                        del s[0]
            c._mro = out
        return c._mro

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            for b in self.base_classes(k):
                if isinstance(b, str):
                    out.append(b)
        return out

    def find_method(self, c, name, after=None):
        m = self.mro(c)
        if after is not None:
            i = m.index(after) if after in m else -1
            m = m[i + 1:]
        for k in m:
            if name in k.methods:
                return k.methods[name]
        return None

    def is_enum(self, c):
        return any(b.rsplit('.', 1)[-1] in ('Enum', 'IntEnum', 'IntFlag', 'Flag') for b in self.ext_bases(c))

    def enum_members(self, c):
        """Ordered name -> EnumVal for an enumeration class."""
        if c._members is not None:
            return c._members
        mem = {}
        c._members = mem
        flag = any(b.rsplit('.', 1)[-1] in ('IntFlag', 'Flag') for b in self.ext_bases(c))
        last = None

        def ev(e):
            nonlocal last
            if isinstance(e, ast.Constant):
                return e.value
            if isinstance(e, ast.Name):
                if e.id in mem:
                    return mem[e.id].value
                b = self.lookup(c.module, e.id)
                if b and b[0] == 'assign':
                    return ev(b[3])
                raise KeyError(e.id)
            if isinstance(e, ast.Attribute):
                if isinstance(e.value, ast.Name):
                    b = self.lookup(c.module, e.value.id)
                    if b and b[0] == 'class':
                        return self.enum_members(b[1])[e.attr].value
                raise KeyError('attr')
            if isinstance(e, ast.Call):
                f = e.func
                nm = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
                if nm == 'auto':
                    vals = [m.value for m in mem.values() if isinstance(m.value, int)]
                    if flag:
                        if not vals:
                            return 1
                        mx = max(vals)
                        return 1 << mx.bit_length() if mx > 0 else 1
                    if not vals:
                        return 1
                    return max(vals) + 1 if c else 1
                if nm == 'int':
                    return int(*[ev(x) for x in e.args])
                raise KeyError('call')
            if isinstance(e, ast.BinOp):
                l, r = ev(e.left), ev(e.right)
                ops = {ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.Add: lambda a, b: a + b,
                       ast.Sub: lambda a, b: a - b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
                       ast.Mult: lambda a, b: a * b, ast.BitXor: lambda a, b: a ^ b, ast.Pow: lambda a, b: a ** b}
                return ops[type(e.op)](l, r)
            if isinstance(e, ast.UnaryOp):
                v = ev(e.operand)
                if isinstance(e.op, ast.USub):
                    return -v
                if isinstance(e.op, ast.Invert):
                    return ~v
                return v
            if isinstance(e, ast.Tuple):
                return tuple(ev(x) for x in e.elts)
            raise KeyError(type(e).__name__)

        byval = {}
        for n in c.node.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                nm = n.targets[0].id
                if nm.startswith('_') and nm.endswith('_') or nm.startswith('__'):
                    continue
                try:
                    v = ev(n.value)
                except Exception:
                    continue
                if isinstance(v, tuple):
                    v = repr(v)
                mem[nm] = EnumVal(c.qualname, nm, v)
        return mem

    def enum_canon(self, c, name):
        """The canonical member (aliases denote the first member of that value)."""
        m = self.enum_members(c)
        v = m[name]
        for k in m.values():
            if k.value == v.value:
                return k
        return v
