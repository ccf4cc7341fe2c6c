"""C24: a document is validated against the shipped schema before a database is made from it.

Every reading operation is followed path by path (exceptional paths included).  On each path the analysis
knows which documents derive from the input, which schema objects derive from which shipped file, and whether
a validation of the whole document against that schema has succeeded; a path on which the operation returns
normally without that is a violation."""
import ast
import os
from .base import *
from .files import Graph, plain
from vflow.paths import Paths, PState, Client, NONE, const, is_const, SAFE, SAFE_EXT, mentions

# operation -> (position of the document, schema)
XSD, JSN = 'src/ucis/xml/schema/ucis.xsd', 'src/ucis/schema/coverage.json'
OPS = [('ucis.xml.validate_ucis_xml', 0, XSD), ('ucis.xml.xml_factory.XmlFactory.read', 0, XSD), ('ucis.xml.db_format_if_xml.DbFormatIfXml.read', 1, XSD),
       ('ucis.xml.xml_reader.XmlReader.validate', 0, XSD),
       ('ucis.yaml.yaml_reader.YamlReader.load', 1, JSN), ('ucis.yaml.yaml_reader.YamlReader.loads', 1, JSN), ('ucis.yaml.db_format_if_yaml.DbFormatIfYaml.read', 1, JSN)]
HARMLESS = ('from_json', 'from_dict', 'write', 'append', 'seek', 'tell', 'update', 'add')
VALID = {'XMLSchema', 'assertValid', 'assert_', 'validate', 'is_valid', 'iter_errors', 'RelaxNG', 'check_schema', 'best_match'}
FILL = {'MemUCIS', 'createScope', 'createInstance', 'createCovergroup', 'createCoverpoint', 'createBin'}
WORDS = {'open', 'parse', 'load', 'safe_load', 'loads', 'from_json', 'fromstring',
         'read_text', 'read_bytes'}
PARSE = ('lxml.etree.parse', 'lxml.etree.fromstring', 'lxml.etree.XML', 'xml.etree.ElementTree.parse', 'yaml.load', 'yaml.safe_load', 'yaml.full_load', 'json.load', 'json.loads',
         'json.dumps', 'copy.deepcopy', 'copy.copy', 'io.StringIO', 'io.BytesIO', 'lxml.etree.tostring', 'lxml.etree.ElementTree', 'yaml.dump', 'yaml.safe_dump')
OPEN = ('open', 'io.open', 'gzip.open', 'lz4.frame.open', 'bz2.open', 'codecs.open', 'lzma.open')
WHOLE = ('getroot', 'read', 'getroottree', 'copy', 'open', '__enter__', 'encode', 'decode', 'strip', 'as_dict')


def whole(v):
    """Is the value the document itself (as text, stream or tree) and not a part of it?"""
    return v[0] in ('doc', 'param')


class Gate(Client):
    def __init__(self, prog, graph, closure, param):
        self.prog, self.g, self.closure, self.param = prog, graph, closure, param
        self.assigned = {}
        self.sites = {}
        self.odd = {}
        self.built = {}

    def inline(self, fi):
        q = fi.qualname
        return q not in self.g.direct or q in self.closure or plain(fi)

    def may_raise(self, fi):
        return self.g.may_raise(fi) if fi.qualname in self.g.direct else True

    # ------------------------------------------------------------- values
    def derived(self, v):
        return mentions(v, self.param)

    def doc(self, st, fr, node, args, raises=True):
        s = self.P.opaque(st, fr, node, ('x',), [], raises)
        return [(k, q, ('doc', self.param, self.P.site(fr, node)) if k == 'val' else v) for k, q, v in s]

    def path(self, v):
        """Path of a shipped file, relative to the repository."""
        if v[0] == 'op' and v[1] == 'Div' and is_const(v[3]) and self.path(v[2]) is not None:
            return os.path.normpath(os.path.join(self.path(v[2]), v[3][2]))
        return v[1] if v[0] == 'path' else v[2] if is_const(v) and isinstance(v[2], str) and v[2].startswith('src/') else None

    def schema(self, v):
        if v[0] in ('schema', 'validator', 'cfile'):
            return v[1]
        return self.path(v)

    def call(self, st, fr, node, f, args, kw):
        P = self.P
        allv = list(args) + list(kw.values())
        if f[0] == 'validator':
            return self.check(st, fr, node, f, args[0] if args else NONE, False)
        if f[0] != 'ext':
            return None
        n = f[1]
        if n in ('os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'str', 'os.fspath', 'pathlib.Path') and len(args) == 1:
            if args[0] == ('ext', '__file__'):
                p = fr.module.path
                return [('val', st, ('path', rel(p)))]
            if self.path(args[0]) is not None:
                return [('val', st, ('path', self.path(args[0])))]
        if n == 'os.path.dirname' and len(args) == 1:
            a = ('path', rel(fr.module.path)) if args[0] == ('ext', '__file__') else args[0]
            if a[0] == 'path':
                return [('val', st, ('path', os.path.dirname(a[1])))]
        if n == 'os.path.join' and args and all(is_const(x) for x in args[1:]) and args[0][0] == 'path':
            return [('val', st, ('path', os.path.normpath(os.path.join(args[0][1], *[x[2] for x in args[1:]]))))]
        if n in OPEN and args:
            p = self.path(args[0])
            if p is not None:
                return [('val', st, ('cfile', p)), ('raise', st, ('exc', None, ('from', P.site(fr, node))))]
            if self.derived(args[0]):
                return self.doc(st, fr, node, args)
        if n in PARSE and allv:
            p = self.schema(allv[0])
            if p is not None:
                return [('val', st, ('schema', p)), ('raise', st, ('exc', None, ('from', P.site(fr, node))))]
            if self.derived(allv[0]):
                if whole(allv[0]):
                    return self.doc(st, fr, node, args)
                return [('val', st, ('part', allv[0])), ('raise', st, ('exc', None, NONE))]
            if allv[0][0] == 'attr' and n in ('json.dumps', 'json.loads', 'copy.deepcopy'):
                return [('val', st, allv[0])]
        if n.endswith('.XMLSchema') and allv:
            p = self.schema(kw.get('file', kw.get('etree', allv[0])))
            return [('val', st, ('validator', p) if p is not None else ('validator', ('?', allv[0]))), ('raise', st, ('exc', None, NONE))]
        if n.endswith('.ObjectBuilder') and allv:
            self.built[P.where(fr, node)] = allv[0]
            return None
        if n == 'jsonschema.validate':
            inst = kw.get('instance', args[0] if args else NONE)
            sch = kw.get('schema', args[1] if len(args) > 1 else NONE)
            return self.check(st, fr, node, ('validator', self.schema(sch) if self.schema(sch) is not None else ('?', sch)), inst, True)
        if n.startswith('jsonschema.') and n.endswith('Validator') and allv:
            sch = kw.get('schema', allv[0])
            return [('val', st, ('validator', self.schema(sch) if self.schema(sch) is not None else ('?', sch)))]
        if n == 'jsonschema.validators.validator_for' or n == 'jsonschema.validator_for':
            return [('val', st, ('ext', 'jsonschema.SomeValidator'))]
        if n in ('hasattr', 'isinstance', 'type', 'len', 'bool', 'callable') or n.startswith('logging.'):
            return None
        if n in ('next', 'list', 'tuple', 'sorted', 'any', 'iter', 'jsonschema.exceptions.best_match') and args and args[0][0] == 'errors':
            return self.errs(st, fr, node, n, args)
        if any(self.derived(v) for v in allv):
            if n in ('list', 'tuple', 'iter', 'sorted', 'reversed', 'enumerate', 'str', 'repr', 'print', 'getattr'):
                return None
            return self.doc(st, fr, node, args) if False else [(k, q, ('part', self.param, P.site(fr, node)) if k == 'val' else v)
                                                               for k, q, v in P.opaque(st, fr, node, f, args, True)]
        return None

    def opaque_fn(self, st, fr, node, fi, args, kw):
        return self.P.opaque(st, fr, node, ('fn',), args, self.may_raise(fi))

    def opaque_call(self, st, fr, node, f, args, kw):
        if any(self.derived(v) for v in list(args) + list(kw.values())) and f[0] not in ('ext', 'op'):
            if f[0] == 'attr' and f[2] in HARMLESS:
                pass
            elif any(mentions(x, 'validator') for x in [f] + list(args)) or f[0] in ('attr', 'res', 'item', 'glob', 'param') and not self.derived(f):
                s = st.copy()
                s.aux['odd'] = self.P.where(fr, node)
                return self.P.opaque(s, fr, node, f, args, True)
        return self.P.opaque(st, fr, node, f, args, True)

    def method(self, st, fr, node, o, name, args, kw):
        P = self.P
        if o[0] == 'validator':
            inst = args[0] if args else kw.get('instance', kw.get('etree', NONE))
            if name in ('assertValid', 'assert_') or name == 'validate' and self.js(o):
                return self.check(st, fr, node, o, inst, True)
            if name in ('validate', 'is_valid', '__call__'):
                return self.check(st, fr, node, o, inst, False)
            if name == 'iter_errors':
                return [('val', st, ('errors', o, inst))]
            return P.opaque(st, fr, node, ('attr', o, name), args, True)
        if o[0] == 'cfile':
            if name in ('__enter__', 'read', 'readlines'):
                return [('val', st, o), ('raise', st, ('exc', None, NONE))] if name != '__enter__' else [('val', st, o)]
            return P.opaque(st, fr, node, ('attr', o, name), args, True)
        if o[0] == 'path':
            if name in ('resolve', 'absolute', '__fspath__', 'as_posix'):
                return [('val', st, o)]
            if name == 'joinpath' and all(is_const(a) for a in args):
                return [('val', st, ('path', os.path.normpath(os.path.join(o[1], *[a[2] for a in args]))))]
            if name in ('open', 'read_text', 'read_bytes'):
                return [('val', st, ('cfile', o[1])), ('raise', st, ('exc', None, NONE))]
        if o[0] == 'schema':
            if name in ('pop', 'update', 'clear', 'remove', 'setdefault', 'append', 'insert', 'extend', '__setitem__', '__delitem__', 'popitem'):
                self.touched(fr, node, o)
            if name in ('copy', 'getroot'):
                return [('val', st, o)]
            return P.opaque(st, fr, node, ('attr', o, name), args, True)
        if o[0] in ('doc', 'param') and self.derived(o):
            if name in WHOLE:
                return self.doc(st, fr, node, args)
            return [(k, q, ('part', self.param, P.site(fr, node)) if k == 'val' else v) for k, q, v in P.opaque(st, fr, node, ('attr', o, name), args, True)]
        if o[0] == 'part':
            return [(k, q, o if k == 'val' else v) for k, q, v in P.opaque(st, fr, node, ('attr', o, name), args, True)]
        return None

    def js(self, v):
        p = v[1]
        return isinstance(p, str) and p.endswith('.json') or not isinstance(p, str) and self.kind == JSN

    def touched(self, fr, node, o):
        self.odd[self.P.where(fr, node)] = 'the schema is changed after it is read'

    def on_setitem(self, st, fr, node, o, v):
        if o[0] == 'schema' or o[0] == 'attr' and any(w[0] == 'schema' for w in self.assigned.get((o[1], o[2]), ())):
            self.touched(fr, node, o)

    def on_setattr(self, st, fr, node, o, v):
        self.assigned.setdefault((o, node.attr), set()).add(v)
        return None

    def subscript(self, st, fr, node, o, i):
        if self.derived(o) and o[0] in ('doc', 'param', 'part'):
            return [('val', st, ('part', self.param, self.P.site(fr, node))), ('raise', st, ('exc', None, NONE))]
        if o[0] == 'schema':
            return [('val', st, ('subschema', o[1]))]
        return None

    def getattr(self, st, fr, node, o, name):
        if o[0] == 'path' and name == 'parent':
            return [('val', st, ('path', os.path.dirname(o[1])))]
        if o[0] == 'validator':
            return [('val', st, ('vm', o, name))]
        return None

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            for x, y in ((a, b), (b, a)):
                if x[0] in ('doc', 'schema', 'validator', 'cfile') and y == NONE:
                    return const(isinstance(op, (ast.IsNot, ast.NotEq)))
        return None

    # ---------------------------------------------------------- validation
    def check(self, st, fr, node, v, inst, raising):
        w = self.P.where(fr, node)
        if not self.derived(inst):
            return self.P.opaque(st, fr, node, ('x',), [], True)
        ev = ('valid', v[1], 'whole' if whole(inst) else 'part', w)
        self.sites[w] = ev
        if raising:
            s = st.copy()
            s.res[ev] = ('ok', '')
            return [('val', s, NONE), ('raise', st, ('exc', 'Invalid', ('from', self.P.site(fr, node))))]
        return [('val', st, ('verdict', ev)), ('raise', st, ('exc', None, ('from', self.P.site(fr, node))))]

    def known(self, st, k):
        k = k[2] if k[0] == 'op' and k[1] == 'truth' and len(k) == 3 else k
        if k[0] == 'verdict' and k[1] in st.res:
            return True
        return None

    def assume(self, st, k, b):
        if k[0] == 'verdict':
            if b:
                st.res[k[1]] = ('ok', '')
        if k[0] == 'op' and k[1] in ('==', 'is') and len(k) == 4 and k[2][0] == 'verdict' and is_const(k[3]) and isinstance(k[3][2], bool):
            if k[3][2] == b:
                st.res[k[2][1]] = ('ok', '')
        if k[0] == 'noerr' and b:
            st.res[k[1]] = ('ok', '')
        if k[0] == 'op' and k[1] == 'is' and k[2][0] == 'first' and k[3] == NONE and b:
            st.res[k[2][1]] = ('ok', '')
        if k[0] in ('first', 'errlist') and not b:
            st.res[k[1]] = ('ok', '')
        if k[0] == 'op' and k[1] == 'len' and k[2][0] == 'errlist' and not b:
            st.res[k[2][1]] = ('ok', '')
        return None

    def errs(self, st, fr, node, n, args):
        e = args[0]
        w = self.P.where(fr, node)
        ev = ('valid', e[1][1], 'whole' if whole(e[2]) else 'part', w)
        self.sites[w] = ev
        r = ('exc', None, ('from', self.P.site(fr, node)))
        if n in ('next', 'jsonschema.exceptions.best_match'):
            if n == 'next' and len(args) < 2:
                return [('val', st, ('res', w)), ('raise', st, r)]
            return [('val', st, ('first', ev)), ('raise', st, r)]
        return [('val', st, ('errlist', ev)), ('raise', st, r)]

    def iter_start(self, st, fr, node, el):
        if el[2][0] in ('errors', 'errlist'):
            st = st.copy()
            st.aux[('seen', el[1])] = True
        return st

    def iter_done(self, st, fr, node, el):
        """The loop over the errors ends without ever running: there are none."""
        v = el[2]
        if v[0] in ('errors', 'errlist') and not st.aux.get(('seen', el[1])):
            w = self.P.where(fr, node)
            ev = v[1] if v[0] == 'errlist' else ('valid', v[1][1], 'whole' if whole(v[2]) else 'part', w)
            self.sites[w] = ev
            st = st.copy()
            st.res[ev] = ('ok', '')
        return st


def resolve(v, cl, depth=0):
    """Shipped schema files an unresolved schema value may be."""
    if isinstance(v, str):
        return {v}
    if depth > 4 or not isinstance(v, tuple):
        return {None}
    if v[0] == '?':
        v = v[1]
    if v[0] in ('schema', 'validator', 'cfile', 'path'):
        return resolve(v[1], cl, depth + 1)
    if v[0] == 'attr':
        ws = cl.assigned.get((v[1], v[2]), set()) - {NONE}
        out = set()
        for w in ws:
            if w == v:
                continue
            out |= resolve(w, cl, depth + 1)
        return out or {None}
    return {None}


def c24(ctx, prog):
    ctx.rule('validated', 'whenever the operation returns, the whole document has passed validation')
    ctx.rule('shipped-schema', 'the schema used is the one shipped for that format')
    g = Graph(prog)

    def using(words):
        return {q for q, fi in g.fns.items() if any(isinstance(n, ast.Attribute) and n.attr in words or isinstance(n, ast.Name) and n.id in words for n in ast.walk(fi.node))}
    for q, pos, schema in OPS:
        fi = prog.func(q)
        if fi is None:
            raise AnchorError(q)
    # what validates is followed everywhere; what opens or parses is followed unless it fills a database
    closure = g.close_over(using(VALID)) | (g.close_over(using(WORDS)) - g.close_over(using(FILL)))
    for q, pos, schema in OPS:
        fi = prog.func(q)
        if len(fi.params) <= pos:
            raise AnchorError('%s takes no document' % q)
        par = ('param', fi.params[pos])
        cl = Gate(prog, g, closure, par)
        cl.kind = schema
        P = Paths(prog, cl)
        P.stack = [fi]
        args = []
        for i, p in enumerate(fi.params):
            if i == 0 and fi.cls is not None and not fi.is_static:
                P.clsval(fi.cls)
                v = ('obj', fi.cls.qualname, 'self') if not fi.is_class else P.clsval(fi.cls)
            else:
                v = ('param', p)
            args.append(v)
        loc = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.short)
        try:
            outs = P.call_fi(fi, args[:pos + 1], {}, PState(), None, fi.node, None)
        except Abort as e:
            ctx.und('validated', q, str(e), loc)
            continue
        ctx.functions |= P.visited | {q}
        ctx.sites += P.sites
        ctx.steps += P.steps
        good = [(s, v) for k, s, v in outs if k == 'val']
        if not good:
            ctx.und('validated', q, 'the operation never returns on the paths analysed', loc)
            continue
        n = 0
        for s, v in good:
            evs = [e for e in s.res if isinstance(e, tuple) and e and e[0] == 'valid']
            w = [e for e in evs if e[2] == 'whole']
            cond = ' when ' + ', '.join('%s is %s' % (showv(c), b) for c, b in sorted(s.facts.items(), key=repr)[:4]) if s.facts else ''
            refused = v == const(False) and q.endswith(('validate_ucis_xml', 'validate'))
            if refused and not w:
                # reported to the caller by its result; the callers are checked themselves
                n += 1
                continue
            if w:
                n += 1
                files = set()
                for e in w:
                    files |= resolve(e[1], cl)
                if schema in files:
                    ctx.ok('shipped-schema', q, '', w[0][3])
                elif None in files:
                    ctx.und('shipped-schema', q, 'origin of the schema is not resolved', w[0][3])
                else:
                    ctx.viol('shipped-schema', q, 'validated against %s instead of %s' % (sorted(files)[0], schema), w[0][3])
            elif s.aux.get('odd'):
                ctx.und('validated', q, 'the document is handed to something the analysis does not follow', s.aux['odd'])
            elif evs:
                ctx.viol('validated', q, 'only a part of the document is validated', evs[0][3])
            else:
                at = sorted(cl.sites)[0] if cl.sites else loc
                ctx.viol('validated', q, 'returns without a successful validation of the document%s%s' % (cond[:160], ' (validation at %s)' % at if cl.sites else ' (nothing validates it)'), at)
        if n == len(good):
            ctx.ok('validated', q, 'validated on every path that returns (%d)' % n, loc)
        for w, m in sorted(cl.odd.items()):
            ctx.und('shipped-schema', q, m, w)


def builders(ctx, prog, package):
    """(place, schema files) of every schema class builder in the package."""
    g = Graph(prog)

    def using(words):
        return {q for q, fi in g.fns.items() if any(isinstance(n, ast.Attribute) and n.attr in words or isinstance(n, ast.Name) and n.id in words for n in ast.walk(fi.node))}
    closure = g.close_over(using(WORDS | {'ObjectBuilder', '__file__', 'joinpath'}))
    out = {}
    for q in sorted(using({'ObjectBuilder'})):
        fi = g.fns[q]
        if not fi.module.name.startswith(package + '.'):
            continue
        cl = Gate(prog, g, closure, ('param', '?none'))
        cl.kind = ''
        P = Paths(prog, cl)
        P.stack = [fi]
        args = []
        for i, p in enumerate(fi.params):
            args.append((('obj', fi.cls.qualname, 'self') if not fi.is_class else P.clsval(fi.cls)) if i == 0 and fi.cls is not None and not fi.is_static else ('param', p))
        try:
            P.call_fi(fi, args, {}, PState(), None, fi.node, None)
        except Abort:
            continue
        ctx.functions |= P.visited | {q}
        ctx.sites += P.sites
        for w, v in cl.built.items():
            out.setdefault(w, set()).update(resolve(cl.schema(v) or ('?', v), cl))
    return out


def showv(c):
    if not isinstance(c, tuple):
        return str(c)
    if c[0] == 'c':
        return repr(c[2])
    if c[0] == 'op':
        return '%s(%s)' % (c[1], ', '.join(showv(x) for x in c[2:]))
    return '.'.join(str(x) for x in c[1:2]) or c[0]
