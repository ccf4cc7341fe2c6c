"""C21: the calls into the native UCIS library.

The backend's own source is interpreted abstractly with the library itself opaque: every `ucis_*`
call is recorded with the symbolic value of each argument.  Objects are obtained through the public
operations (open, create*, iterate), each operation is then applied with arbitrary arguments, and
the recorded calls are compared with the prototypes the program loads and with the C declarations.
"""
from .base import *
import ast

L = 'ucis.lib.'
GETLIB = L + 'libucis.get_lib'
SRC = '''
from ucis.lib.lib_ucis import LibUCIS

def opened(path):
    return LibUCIS(path)
'''
# the C declarations: parameters in order
PROTO = {
    'ucis_Open': 'file', 'ucis_Write': 'db file scope recurse covertype', 'ucis_Close': 'db',
    'ucis_CreateHistoryNode': 'db parent logicalname physicalname kind',
    'ucis_CreateScope': 'db parent name sourceinfo weight source type flags',
    'ucis_CreateInstance': 'db parent name fileinfo weight source type du_scope flags',
    'ucis_CreateCross': 'db parent name fileinfo weight source num_points points',
    'ucis_CreateNextCover': 'db parent name data sourceinfo',
    'ucis_CreateToggle': 'db parent name canonical_name flags toggle_metric toggle_type toggle_dir',
    'ucis_SetIntProperty': 'db obj coverindex property value', 'ucis_GetIntProperty': 'db obj coverindex property',
    'ucis_SetStringProperty': 'db obj coverindex property value', 'ucis_GetStringProperty': 'db obj coverindex property',
    'ucis_SetRealProperty': 'db obj coverindex property value', 'ucis_GetRealProperty': 'db obj coverindex property',
    'ucis_CreateFileHandle': 'db filename workdir', 'ucis_RegisterErrorHandler': 'cb userdata',
    'ucis_SetTestData': 'db testhistorynode testdata', 'ucis_GetTestData': 'db testhistorynode testdata',
    'ucis_HistoryIterate': 'db historynode kind', 'ucis_HistoryScan': 'db iterator',
    'ucis_ScopeIterate': 'db scope scopemask', 'ucis_ScopeScan': 'db iterator', 'ucis_FreeIterator': 'db iterator',
    'ucis_GetScopeSourceInfo': 'db scope sourceinfo', 'ucis_GetFileName': 'db filehandle',
}
PROTO = {k: v.split() for k, v in PROTO.items()}
POINTER = {'db', 'parent', 'scope', 'sourceinfo', 'fileinfo', 'points', 'du_scope', 'data', 'obj', 'cb', 'userdata', 'testhistorynode', 'testdata', 'historynode',
           'iterator', 'filehandle'}
STRING = {'file', 'logicalname', 'physicalname', 'name', 'canonical_name', 'filename', 'workdir'}
STRVALUE = {'ucis_SetStringProperty'}
# bits a parameter needs for the codes it receives
BITS = {'type': ('ucis.scope_type_t.ScopeTypeT', {'RESERVEDSCOPE'}), 'scopemask': ('ucis.scope_type_t.ScopeTypeT', {'RESERVEDSCOPE'}),
        'covertype': ('ucis.cover_type_t.CoverTypeT', {'RESERVEDBIN'}), 'kind': ('ucis.history_node_kind.HistoryNodeKind', set()),
        'source': ('ucis.source_t.SourceT', set()), 'property': ('ucis.int_property.IntProperty', set())}
RESULT = {'ucis_Open': 'ptr', 'ucis_CreateHistoryNode': 'ptr', 'ucis_CreateScope': 'ptr', 'ucis_CreateInstance': 'ptr', 'ucis_CreateCross': 'ptr',
          'ucis_CreateToggle': 'ptr', 'ucis_CreateFileHandle': 'ptr', 'ucis_HistoryIterate': 'ptr', 'ucis_HistoryScan': 'ptr', 'ucis_ScopeIterate': 'ptr',
          'ucis_ScopeScan': 'ptr', 'ucis_GetFileName': 'str', 'ucis_CreateNextCover': 'int', 'ucis_GetIntProperty': 'int'}
PTRS = {'c_void_p', 'c_size_t'}
INTS = {'c_int': 32, 'c_uint': 32, 'c_int32': 32, 'c_uint32': 32, 'c_long': 64, 'c_ulong': 64, 'c_longlong': 64, 'c_ulonglong': 64, 'c_int64': 64, 'c_uint64': 64,
        'c_size_t': 64, 'c_ssize_t': 64, 'c_short': 16, 'c_ushort': 16, 'c_int16': 16, 'c_uint16': 16, 'c_byte': 8, 'c_ubyte': 8, 'c_int8': 8, 'c_uint8': 8, 'c_bool': 8, 'c_char': 8}
# C records: field -> class of type
LAYOUT = {
    L + 'lib_source_info._LibSourceInfo': [('filehandle', 'ptr'), ('line', 32), ('token', 32)],
    L + 'lib_test_data.LibTestData': [('teststatus', 32), ('simtime', 'real'), ('timeunit', 'str'), ('runcwd', 'str'), ('cputime', 'real'), ('seed', 'str'), ('cmd', 'str'),
                                      ('args', 'str'), ('compulsory', 32), ('date', 'str'), ('username', 'str'), ('cost', 'real'), ('toolcategory', 'str')],
    L + 'lib_cover_data.LibCoverData': [('type', 64), ('flags', 32), ('data', 'rec'), ('goal', 32), ('weight', 32), ('limit', 32), ('bitlen', 32)],
}
UNION = {'int32': 'IS_32BIT', 'int64': 'IS_64BIT', 'bytevector': 'IS_VECTOR'}

P = lambda n: ('p', n)
S = lambda n: ('s', n)
H = lambda n: ('h', n)
SRCI = lambda n: ('src', n)
NUL = ('c', NONE)
CRSCOPE = dict(name=S('name'), sourceinfo=SRCI('srcinfo'), weight=P('weight'), source=P('source'))
# label, kinds of receiver, operation, parameters, native function, arguments, result
OPS = [
    ('createScope', 'database scope', 'createScope', 'name srcinfo weight source type flags', 'ucis_CreateScope',
     dict(CRSCOPE, type=P('type'), flags=P('flags')), 'ucis.scope.Scope'),
    ('createInstance', 'database scope', 'createInstance', 'name fileinfo weight source type du_scope flags', 'ucis_CreateInstance',
     dict(name=S('name'), fileinfo=SRCI('fileinfo'), weight=P('weight'), source=P('source'), type=P('type'), du_scope=H('du_scope'), flags=P('flags')), 'ucis.scope.Scope'),
    ('createCovergroup', 'database scope', 'createCovergroup', 'name srcinfo weight source', 'ucis_CreateScope', dict(CRSCOPE, type=('e', 'COVERGROUP')), 'ucis.covergroup.Covergroup'),
    ('createCoverInstance', 'covergroup', 'createCoverInstance', 'name srcinfo weight source', 'ucis_CreateScope', dict(CRSCOPE, type=('e', 'COVERINSTANCE')), 'ucis.covergroup.Covergroup'),
    ('createCoverpoint', 'covergroup', 'createCoverpoint', 'name srcinfo weight source', 'ucis_CreateScope', dict(CRSCOPE, type=('e', 'COVERPOINT')), 'ucis.coverpoint.Coverpoint'),
    ('createCross', 'covergroup', 'createCross', 'name srcinfo weight source points_l', 'ucis_CreateCross',
     dict(name=S('name'), fileinfo=SRCI('srcinfo'), weight=P('weight'), source=P('source'), num_points=('len', 'points_l'), points=('pts', 'points_l')), 'ucis.cross.Cross'),
    ('createToggle', 'scope', 'createToggle', 'name canonical_name flags toggle_metric toggle_type toggle_dir', 'ucis_CreateToggle',
     dict(name=S('name'), canonical_name=S('canonical_name'), flags=P('flags'), toggle_metric=P('toggle_metric'), toggle_type=P('toggle_type'), toggle_dir=P('toggle_dir')), 'ucis.scope.Scope'),
    ('createNextCover', 'scope coverpoint', 'createNextCover', 'name data sourceinfo', 'ucis_CreateNextCover',
     dict(name=S('name'), data=('data', 'data'), sourceinfo=SRCI('sourceinfo')), 'index'),
    ('createBin', 'coverpoint cross', 'createBin', 'name srcinfo at_least count binrhs kind', 'ucis_CreateNextCover',
     dict(name=S('name'), data=('bin', None), sourceinfo=SRCI('srcinfo')), 'index'),
    ('setIntProperty', 'database scope node', 'setIntProperty', 'coverindex property value', 'ucis_SetIntProperty',
     dict(coverindex=P('coverindex'), property=P('property'), value=P('value')), None),
    ('setStringProperty', 'database scope node', 'setStringProperty', 'coverindex property value', 'ucis_SetStringProperty',
     dict(coverindex=P('coverindex'), property=P('property'), value=S('value')), None),
    ('getSourceInfo', 'scope', 'getSourceInfo', '', 'ucis_GetScopeSourceInfo', dict(sourceinfo=('out', L + 'lib_source_info._LibSourceInfo')), 'srcinfo'),
    ('createFileHandle', 'database', 'createFileHandle', 'filename workdir', 'ucis_CreateFileHandle', dict(filename=S('filename'), workdir=S('workdir')), 'file'),
    ('getFileName', 'file', 'getFileName', '', 'ucis_GetFileName', dict(), 'name'),
    ('createHistoryNode', 'database', 'createHistoryNode', 'parent logicalname physicalname kind', 'ucis_CreateHistoryNode',
     dict(parent=H('parent'), logicalname=S('logicalname'), physicalname=S('physicalname'), kind=P('kind')), 'ucis.history_node.HistoryNode'),
    ('setTestData', 'node', 'setTestData', 'testdata', 'ucis_SetTestData', dict(testdata=('test', 'testdata')), None),
    ('getTestData', 'node', 'getTestData', '', 'ucis_GetTestData', dict(testdata=('out', L + 'lib_test_data.LibTestData')), 'testdata'),
    ('write', 'database', 'write', 'file scope recurse covertype', 'ucis_Write',
     dict(file=S('file'), scope=H('scope'), recurse=('flag', 'recurse'), covertype=P('covertype')), None),
    ('close', 'database', 'close', '', 'ucis_Close', dict(), None),
    ('isModified', 'database', 'isModified', '', 'ucis_GetIntProperty', dict(coverindex=('c', const(-1)), property=('i', 'IS_MODIFIED')), 'bool'),
    ('modifiedSinceSim', 'database', 'modifiedSinceSim', '', 'ucis_GetIntProperty', dict(coverindex=('c', const(-1)), property=('i', 'MODIFIED_SINCE_SIM')), 'bool'),
    ('getNumTests', 'database', 'getNumTests', '', 'ucis_GetIntProperty', dict(coverindex=('c', const(-1)), property=('i', 'NUM_TESTS')), 'value'),
]
SELF = {'parent', 'scope', 'obj', 'testhistorynode', 'filehandle', 'historynode'}
# setter -> (receiver, property, conversion)
SETTERS = {
    'setGoal': ('scope', 'SCOPE_GOAL', 'p'), 'setAtLeast': ('covergroup coverpoint', 'CVG_ATLEAST', 'p'), 'setAutoBinMax': ('covergroup', 'CVG_AUTOBINMAX', 'p'),
    'setDetectOverlap': ('covergroup', 'CVG_DETECTOVERLAP', 'flag'), 'setStrobe': ('covergroup', 'CVG_STROBE', 'flag'), 'setComment': ('covergroup', 'COMMENT', 's'),
    'setPerInstance': ('covergroup', 'CVG_PERINSTANCE', 'flag'), 'setGetInstCoverage': ('covergroup', 'CVG_GETINSTCOV', 'flag'),
    'setMergeInstances': ('covergroup', 'CVG_MERGEINSTANCES', 'flag'), 'setTestStatus': ('node', 'TEST_STATUS', 'p'),
    'setCoverGoal': ('covertype', 'COVER_GOAL', 'p'), 'setCoverLimit': ('covertype', 'COVER_LIMIT', 'p'), 'setCoverWeight': ('covertype', 'COVER_WEIGHT', 'p'),
}
for n, (kinds, prop, conv) in SETTERS.items():
    f = 'ucis_SetStringProperty' if conv == 's' else 'ucis_SetIntProperty'
    OPS.append((n, kinds, n, 'value', f, dict(coverindex=('c', const(-1)), property=('s:' if conv == 's' else 'i', prop), value=(conv, 'value')), None))
GETTERS = {
    'getGoal': ('scope', 'SCOPE_GOAL', 'value'), 'getAtLeast': ('covergroup coverpoint', 'CVG_ATLEAST', 'value'), 'getAutoBinMax': ('covergroup', 'CVG_AUTOBINMAX', 'value'),
    'getDetectOverlap': ('covergroup', 'CVG_DETECTOVERLAP', 'bool'), 'getStrobe': ('covergroup', 'CVG_STROBE', 'bool'), 'getComment': ('covergroup', 'COMMENT', 'str'),
    'getPerInstance': ('covergroup', 'CVG_PERINSTANCE', 'bool'), 'getGetInstCoverage': ('covergroup', 'CVG_GETINSTCOV', 'bool'),
    'getMergeInstances': ('covergroup', 'CVG_MERGEINSTANCES', 'bool'), 'getTestStatus': ('node', 'TEST_STATUS', 'value'),
    'getCoverGoal': ('covertype', 'COVER_GOAL', 'value'), 'getCoverLimit': ('covertype', 'COVER_LIMIT', 'value'), 'getCoverWeight': ('covertype', 'COVER_WEIGHT', 'value'),
}
BUILDS = ('Open', 'Create')
WRITES = ('ucis_Set', 'ucis_Create', 'ucis_Remove', 'ucis_Attr', 'ucis_Inc', 'ucis_Clone')


def native(e):
    return e.kind == 'call' and e.name.startswith('ucis_')


def modname(t):
    """Last component of an external name."""
    if t.op == 'ext':
        return str(t.a[0]).rsplit('.', 1)[-1].rsplit(':', 1)[-1]
    if t.op == 'attr':
        return t.a[1]
    return None


class Native(object):
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        prog.add_source('verif_native', SRC)
        if prog.func(GETLIB) is None:
            raise AnchorError(GETLIB)
        self.I = Interp(prog, opaque_funcs={GETLIB})
        self.I.nullable = 'ucis_'
        self.n = 0
        self.protos = {}
        self.decided = 0

    # ------------------------------------------------------------ running
    def run(self, f, st, mod='verif_native'):
        """Value and events of one abstract execution, None when it cannot be followed."""
        self.n += 1
        mark = len(self.I.log)
        r = self.I.enter(f, st, self.prog.modules[mod], ('native', self.n))
        return r, self.I.log[mark:]

    def call(self, fn, args, st):
        fi = self.prog.func('verif_native.' + fn)
        return self.run(lambda s, n: self.I.call_fn(fi, list(args), {}, s, None, n), st)

    def op(self, o, name, args, st):
        return self.run(lambda s, n: self.I.call(self.I.getattr_(o, name, s, n), list(args), {}, s, n), st)

    # --------------------------------------------------------- prototypes
    def load(self):
        """The prototypes as the loader binds them: name -> (C name, result type, argument types, parameter flags)."""
        ctx, prog, I = self.ctx, self.prog, self.I
        fi = prog.func(L + 'libucis.load_ucis_library')
        if fi is None:
            raise AnchorError(L + 'libucis.load_ucis_library')
        w0 = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.name)
        J = Interp(prog)
        st = State()
        libsym = mk('sym', 'library')
        mark = len(J.log)
        try:
            J.enter(lambda s, n: J.call_fn(fi, [libsym], {}, s, None, n), st, fi.module, 'load')
            fm = J.enter(lambda s, n: J.call_fn(prog.func(GETLIB), [], {}, s, None, n), st, fi.module, 'getlib')
        except Abort as e:
            ctx.und('prototype', 'load_ucis_library', str(e), w0)
            return
        ctx.absorb(J)
        if fm is NONE and not st.dead:
            gl = prog.func(GETLIB)
            ctx.viol('loader', 'get_lib', 'returns None after the library was loaded', '%s:%d (get_lib)' % (rel(gl.module.path), gl.node.lineno))
            return
        if st.dead:
            rz = [e for e in J.log[mark:] if e.kind == 'raise']
            (ctx.und if not rz or any(unknown(c) for c, t in rz[-1].guards) else ctx.viol)('loader', 'load_ucis_library', 'always fails', where(rz[-1]) if rz else w0)
            return
        made = {}
        for e in J.initlog + J.log:
            if e.kind == 'call' and e.result is not None:
                made[e.result] = e
        c = J.class_of(fm)
        ga = prog.find_method(c, '__getattr__') if c is not None else None
        libs = {e.result for e in J.log[mark:] if e.kind == 'call' and e.args and e.args[0] is libsym}
        # every function the backend may ask for
        names = sorted(set(PROTO) | self.asked())
        for name in names:
            try:
                if ga is not None:
                    v = J.enter(lambda s, n: J.call_fn(ga, [const(name)], {}, s, fm, n), st, fi.module, ('ga', name))
                else:
                    v = J.enter(lambda s, n: J.getattr_(fm, name, s, n), st, fi.module, ('ga', name))
            except Abort as e:
                ctx.und('prototype', name, str(e), w0)
                continue
            if st.dead:
                st.dead = False
                self.protos[name] = None
                continue
            e = made.get(v)
            if e is None:
                if os.environ.get('VF_DEBUG'):
                    print('?', name, show(v))
                if v.op in ('const', 'tuple', 'cls', 'func', 'builtin'):
                    if name in self.asked():
                        ctx.viol('loader', name, 'is bound to %s instead of a library function' % show(v)[:60], w0)
                self.protos[name] = None if v.op in ('keyerror', 'undef') else '?'
                continue
            self.protos[name] = self.proto(name, e, made, libs, w0)

    def asked(self):
        out = set()
        for m in self.prog.modules.values():
            if m.name.startswith(L):
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and n.attr.startswith('ucis_'):
                        out.add(n.attr)
        return out

    def proto(self, name, e, made, libs, w0):
        """The function object made by prototype((name, library), flags)."""
        f = made.get(e.recv) if e.recv is not None else None
        w = where(e) or w0
        if not e.args:
            return '?'
        a0 = e.args[0]
        if a0.op == 'tuple' and len(a0.a) == 2 and a0.a[0].op == 'tuple':
            self.ctx.viol('loader', name, 'is made from %s, which is not a name and a library' % show(a0)[:80], w)
        elif a0.op == 'tuple' and len(a0.a) == 2:
            if a0.a[0].op == 'const':
                self.ctx.decide('loader', name, cval(a0.a[0]) == name, 'is bound to the library function %s' % cval(a0.a[0]), w)
            else:
                self.ctx.und('loader', name, show(a0)[:60], w)
            if a0.a[1].op == 'const':
                self.ctx.viol('loader', name, 'is taken from %s instead of the library loaded' % show(a0.a[1]), w)
            elif libs and a0.a[1] not in libs:
                self.ctx.und('loader', name, 'taken from %s' % show(a0.a[1])[:60], w)
        if f is None:
            return '?'
        flags = None
        if len(e.args) > 1 and e.args[1].op == 'tuple' and all(x.op == 'tuple' for x in e.args[1].a):
            flags = [x for x in e.args[1].a]
        return (f.args[0] if f.args else NONE, list(f.args[1:]), flags, where(f) or w)

    def prototypes(self):
        ctx = self.ctx
        for name, p in sorted(self.protos.items()):
            decl = PROTO.get(name)
            if p is None or p == '?':
                continue
            res, args, flags, w = p
            if flags is not None:
                ctx.decide('prototype', '%s parameters' % name, len(flags) == len(args),
                           'declares %d argument types for %d parameters' % (len(args), len(flags)), w)
            if decl is None:
                ctx.und('prototype', name, 'C declaration not known to the rule', w)
                continue
            if not ctx.decide('prototype', '%s arity' % name, len(args) == len(decl), 'declares %d arguments, the C function has %d (%s)' % (len(args), len(decl), ', '.join(decl)), w):
                continue
            for i, (p_, t) in enumerate(zip(decl, args)):
                n = modname(t)
                lab = '%s argument %d (%s)' % (name, i + 1, p_)
                if n is None:
                    # POINTER(T) and the like
                    ctx.decide('prototype', lab, p_ in POINTER, 'type %s' % show(t)[:50], w, und=True)
                    continue
                if p_ in POINTER:
                    ok = n in PTRS
                    if n in ('c_char_p', 'c_wchar_p', 'py_object') or n in INTS and n not in PTRS and INTS[n] < 64:
                        ok = False
                    elif not ok:
                        ctx.und('prototype', lab, 'type %s' % n, w)
                        continue
                    ctx.decide('prototype', lab, ok, 'a handle is declared as %s' % n, w)
                elif p_ in STRING or (p_ == 'value' and name in STRVALUE):
                    ctx.decide('prototype', lab, n in ('c_char_p', 'c_void_p'), 'a C string is declared as %s' % n, w)
                elif p_ == 'value' and 'Real' in name:
                    ctx.decide('prototype', lab, n == 'c_double', 'a real value is declared as %s' % n, w)
                else:
                    bits = INTS.get(n)
                    if bits is None:
                        ctx.viol('prototype', lab, 'a number is declared as %s' % n, w)
                        continue
                    need = 32
                    if p_ in BITS:
                        c = self.prog.cls(BITS[p_][0])
                        if c is not None:
                            need = max([m.value.bit_length() for k, m in self.prog.enum_members(c).items() if k not in BITS[p_][1] and isinstance(m.value, int)] or [0])
                    ctx.decide('prototype', lab, bits >= min(need, 64) and bits >= 32, '%s holds %d bits, its codes need %d' % (n, bits, max(need, 32)), w)
            want = RESULT.get(name)
            n = modname(res)
            if want == 'ptr':
                ctx.decide('prototype', '%s result' % name, n in PTRS, 'a handle is returned as %s' % (n or show(res)), w)
            elif want == 'str':
                ctx.decide('prototype', '%s result' % name, n == 'c_char_p', 'a C string is returned as %s' % (n or show(res)), w)
            elif want == 'int':
                ctx.decide('prototype', '%s result' % name, n in INTS and INTS[n] >= 32, 'a number is returned as %s' % (n or show(res)), w)

    # ------------------------------------------------------------ records
    def layouts(self):
        ctx, I = self.ctx, self.I
        for q, want in LAYOUT.items():
            c = self.prog.cls(q)
            if c is None:
                ctx.und('record', q.rsplit('.', 1)[1], 'not found')
                continue
            names = self.fields(c)
            w = '%s:%d (%s)' % (rel(c.module.path), c.node.lineno, c.name)
            if names is None:
                ctx.und('record', c.name, '_fields_ not resolved', w)
                continue
            got = [n for n, t in names]
            exp = [n for n, t in want]
            if got != exp:
                k = [i for i in range(max(len(got), len(exp))) if i >= len(got) or i >= len(exp) or got[i] != exp[i]][0]
                ctx.viol('record', c.name, 'field %d is %s instead of %s' % (k + 1, got[k] if k < len(got) else 'missing', exp[k] if k < len(exp) else 'nothing'), w)
                continue
            for (n, t), (_, x) in zip(names, want):
                m = modname(t)
                lab = '%s.%s' % (c.name, n)
                if x == 'rec' or m is None:
                    ctx.ok('record', lab)
                elif x == 'ptr':
                    ctx.decide('record', lab, m in PTRS, 'a handle is stored as %s' % m, w)
                elif x == 'str':
                    ctx.decide('record', lab, m in ('c_char_p', 'c_wchar_p', 'c_void_p'), 'a string is stored as %s' % m, w)
                elif x == 'real':
                    ctx.decide('record', lab, m == 'c_double', 'a real value is stored as %s' % m, w)
                else:
                    ctx.decide('record', lab, INTS.get(m) == x, 'a %d-bit number is stored as %s' % (x, m), w)

    def fields(self, c):
        try:
            x, _ = self.run(lambda s, n: self.I.getattr_(mk('cls', c), '_fields_', s, n), State())
        except Abort:
            return None
        if x.op == 'ref':
            vs = [e.value for e in x.a[0].events if e.value is not None]
            if any(e.loops or e.guards for e in x.a[0].events):
                return None
        elif x.op in ('tuple', 'list'):
            vs = list(x.a)
        else:
            return None
        out = []
        for v in vs:
            if v.op != 'tuple' or len(v.a) < 2 or v.a[0].op != 'const':
                return None
            out.append((cval(v.a[0]), v.a[1]))
        return out

    def record(self, t, ev, upto):
        """Class, field values and union setters of the record a pointer argument refers to."""
        if t.op in ('const', 'sym'):
            return None
        for e in ev:
            if e.kind == 'call' and e.result is t and e.args:
                n = str(e.name).rsplit('.', 1)[-1].rsplit(':', 1)[-1]
                if n in ('byref', 'pointer', 'addressof'):
                    t = e.args[0]
                elif n == 'cast':
                    t = e.args[0]
                break
        else:
            if t.op == 'ref':
                return self.fieldvals(t, ev, upto) + (True,)
            return None
        if t.op != 'ref':
            # cast(byref(x)) and the like
            for e in ev:
                if e.kind == 'call' and e.result is t:
                    return self.record(t, ev, upto)
            return None
        return self.fieldvals(t, ev, upto) + (False,)

    def fieldvals(self, r, ev, upto):
        c = r.a[0].cls
        vals, sets = {}, []
        if c is None:
            return None, {}, [], r
        fs = self.fields(c)
        for e in ev:
            if e is upto:
                break
            if e.recv is r and e.kind == 'create':
                for (n, _), v in zip(fs or [], e.args or ()):
                    vals[n] = v
                for k, v in (e.kw or {}).items():
                    vals[k] = v
            elif e.recv is r and e.kind == 'setattr':
                vals[e.name] = e.args[0]
                sets.append(e)
        return c, vals, sets, r


def given(t, p, present):
    """Value of a gated term when parameter p is (not) None."""
    while t.op == 'ite':
        c = t.a[0]
        if c is isnone(p):
            t = t.a[2] if present else t.a[1]
        elif c is not_(isnone(p)) or c is truth(p) or c is p:
            t = t.a[1] if present else t.a[2]
        elif c is not_(truth(p)):
            t = t.a[2] if present else t.a[1]
        else:
            break
    return t


def encoded(t):
    """x when t is the C string of x."""
    if t.op == 'call' and t.a[1] == 'encode':
        if t.a[0] is not None and t.a[0].op == 'builtin' and t.a[0].a[0] == 'str' and t.a[2]:
            return t.a[2][0]
        if t.a[0] is not None and t.a[0].op != 'builtin':
            return t.a[0]
    if t.op == 'call' and t.a[1] in ('bytes', 'codecs.encode') and t.a[2]:
        return t.a[2][0]
    if t.op == 'op' and t.a[0] in ('bytes', 'encode'):
        return t.a[1]
    if t.op == 'const' and isinstance(t.a[0], bytes):
        try:
            return const(t.a[0].decode())
        except Exception:
            return None
    return None


def c21(ctx, prog):
    ctx.rule('known', 'every function called is one the loader binds')
    ctx.rule('arity', 'a call passes as many arguments as the prototype declares')
    ctx.rule('prototype', 'the prototypes agree with the C declarations in number and kind of parameters')
    ctx.rule('loader', 'a function is bound to the library function of its own name')
    ctx.rule('handle', 'database and object handles are those of the database and object operated on')
    ctx.rule('argument', "each of the operation's arguments goes to the parameter of its meaning, strings as C strings")
    ctx.rule('own-function', "an operation calls the native function of its own name, exactly once")
    ctx.rule('record', 'records have the C layout and carry every field of the data')
    ctx.rule('result', 'the result stands for the handle the library returned')
    ctx.rule('read-only', 'reading operations call nothing that creates or sets')
    ctx.rule('iterator', 'an exhausted iterator is freed before the end is reported')
    N = Native(ctx, prog)
    N.load()
    N.prototypes()
    N.layouts()
    world(ctx, prog, N)
    ctx.absorb(N.I)
    if not N.decided:
        raise AnchorError('no operation of the native backend could be analysed')


def world(ctx, prog, N):
    I = N.I
    st = State()
    path = mk('sym', 'path')
    st.assume(not_(isnone(path)), 'given')
    st.assume(truth(path), 'given')
    try:
        db, ev0 = N.call('opened', [path], st)
    except Abort as e:
        ctx.und('own-function', 'open', str(e))
        return
    opens = [e for e in ev0 if native(e) and e.name == 'ucis_Open']
    w = where(opens[0]) if opens else ''
    if len(opens) != 1 or st.dead:
        if not opens and not [e for e in ev0 if e.kind == 'rec']:
            ctx.viol('own-function', 'open', 'does not call ucis_Open')
        elif len(opens) == 1 and any(e.kind == 'raise' for e in ev0) and not any(unknown(c) for e in ev0 if e.kind == 'raise' for c, t in e.guards):
            ctx.viol('own-function', 'open', 'always fails', where([e for e in ev0 if e.kind == 'raise'][-1]))
        else:
            ctx.und('own-function', 'open', '%d calls of ucis_Open' % len(opens), w)
        return
    generic(ctx, N, 'open', ev0)
    a = opens[0].args[0] if opens[0].args else None
    if a is not None:
        a = given(a, path, True)
        judge_str(ctx, 'open argument file', a, path, where(opens[0]))
    readonly(ctx, 'open', ev0)
    DB = opens[0].result
    N.DB = DB
    factory(ctx, prog, N, path)
    # opening nothing creates a database
    st2 = State()
    try:
        db2, ev = N.call('opened', [NONE], st2)
        generic(ctx, N, 'create database', ev)
        o2 = [e for e in ev if native(e) and e.name == 'ucis_Open']
        if len(o2) == 1 and o2[0].args:
            x = o2[0].args[0]
            ctx.decide('argument', 'create database argument file', x is NONE, 'is %s instead of no file' % show(x)[:50], where(o2[0]), und=bool(unknown(x)))
    except Abort as e:
        ctx.und('own-function', 'create database', str(e))
    name, src = mk('sym', 'aname'), mk('sym', 'asrc')
    inst = enumc(prog, 'ucis.scope_type_t.ScopeTypeT', 'INSTANCE')
    one_ = const(1)
    kinds, handles = {'database': db}, {'database': None}
    for k, parent, op, args in [
            ('file', 'database', 'createFileHandle', lambda: [name, name]),
            ('node', 'database', 'createHistoryNode', lambda: [NONE, name, name, one_]),
            ('scope', 'database', 'createScope', lambda: [name, src, one_, one_, inst, ZERO]),
            ('inst', 'scope', 'createInstance', lambda: [name, src, one_, one_, inst, kinds['scope'], ZERO]),
            ('covergroup', 'inst', 'createCovergroup', lambda: [name, src, one_, one_]),
            ('ci', 'covergroup', 'createCoverInstance', lambda: [name, src, one_, one_]),
            ('coverpoint', 'covergroup', 'createCoverpoint', lambda: [name, src, one_, one_]),
            ('cross', 'covergroup', 'createCross', lambda: [name, src, one_, one_, mk('sym', 'apoints')])]:
        if parent not in kinds:
            continue
        s2 = st.fork()
        try:
            o, ev = N.op(kinds[parent], op, args(), s2)
        except Abort as e:
            ctx.und('own-function', op, str(e))
            continue
        b = [e for e in ev if native(e) and e.name.startswith('ucis_Create')]
        if o.op != 'ref' or s2.dead or not b:
            rz = [e for e in ev if e.kind in ('raise', 'badcall', 'noattr')]
            if b and s2.dead and rz and not any(unknown(c) for c, t in rz[-1].guards):
                ctx.viol('own-function', '%s of %s' % (op, parent), 'always fails after calling %s' % b[-1].name, where(rz[-1]))
            elif b and not s2.dead and o.op == 'const':
                ctx.viol('result', '%s of %s' % (op, parent), 'returns %s instead of the new object' % show(o), where(b[-1]))
            continue
        st = s2
        kinds[k], handles[k] = o, b[-1].result
    # the attribute that holds a native handle
    N.hattr = {}
    for k, o in kinds.items():
        for key, v in st.m.items():
            if key[0] == 'f' and key[1] is o and v is handles[k] and v is not None:
                N.hattr.setdefault(k, set()).add(key[2])
    c = prog.cls(L + 'lib_cover_type.LibCoverType')
    if c is not None:
        handles['covertype'] = mk('sym', 'coverhandle')
        try:
            kinds['covertype'], _ = N.run(lambda s, n: I.instantiate(c, [DB, handles['covertype']], {}, s, n), st)
        except Abort:
            handles.pop('covertype')
    N.kinds, N.handles = kinds, handles
    for spec in OPS:
        for k in spec[1].split():
            if k not in kinds or k not in handles:
                ctx.und('own-function', '%s of %s' % (spec[0], k), 'no object of this kind could be made')
                continue
            operation(ctx, prog, N, st, k, spec)
    getters(ctx, prog, N, st)
    omitted(ctx, prog, N, st)
    for label, kind, op, itf, scan, extra, api in [
            ('scopes', 'scope', 'scopes', 'ucis_ScopeIterate', 'ucis_ScopeScan', 'scopemask', 'ucis.scope.Scope'),
            ('scopes of the database', 'database', 'scopes', 'ucis_ScopeIterate', 'ucis_ScopeScan', 'scopemask', 'ucis.scope.Scope'),
            ('historyNodes', 'database', 'historyNodes', 'ucis_HistoryIterate', 'ucis_HistoryScan', 'kind', 'ucis.history_node.HistoryNode')]:
        iteration(ctx, prog, N, st, label, kind, op, itf, scan, extra, api)
    # whatever else the backend's classes do with the library
    rest(ctx, prog, N, st)


def omitted(ctx, prog, N, st0):
    """Arguments left out of write mean the whole database; the list of history nodes is what the iterator yields."""
    db = N.kinds['database']
    c = N.I.class_of(db)
    st = st0.fork()
    f = mk('sym', 'afile')
    try:
        r, ev = N.op(db, 'write', [f], st)
    except Abort as e:
        ctx.und('argument', 'write with defaults', str(e))
        ev = []
    for e in ev:
        if native(e) and e.name == 'ucis_Write':
            p = N.protos.get('ucis_Write')
            if not p or p == '?' or len(e.args or ()) != 5 or e.kw:
                break
            for i, nm, want, what in ((2, 'scope', (None,), 'the whole database'), (3, 'recurse', (1, True), 'everything below'), (4, 'covertype', (-1,), 'every cover type')):
                x = e.args[i]
                ctx.decide('argument', 'write with defaults, %s' % nm, x.op == 'const' and x.a[0] in want and (x.a[0] is None) == (want[0] is None),
                           'is %s instead of %s' % (show(x)[:40], what), where(e), und=x.op != 'const')
    fi = prog.find_method(c, 'getHistoryNodes') if c is not None else None
    if fi is not None and fi.module.name.startswith('ucis.lib'):
        st = st0.fork()
        w = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.qualname)
        k = mk('sym', 'akind')
        try:
            r, ev = N.op(db, 'getHistoryNodes', [k], st)
        except Abort as e:
            ctx.und('result', 'getHistoryNodes', str(e))
            return
        if r.op == 'const' and not st.dead:
            ctx.viol('result', 'getHistoryNodes', 'is %s instead of the nodes' % show(r), w)
            return
        its = [e for e in ev if native(e) and e.name == 'ucis_HistoryIterate']
        if its:
            ctx.decide('argument', 'getHistoryNodes kind', its[0].args and its[0].args[-1] is k, 'is %s' % show(its[0].args[-1])[:40], where(its[0]), und=bool(unknown(its[0].args[-1])))
        else:
            ctx.decide('own-function', 'getHistoryNodes', False, 'reads no history', w, und=st.dead or any(e.kind == 'rec' for e in ev))


def factory(ctx, prog, N, path):
    """LibFactory opens the file it is given, and nothing when no library is loaded."""
    m = prog.modules.get(L + 'libucis')
    if m is None or '_lib' not in m.bind:
        return                                       # the loaded library is kept elsewhere
    c = prog.cls(L + 'LibFactory.LibFactory')
    fi = prog.find_method(c, 'create') if c is not None else None
    if fi is None:
        return
    w0 = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.qualname)
    st = State()
    st.assume(not_(isnone(path)), 'given')
    st.assume(truth(path), 'given')
    lib = mk('sym', 'library')                       # the state load_ucis_library leaves behind
    st.assume(not_(isnone(lib)), 'given')
    st.assume(truth(lib), 'given')
    st.m[('g', L + 'libucis', '_lib')] = lib
    try:
        o, ev = N.run(lambda s, n: N.I.call(N.I.getattr_(mk('cls', c), 'create', s, n), [path], {}, s, n), st)
    except Abort as e:
        ctx.und('own-function', 'LibFactory.create', str(e))
        return
    opens = [e for e in ev if native(e) and e.name == 'ucis_Open']
    lab = 'LibFactory.create'
    if not opens:
        odd = any(e.kind == 'rec' or e.kind == 'call' and not native(e) and not e.name.startswith(('get_', 'ucis.lib.libucis')) and not e.pure for e in ev)
        (ctx.und if odd else ctx.viol)('own-function', lab, 'does not open a database', w0)
        return
    a = opens[0].args[0] if opens[0].args else None
    if a is not None:
        judge_str(ctx, lab + ' argument file', given(a, path, True), path, where(opens[0]), ev)
    r = o
    if r.op == 'const':
        ctx.viol('result', lab, 'returns %s instead of the database' % show(r), w0)
    else:
        ctx.decide('result', lab, r.op == 'ref' and any(v is opens[0].result for k, v in st.m.items() if k[0] == 'f' and k[1] is r), 'is not the database opened', w0, und=r.op != 'ref' or True)


def generic(ctx, N, label, ev):
    """Function known, arity, database handle first."""
    for e in ev:
        if not native(e):
            continue
        w = where(e)
        p = N.protos.get(e.name)
        if p is None:
            ctx.viol('known', '%s: %s' % (label, e.name), 'no such function is bound by the loader', w)
            continue
        if p == '?':
            ctx.und('known', '%s: %s' % (label, e.name), 'binding not resolved', w)
            continue
        ctx.ok('known', '%s: %s' % (label, e.name), '', w)
        n = len(p[1])
        if any(a.op == 'star' for a in e.args or ()):
            ctx.und('arity', '%s: %s' % (label, e.name), 'unpacked arguments', w)
            continue
        if p[2] is not None:
            # parameters marked as output only are filled in by ctypes
            n -= sum(1 for f in p[2] if f.a and f.a[0].op == 'const' and isinstance(f.a[0].a[0], int) and f.a[0].a[0] & 3 == 2)
        got = len(e.args or ()) + len(e.kw or {})
        ctx.decide('arity', '%s: %s' % (label, e.name), got == n, 'passes %d arguments, the prototype declares %d' % (got, n), w)
        if e.kw:
            for k in e.kw:
                if p[2] is not None and not any(len(f.a) > 1 and f.a[1] is const(k) for f in p[2]):
                    ctx.viol('arity', '%s: %s' % (label, e.name), 'no parameter %s' % k, w)
    for e in ev:
        if e.kind == 'badcall' and e.name and 'ucis.lib' in str(e.name):
            ctx.viol('own-function', label, 'call of %s does not fit its parameters' % str(e.name).rsplit('.', 1)[-1], where(e))


def readonly(ctx, label, ev):
    bad = [e for e in ev if native(e) and e.name.startswith(WRITES)]
    if bad:
        ctx.viol('read-only', label, 'calls %s' % bad[0].name, where(bad[0]))
    else:
        ctx.ok('read-only', label)


def args_of(N, e):
    """Parameter -> value."""
    decl = PROTO.get(e.name, [])
    d = dict(zip(decl, e.args or ()))
    p = N.protos.get(e.name)
    if e.kw and p not in (None, '?') and p[2] is not None:
        for i, f in enumerate(p[2]):
            for k, v in e.kw.items():
                if len(f.a) > 1 and f.a[1] is const(k) and i < len(decl):
                    d[decl[i]] = v
    return d


def cond_ok(e, base, syms):
    """Conditions under which a native call happens, beyond not failing before."""
    out = []
    for c, t in e.guards:
        if t in ('raise',) or c in base:
            continue
        out.append(c)
    return out


def operation(ctx, prog, N, st0, kind, spec):
    name, _, op, params, fn, wants, result = spec
    I = N.I
    o = N.kinds[kind]
    c = I.class_of(o)
    label = '%s of %s' % (name, kind)
    if c is not None and prog.find_method(c, op) is None:
        ctx.und('own-function', label, 'no such operation')
        return
    st = st0.fork()
    syms = {p: mk('sym', p) for p in params.split()}
    args = []
    hs = {}
    for p in params.split():
        if ('h', p) in wants.values():
            # an object of this database, or none
            k = 'node' if p == 'parent' else 'scope'
            if k not in N.kinds and p == 'du_scope':
                ctx.und('own-function', label, 'no %s could be made' % k)
                return
            hs[p] = (N.kinds.get(k), N.handles.get(k))
    variants = [None]
    opt = [p for p in hs if p != 'du_scope']
    if opt:
        variants = ['given', 'none'] if all(hs[p][0] is not None for p in opt) else ['none']
    for v in variants:
        st = st0.fork()
        a = []
        for p in params.split():
            if p in hs:
                a.append(NONE if v == 'none' and p in opt else hs[p][0])
            else:
                a.append(syms[p])
        base = {c for c, t in st.pc}
        try:
            r, ev = N.op(o, op, a, st)
        except Abort as ex:
            ctx.und('own-function', label, str(ex))
            continue
        lab = label if v is None else '%s (%s %s)' % (label, opt[0], v)
        one(ctx, prog, N, st, lab, kind, spec, syms, hs if v != 'none' else {p: x for p, x in hs.items() if p not in opt}, r, ev, base)


def one(ctx, prog, N, st, label, kind, spec, syms, hs, r, ev, base):
    name, _, op, params, fn, wants, result = spec
    I = N.I
    fi = prog.find_method(I.class_of(N.kinds[kind]), op)
    w0 = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.qualname) if fi is not None else ''
    nat = [e for e in ev if native(e)]
    if st.dead and not nat:
        rz = [e for e in ev if e.kind == 'raise']
        t = ' '.join(show(a) for e in rz for a in (e.args or ())) + ' '.join(str(e.name) for e in rz)
        if any(x in t for x in ('NotImplementedError', 'UnimplError')):
            ctx.ok('own-function', label, 'not implemented', w0)
        else:
            ctx.viol('own-function', label, 'always fails', where(rz[0]) if rz else w0)
        return
    generic(ctx, N, label, ev)
    own = [e for e in nat if e.name == fn]
    main = [e for e in own if not (fn.startswith('ucis_Set') and result is not None)]
    if not main:
        other = [e for e in nat]
        if any(e.kind == 'rec' for e in ev):
            ctx.und('own-function', label, 'recursion', w0)
        elif other:
            ctx.viol('own-function', label, 'calls %s instead of %s' % (other[0].name, fn), where(other[0]))
        else:
            ctx.viol('own-function', label, 'does not call %s' % fn, w0)
        return
    if len(main) > 1:
        conds = [and_(cond_ok(e, base, syms)) for e in main]
        if not (len(main) == 2 and conds[0] is not_(conds[1])):
            ctx.viol('own-function', label, 'calls %s %d times' % (fn, len(main)), where(main[1]))
            return
    N.decided += 1
    for e in main:
        cs = cond_ok(e, base, syms)
        if e.loops or (cs and len(main) == 1):
            if any(unknown(c) for c in cs):
                ctx.und('own-function', label, 'condition %s' % show(cs[0])[:60], where(e))
            else:
                ctx.viol('own-function', label, 'calls %s only when %s' % (fn, show(cs[0])[:60] if cs else 'iterating'), where(e))
            return
    if st.dead:
        rz = [e for e in ev if e.kind in ('raise', 'badcall', 'noattr')]
        if rz and not any(unknown(c) for c, t in rz[-1].guards if c not in base):
            ctx.viol('own-function', label, 'always fails after calling %s' % fn, where(rz[-1]))
            return
    news = [e.result for e in main]
    ctx.ok('own-function', label, fn, where(main[0]))
    # initial property values of a new object are part of creating it
    creating = fn.startswith('ucis_Create')
    for e in nat:
        if e in main:
            continue
        d = args_of(N, e)
        if creating and e.name.startswith('ucis_Set') and any(given(d['obj'], h, True) is h for h in news if 'obj' in d):
            h = d.get('db')
            ctx.decide('handle', '%s: %s database' % (label, e.name), h is N.DB, 'is %s' % show(h)[:50] if h is not None else 'missing', where(e))
            continue
        ctx.viol('own-function', label, 'also calls %s' % e.name, where(e))
    if not any(e.name.startswith(WRITES) for e in main) and fn not in ('ucis_Write', 'ucis_Close'):
        readonly(ctx, label, ev)
    for e in main:
        arguments(ctx, prog, N, st, label, kind, e, wants, syms, hs, ev)
    res(ctx, prog, N, st, label, kind, spec, r, main[0], ev, syms)


def want_handle(N, kind, fn, p):
    if p == 'db':
        return N.DB
    h = N.handles[kind]
    if kind == 'database':
        return N.DB if p == 'obj' else NONE
    return h


def arguments(ctx, prog, N, st, label, kind, e, wants, syms, hs, ev):
    d = args_of(N, e)
    w = where(e)
    for p, v in d.items():
        lab = '%s argument %s' % (label, p)
        if p in wants:
            value(ctx, prog, N, st, lab, wants[p], v, syms, hs, ev, e)
        elif p == 'db' or p in SELF:
            x = want_handle(N, kind, e.name, p)
            v = given(v, x, True) if x is not NONE else v
            if v is x:
                ctx.ok('handle', lab, show(x)[:60], w)
            elif v.op == 'ref':
                ctx.viol('handle', lab, 'is a Python object instead of the handle of the %s' % ('database' if p == 'db' else 'object operated on'), w)
            elif unknown(v):
                ctx.und('handle', lab, show(v)[:60], w)
            else:
                ctx.viol('handle', lab, 'is %s instead of the handle of the %s' % (name_of(N, v), 'database' if p == 'db' else kind), w)
        elif p == 'flags':
            ctx.ok('argument', lab, show(v)[:40], w)
        else:
            ctx.ok('argument', lab, 'not decided by the operation: %s' % show(v)[:40], w)
    for p in wants:
        if p not in d:
            ctx.und('argument', '%s argument %s' % (label, p), 'not among the arguments', w)


def name_of(N, v):
    for k, h in N.handles.items():
        if h is not None and v is h:
            return 'the handle of the %s' % k
    if v is N.DB:
        return 'the database handle'
    return show(v)[:60]


def foreign(v, p, ev):
    """What v stands for when it has nothing to do with parameter p, else None."""
    calls = {e.result: str(e.name).rsplit('.', 1)[-1].rsplit(':', 1)[-1] for e in ev if e.kind == 'call' and e.result is not None}
    out = []
    for x in leaves(v):
        if x is NONE:
            continue
        y = encoded(x)
        if y is not None and y.op == 'sym' and y is not p:
            out.append('the text of ' + show(y))
        elif x.op == 'sym' and x is not p:
            out.append(show(x))
        elif x.op == 'const':
            out.append(show(x))
        elif calls.get(x) in ('byref', 'pointer', 'addressof'):
            a = [e.args[0] for e in ev if e.kind == 'call' and e.result is x and e.args]
            t = ' '.join(show(g) for e in ev if a and e.recv is a[0] and e.kind == 'create' for g in (e.args or ()))
            if p is not None and show(p) in t or not a or a[0].op != 'ref':
                return None
            out.append('a record')
        else:
            return None
    return ' or '.join(sorted(set(out))) or None


OPTIONAL = ('canonical_name', 'workdir')     # strings an operation may be called without


def judge_str(ctx, lab, v, p, w, ev=()):
    x = encoded(v)
    if x is p:
        ctx.ok('argument', lab, 'C string of %s' % show(p), w)
    elif v is p:
        ctx.viol('argument', lab, 'a Python string is passed where a C string is declared', w)
    elif x is not None and not unknown(x):
        ctx.viol('argument', lab, 'is the text of %s instead of %s' % (show(x)[:50], show(p)), w)
    elif foreign(v, p, ev) is not None:
        ctx.viol('argument', lab, 'is %s instead of %s' % (foreign(v, p, ev), show(p)), w)
    elif unknown(v) or v.op == 'ite' or p in set(subterms(v)):
        ctx.und('argument', lab, show(v)[:60], w)
    else:
        ctx.viol('argument', lab, 'is %s instead of %s' % (show(v)[:50], show(p)), w)


def value(ctx, prog, N, st, lab, want, v, syms, hs, ev, e):
    w = where(e)
    k, n = want
    p = syms.get(n) if isinstance(n, str) else None

    def bad(msg):
        if unknown(v):
            ctx.und('argument', lab, show(v)[:60], w)
        else:
            ctx.viol('argument', lab, msg, w)
    if k == 'p':
        if v is p or same(v, p):
            ctx.ok('argument', lab, n, w)
        elif p in set(subterms(v)) and v.op != 'sym':
            ctx.und('argument', lab, show(v)[:60], w)
        else:
            bad('is %s instead of %s' % (show(v)[:50], n))
    elif k == 's':
        judge_str(ctx, lab, given(v, p, True), p, w, ev)
        x = given(v, p, False)
        if x is v and n in OPTIONAL and encoded(v) is p:
            ctx.viol('argument', lab + ' (none given)', 'fails when no %s is given' % n, w)
        if x is not v and x is not NONE:
            ctx.viol('argument', lab + ' (none given)', 'is %s' % show(x)[:50], w) if encoded(x) is None else ctx.ok('argument', lab + ' (none given)', show(x)[:40], w)
    elif k == 'h':
        if n in hs:
            obj, h = hs[n]
            x = v
            if x is h:
                ctx.ok('handle', lab, 'handle of %s' % n, w)
            elif x is obj:
                ctx.viol('handle', lab, 'is a Python object instead of the native handle of %s' % n, w)
            elif unknown(x):
                ctx.und('handle', lab, show(x)[:60], w)
            else:
                ctx.viol('handle', lab, 'is %s instead of the native handle of %s' % (name_of(N, x), n), w)
        else:
            ctx.decide('handle', lab, v is NONE, 'is %s when no %s is given' % (show(v)[:50], n), w, und=bool(unknown(v)))
    elif k == 'c':
        if v is n or same_val(v, n):
            ctx.ok('argument', lab, show(n), w)
        else:
            bad('is %s instead of %s' % (show(v)[:50], show(n)))
    elif k in ('e', 'i', 's:'):
        q = {'e': 'ucis.scope_type_t.ScopeTypeT', 'i': 'ucis.int_property.IntProperty', 's:': 'ucis.str_property.StrProperty'}[k]
        m = enumc(prog, q, n)
        if v is m or same_val(v, m):
            ctx.ok('argument', lab, n, w)
        else:
            bad('is %s instead of %s' % (show(v)[:50], n))
    elif k == 'flag':
        good = (p, mk('truth', p), truth(p), ite(truth(p), ONE_(), ZERO), ite(truth(p), TRUE, FALSE), mk('op', 'int', p), mk('op', 'int', truth(p)), mk('op', 'bool', p))
        if v in good or (v.op == 'ite' and v.a[0] in (truth(p), p, not_(truth(p))) and {cval(v.a[1]), cval(v.a[2])} == {0, 1} and (cval(v.a[1]) == 1) == (v.a[0] is not not_(truth(p)))):
            ctx.ok('argument', lab, n, w)
        elif v.op == 'ite' and v.a[1].op == 'const' and v.a[2].op == 'const':
            bad('is %s instead of 1 when %s holds, 0 otherwise' % (show(v)[:60], n))
        elif p in set(subterms(v)):
            ctx.und('argument', lab, show(v)[:60], w)
        else:
            bad('is %s instead of %s' % (show(v)[:50], n))
    elif k == 'len':
        if v is mk('len', p) or show(v) == 'len(%s)' % show(p):
            ctx.ok('argument', lab, 'number of points', w)
        elif p in set(subterms(v)):
            ctx.und('argument', lab, show(v)[:60], w) if v.op != 'op' else bad('is %s instead of the number of points' % show(v)[:60])
        else:
            bad('is %s instead of the number of points' % show(v)[:50])
    elif k == 'pts':
        points(ctx, N, lab, v, p, ev, e)
    elif k == 'src':
        x = given(v, p, True)
        rec = N.record(x, ev, e)
        if x is NONE or (rec is None and not unknown(x) and x.op in ('const', 'sym', 'attr')):
            ctx.viol('argument', lab, 'is %s instead of the source information given' % ('nothing' if x is NONE else show(x)[:50]), w)
        elif rec is None and foreign(x, p, ev) is not None:
            ctx.viol('argument', lab, 'is %s instead of the source information given' % foreign(x, p, ev), w)
        elif rec is None:
            ctx.und('argument', lab, show(x)[:60], w)
        else:
            F = N.hattr.get('file') or {'fh'}
            file = mk('attr', p, 'file')
            fields(ctx, N, lab, rec, L + 'lib_source_info._LibSourceInfo',
                   {'filehandle': [mk('attr', file, f) for f in F], 'line': [mk('attr', p, 'line')], 'token': [mk('attr', p, 'token')]}, w)
        y = given(v, p, False)
        if y is not x:
            ctx.decide('argument', lab + ' (none given)', y is NONE, 'is %s' % show(y)[:50], w, und=bool(unknown(y)))
        elif rec is not None:
            made = [q for q in ev if q.kind == 'create' and q.recv is rec[3]]
            if made and p in {z for q in made for a in q.args or () for z in subterms(a)} and \
                    not any(z is isnone(p) or z is truth(p) for q in made for c, t in q.guards for z in subterms(c)):
                ctx.viol('argument', lab + ' (none given)', 'fails when no source information is given', w)
    elif k in ('test', 'data', 'bin'):
        rec = N.record(v, ev, e)
        if rec is None:
            x = [q.args[0] for q in ev if q.kind == 'call' and q.result is v and q.args]
            f = foreign(v, p, ev) if not x or x[0].op == 'const' else None
            if x and x[0].op == 'const':
                ctx.viol('argument', lab, 'is the address of %s instead of a record' % show(x[0]), w)
            elif f is not None:
                ctx.viol('argument', lab, 'is %s instead of a record' % f, w)
            else:
                ctx.und('argument', lab, show(v)[:60], w)
            return
        if k == 'test':
            exp = {f: [mk('attr', p, 'user' if f == 'username' else f)] for f, t in LAYOUT[L + 'lib_test_data.LibTestData']}
            fields(ctx, N, lab, rec, L + 'lib_test_data.LibTestData', exp, w)
        elif k == 'data':
            exp = {f: [mk('attr', p, f)] for f, t in LAYOUT[L + 'lib_cover_data.LibCoverData'] if f != 'data'}
            fields(ctx, N, lab, rec, L + 'lib_cover_data.LibCoverData', exp, w)
            union(ctx, prog, N, lab, rec, ev, mk('attr', p, 'data'), mk('attr', p, 'flags'), w)
        else:
            fields(ctx, N, lab, rec, L + 'lib_cover_data.LibCoverData', {'type': [syms['kind']]}, w)
            union(ctx, prog, N, lab, rec, ev, syms['count'], None, w)
    elif k == 'out':
        rec = N.record(v, ev, e)
        c = prog.cls(n)
        if rec is None or rec[0] is None:
            ctx.und('argument', lab, show(v)[:60], w)
        else:
            ctx.decide('record', lab, rec[0] is c and not rec[4], 'is a %s%s' % (rec[0].name, ' passed by value' if rec[4] else ''), w)


def same(v, p):
    """v is p up to a conversion to the same number."""
    return v.op == 'op' and v.a[0] in ('int',) and v.a[1] is p or v.op == 'call' and v.a[0] is None and v.a[1] == 'int' and v.a[2] == (p,)


def ONE_():
    return const(1)


def fields(ctx, N, lab, rec, q, exp, w):
    c, vals, sets, r, byvalue = rec
    if c is None or c.qualname != q:
        ctx.und('record', lab, 'record of class %s' % (c.name if c else '?'), w)
        return
    if byvalue:
        ctx.viol('record', lab, 'the record itself is passed instead of its address', w)
        return
    for f, want in exp.items():
        v = vals.get(f)
        if v is None:
            ctx.viol('record', '%s.%s' % (lab, f), 'is not filled in', w)
            continue
        ls = leaves(v)
        if any(x in want or encoded(x) in want for x in ls) and all(x in want or encoded(x) in want or x.op == 'const' for x in ls):
            ctx.ok('record', '%s.%s' % (lab, f), show(v)[:60], w)
        elif unknown(v) or any(y in set(subterms(v)) for y in want):
            ctx.und('record', '%s.%s' % (lab, f), show(v)[:60], w)
        else:
            ctx.viol('record', '%s.%s' % (lab, f), 'is %s instead of %s' % (show(v)[:50], show(want[0])), w)


def union(ctx, prog, N, lab, rec, ev, data, flags, w):
    c, vals, sets, r, byvalue = rec
    v = vals.get('data')
    if v is None:
        ctx.viol('record', lab + '.data', 'is not filled in', w)
        return
    if v.op != 'ref':
        ctx.und('record', lab + '.data', show(v)[:60], w)
        return
    got = [e for e in ev if e.kind == 'setattr' and e.recv is v]
    if not got:
        cr = [e for e in ev if e.kind == 'create' and e.recv is v and (e.args or e.kw)]
        if cr:
            ctx.und('record', lab + '.data', 'filled by the constructor', w)
        else:
            ctx.viol('record', lab + '.data', 'is not filled in', w)
        return
    _missing_width(ctx, lab, got, flags, w)
    done = set()
    if flags is not None and all(e.name in UNION for e in got):
        # data of each width: which member ends up set
        others = 0
        for n in ('HAS_GOAL', 'HAS_WEIGHT'):
            others |= cval(enumc(prog, 'ucis.cover_flags_t.CoverFlagsT', n)) or 0
        for m in UNION:
            bit = cval(enumc(prog, 'ucis.cover_flags_t.CoverFlagsT', UNION[m]))
            for word, also in ((bit, ''), (bit | others, ' with every other flag')):
                hit, odd = [], False
                for e in got:
                    cs = [truth(at(g, flags, word)) for g, t in e.guards if flags in set(subterms(g))]
                    if any(c is FALSE for c in cs):
                        continue
                    odd = odd or any(c is not TRUE for c in cs)
                    hit.append(e)
                if odd:
                    done.discard(m)
                    break
                done.add(m)
                if not hit:
                    ctx.viol('record', '%s.data of width %s%s' % (lab, UNION[m], also), 'is not carried', w)
                elif hit[-1].name != m:
                    ctx.viol('record', '%s.data of width %s%s' % (lab, UNION[m], also), 'ends in the field %s' % hit[-1].name, where(hit[-1]))
                else:
                    ctx.ok('record', '%s.data of width %s%s' % (lab, UNION[m], also), '', where(hit[-1]))
    for e in got:
        x = e.args[0]
        if x is not data and not (x.op in ('op', 'call') and data in set(subterms(x))):
            if unknown(x):
                ctx.und('record', '%s.data.%s' % (lab, e.name), show(x)[:60], where(e))
            else:
                ctx.viol('record', '%s.data.%s' % (lab, e.name), 'is %s instead of %s' % (show(x)[:50], show(data)), where(e))
            continue
        if flags is not None and e.name in UNION and len(done) < len(UNION):
            bit = enumc(prog, 'ucis.cover_flags_t.CoverFlagsT', UNION[e.name])
            # the flag has to be tested positively on the way to the assignment
            pos, neg = set(), set()
            for g, t in e.guards:
                for cnd in conj([g]):
                    b, s = flagtest(cnd, flags)
                    if b is not None:
                        (pos if s else neg).add(cval(b))
            if cval(bit) in pos:
                ctx.ok('record', '%s.data.%s' % (lab, e.name), UNION[e.name], where(e))
            elif pos:
                ctx.viol('record', '%s.data.%s' % (lab, e.name), 'is set for data of another width (%s)' % ', '.join(map(str, sorted(pos))), where(e))
            elif not any(unknown(g) or flags in set(subterms(g)) for g, t in e.guards if t != 'raise'):
                ctx.viol('record', '%s.data.%s' % (lab, e.name), 'is set whatever the width of the data', where(e))
            else:
                ctx.und('record', '%s.data.%s' % (lab, e.name), 'condition %s' % show(and_([g for g, t in e.guards]))[:60], where(e))
        else:
            ctx.ok('record', '%s.data.%s' % (lab, e.name), show(x)[:50], where(e))


def _missing_width(ctx, lab, got, flags, w):
    if flags is not None and all(e.name in UNION for e in got):
        for m in UNION:
            if m not in {e.name for e in got}:
                ctx.viol('record', '%s.data.%s' % (lab, m), 'data of the width %s is not carried' % UNION[m], w)


def at(g, flags, word):
    """The condition for a given flag word, enumeration members as their numbers."""
    mp = {flags: const(word)}
    for x in subterms(g):
        if x.op == 'const' and not isinstance(x.a[0], (bool, str, bytes, type(None))) and isinstance(cval(x), int):
            mp[x] = const(int(cval(x)))
    return subst(g, mp)


def flagtest(c, flags):
    """(bit, holds) for a test of flags & bit."""
    if c.op == 'not':
        b, s = flagtest(c.a[0], flags)
        return b, not s
    if c.op in ('truth',):
        return flagtest(c.a[0], flags)
    if c.op == 'op' and c.a[0] == '&' and flags in c.a[1:]:
        o = [x for x in c.a[1:] if x is not flags]
        if len(o) == 1 and o[0].op == 'const':
            return o[0], True
    if c.op == 'op' and c.a[0] in ('==', '!=') and len(c.a) == 3:
        for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            b, s = flagtest(x, flags)
            if b is not None and y.op == 'const':
                z = cval(y)
                if z == 0:
                    return b, s == (c.a[0] == '!=')
                if z == cval(b):
                    return b, s == (c.a[0] == '==')
    if c.op == 'op' and c.a[0] == '>' and len(c.a) == 3 and cval(c.a[2]) == 0:
        return flagtest(c.a[1], flags)
    return None, True


def points(ctx, N, lab, v, p, ev, e):
    w = where(e)
    for x in ev:
        if x.kind == 'call' and x.result is v and x.args and str(x.name).rsplit('.', 1)[-1].rsplit(':', 1)[-1] in ('byref', 'pointer', 'addressof', 'cast'):
            v = x.args[0]
            break
    H_ = N.hattr.get('coverpoint') or {'obj'}
    sets = [x for x in ev if x.kind == 'call' and x.name == '__setitem__' and x.recv is v]
    mk_ = [x for x in ev if x.kind == 'call' and x.result is v]
    vals = []
    for x in sets:
        vals.append((x.args[0], x.args[1], x.loops, [c for c, t in x.guards if set(free_loops(c)) & set(x.loops)], x))
    if mk_ and mk_[0].args:
        for a in mk_[0].args:
            if a.op == 'star' and a.a[0].op == 'ref':
                for q in a.a[0].a[0].events:
                    if q.value is not None:
                        vals.append((None, q.value, q.loops, [c for c, t in q.guards if set(free_loops(c)) & set(q.loops)], q))
            elif a.op == 'star':
                vals.append((None, a.a[0], (), [], mk_[0]))
    if not vals:
        if foreign(v, p, ev) is not None:
            ctx.viol('argument', lab, 'is %s instead of the points' % foreign(v, p, ev), w)
        elif mk_ and not mk_[0].args and not mk_[0].kw and not any(x.kind == 'call' and x is not e and v in (x.args or ()) and
                                                                  str(x.name).rsplit('.', 1)[-1].rsplit(':', 1)[-1] not in ('byref', 'pointer') for x in ev):
            ctx.viol('argument', lab, 'the array of handles is never filled', w)
        else:
            ctx.und('argument', lab, show(v)[:60], w)
        return
    for i, x, loops, conds, q in vals:
        ok = x.op == 'attr' and x.a[1] in H_ and x.a[0].op in ('elem', 'index')
        if ok and x.a[0].op == 'elem':
            l = x.a[0].a[0]
            ok = strip_it(l.domain) is p and (i is None or (i.op == 'idx' and i.a[0] is l))
            if not ok and strip_it(l.domain) is p and i is not None and not unknown(i) and i.op in ('const', 'op'):
                ctx.viol('argument', lab, 'the handle of point %s is stored at position %s' % (show(x.a[0])[:20], show(i)[:30]), where(q))
                return
        if ok and not [c for c in conds]:
            ctx.ok('argument', lab, 'handles of the points in order', w)
        elif x.op == 'attr' and x.a[1] in H_ and x.a[0].op == 'elem' and strip_it(x.a[0].a[0].domain).op == 'slice' and p in set(subterms(x.a[0].a[0].domain)):
            ctx.viol('argument', lab, 'holds only the handles of %s' % show(strip_it(x.a[0].a[0].domain))[:50], where(q))
        elif x.op == 'elem' and strip_it(x.a[0].domain) is p:
            ctx.viol('argument', lab, 'holds Python objects instead of native handles', where(q) if q is not None else w)
        else:
            ctx.und('argument', lab, 'holds %s' % show(x)[:50], w)


def res(ctx, prog, N, st, label, kind, spec, r, e, ev, syms):
    name, _, op, params, fn, wants, result = spec
    I = N.I
    w = where(e)
    h = e.result
    if result is None:
        return
    if result == 'value':
        if r is h:
            ctx.ok('result', label, '', w)
        else:
            ctx.decide('result', label, False, 'returns %s' % show(r)[:60], w, und=bool(unknown(r)) or h in set(subterms(r)))
        return
    if result == 'bool':
        if r in (eq(h, const(1)), not_(eq(h, ZERO)), truth(h), mk('op', 'bool', h)) or r.op == 'ite' and r.a[1] is TRUE and r.a[2] is FALSE and r.a[0] in (eq(h, const(1)), truth(h)):
            ctx.ok('result', label, '', w)
        elif r in (not_(eq(h, const(1))), eq(h, ZERO), not_(truth(h))) or h not in set(subterms(r)) and not unknown(r):
            ctx.viol('result', label, 'returns %s' % show(r)[:60], w)
        else:
            ctx.und('result', label, show(r)[:60], w)
        return
    if result == 'name':
        x = given(r, h, True)
        if x.op == 'call' and x.a[1] == 'decode' and (x.a[0] is h or h in x.a[2]):
            ctx.ok('result', label, 'decoded text', w)
        elif x is h:
            ctx.viol('result', label, 'returns the bytes of the C string instead of its text', w)
        else:
            ctx.decide('result', label, False, 'returns %s' % show(x)[:60], w, und=bool(unknown(x)) or h in set(subterms(x)))
        return
    if r.op != 'ref':
        ctx.decide('result', label, False, 'returns %s' % show(r)[:60], w, und=r.op not in ('const',) or bool(unknown(r)))
        return
    if result in ('srcinfo', 'testdata'):
        d = args_of(N, e)
        rec = N.record(d.get('sourceinfo') or d.get('testdata'), ev, e)
        if rec is None:
            ctx.und('result', label, 'record not resolved', w)
            return
        if result == 'testdata':
            exp = {('user' if f == 'username' else f): f for f, t in LAYOUT[L + 'lib_test_data.LibTestData']}
        else:
            exp = {'line': 'line', 'token': 'token'}
            f = st.m.get(('f', r, 'file'))
            if f is not None and f.op == 'ref':
                vals = [v for k, v in st.m.items() if k[0] == 'f' and k[1] is f]
                if ctx.decide('result', label + ' file', mk('attr', rec[3], 'filehandle') in vals and N.DB in vals, 'does not stand for the file handle returned', w):
                    probe(ctx, prog, N, st, label + ' file', f, mk('attr', rec[3], 'filehandle'), w, 'file')
            else:
                ctx.und('result', label + ' file', show(f)[:50] if f is not None else 'none', w)
        for a, b in exp.items():
            v = st.m.get(('f', r, a))
            x = mk('attr', rec[3], b)
            if v is x or v is not None and v.op == 'call' and v.a[1] == 'decode' and x in set(subterms(v)):
                ctx.ok('result', '%s %s' % (label, a), b, w)
            elif v is None and r.a[0].cls is not None and prog.find_method(r.a[0].cls, a) is None and prog.find_method(r.a[0].cls, '__getattr__') is None and not unsure(r, ev):
                ctx.viol('result', '%s %s' % (label, a), 'is never set on the %s returned' % r.a[0].cls.name, w)
            elif v is None or unknown(v) or x in set(subterms(v)):
                ctx.und('result', '%s %s' % (label, a), show(v)[:50] if v is not None else 'not set', w)
            else:
                ctx.viol('result', '%s %s' % (label, a), 'is %s instead of the %s returned' % (show(v)[:50], b), w)
        return
    vals = [v for k, v in st.m.items() if k[0] == 'f' and k[1] is r]
    if result == 'index':
        if ctx.decide('result', label, h in vals and N.DB in vals and N.handles[kind] in vals, 'the index object does not hold the index returned and its scope', w):
            ref = N.kinds.get('scope')
            def names(o, x):
                return {k[2] for k, v in st.m.items() if k[0] == 'f' and k[1] is o and v is x}
            for what, x, y in (('database', N.DB, N.DB), ('scope', N.handles[kind], N.handles.get('scope'))):
                # an index is an object of the library like a scope is: the same attributes hold the same handles
                a, b = names(r, x), names(ref, y) if ref is not None else set()
                if a and b and not a & b and r.a[0].cls is not None and prog.cls(L + 'lib_obj.LibObj') in prog.mro(r.a[0].cls):
                    ctx.viol('result', '%s %s' % (label, what), 'the handle of the %s is kept as %s instead of %s' % (what, ', '.join(sorted(a)), ', '.join(sorted(b))), w)
        return
    api = 'ucis.file_handle.FileHandle' if result == 'file' else result
    c = prog.cls(api)
    if c is not None and r.a[0].cls is not None:
        ctx.decide('result', label + ' class', c in prog.mro(r.a[0].cls), 'is a %s, not a %s' % (r.a[0].cls.name, c.name), w)
    probe(ctx, prog, N, st, label, r, h, w, {'file': 'file', 'ucis.history_node.HistoryNode': 'node'}.get(result, 'scope'))


def unsure(r, ev):
    """the object may have been filled where the analysis does not see it"""
    return any(e.kind == 'call' and e.name in ('setattr', 'update', '__setattr__') or e.kind == 'rec' for e in ev) or \
        any(e.kind == 'call' and r in (e.args or ()) for e in ev)


def probe(ctx, prog, N, st, label, r, h, w, how):
    """The object returned operates on the handle the library returned."""
    op, args, fn, par = {'file': ('getFileName', [], 'ucis_GetFileName', 'filehandle'),
                         'node': ('getTestData', [], 'ucis_GetTestData', 'testhistorynode'),
                         'scope': ('setIntProperty', [mk('sym', 'i1'), mk('sym', 'i2'), mk('sym', 'i3')], 'ucis_SetIntProperty', 'obj')}[how]
    s2 = st.fork()
    try:
        _, ev = N.op(r, op, args, s2)
    except Abort as e:
        ctx.und('result', label, str(e), w)
        return
    es = [e for e in ev if native(e) and e.name == fn]
    if len(es) != 1:
        ctx.und('result', label, '%d calls of %s' % (len(es), fn), w)
        return
    d = args_of(N, es[0])
    x = d.get(par)
    x = given(x, h, True) if x is not None else None
    if x is h and d.get('db') is N.DB:
        ctx.ok('result', label, 'stands for the new handle', w)
    elif x is None or unknown(x):
        ctx.und('result', label, show(x)[:50] if x is not None else '', w)
    elif x is not h:
        ctx.viol('result', label, 'stands for %s instead of the handle returned' % name_of(N, x), w)
    else:
        ctx.viol('result', label, 'belongs to %s instead of the database' % name_of(N, d.get('db')), w)


def getters(ctx, prog, N, st0):
    """Property getters ask for the property of their own name."""
    base = [prog.cls(L + 'lib_obj.LibObj')]
    if base[0] is None:
        return
    opaque = {}
    for m in ('getIntProperty', 'getStringProperty'):
        if m in base[0].methods:
            opaque[base[0].methods[m].qualname] = m
    I = N.I
    for name, (kinds, prop, conv) in GETTERS.items():
        for kind in kinds.split():
            o = N.kinds.get(kind)
            if o is None:
                continue
            fi = prog.find_method(I.class_of(o), name)
            if fi is None or fi.module.name.split('.')[:2] != ['ucis', 'lib']:
                continue
            st = st0.fork()
            save = set(I.opaque_funcs)
            I.opaque_funcs |= set(opaque)
            label = '%s of %s' % (name, kind)
            try:
                r, ev = N.op(o, name, [], st)
            except Abort as e:
                ctx.und('own-function', label, str(e))
                continue
            finally:
                I.opaque_funcs.clear()
                I.opaque_funcs |= save
            w = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.qualname)
            es = [e for e in ev if e.kind == 'call' and str(e.name).rsplit('.', 1)[-1] in ('getIntProperty', 'getStringProperty')]
            if not es:
                if st.dead:
                    ctx.ok('own-function', label, 'not implemented', w)
                else:
                    ctx.und('own-function', label, show(r)[:60], w)
                continue
            e = es[0]
            a = list(e.args or ())
            if a and a[0] is o:
                a = a[1:]
            m = enumc(prog, 'ucis.str_property.StrProperty' if conv == 'str' else 'ucis.int_property.IntProperty', prop)
            if len(a) != 2:
                ctx.und('argument', label, '%d arguments' % len(a), w)
                continue
            ctx.decide('argument', label + ' property', a[1] is m or same_val(a[1], m) and a[1].op == 'const', 'asks for %s instead of %s' % (show(a[1])[:50], prop), w, und=bool(unknown(a[1])))
            h = e.result
            if conv == 'bool':
                if r in (not_(eq(h, const(1))), eq(h, ZERO), not_(truth(h))):
                    ctx.viol('result', label, 'returns %s' % show(r)[:60], w)
                elif r in (eq(h, const(1)), not_(eq(h, ZERO)), truth(h), mk('op', 'bool', h)):
                    ctx.ok('result', label, '', w)
                else:
                    ctx.und('result', label, show(r)[:60], w)
            else:
                ctx.decide('result', label, r is h, 'returns %s' % show(r)[:60], w, und=bool(unknown(r)) or h in set(subterms(r)))
    # the property getters themselves
    for q, m in opaque.items():
        fi = base[0].methods[m]
        st = st0.fork()
        o = N.kinds['scope']
        args = [mk('sym', 'coverindex'), mk('sym', 'property')]
        fn = 'ucis_' + m[0].upper() + m[1:]
        try:
            r, ev = N.op(o, m, args, st)
        except Abort as e:
            ctx.und('own-function', m, str(e))
            continue
        nat = [e for e in ev if native(e)]
        if not nat and st.dead:
            ctx.ok('own-function', m, 'not implemented')
            continue
        spec = (m, 'scope', m, 'coverindex property', fn, dict(coverindex=P('coverindex'), property=P('property')), 'value' if 'Int' in m else 'name')
        one(ctx, prog, N, st, '%s of scope' % m, 'scope', spec, {'coverindex': args[0], 'property': args[1]}, {}, r, ev, {c for c, t in st0.pc})


def iteration(ctx, prog, N, st0, label, kind, op, itf, scan, extra, api):
    I = N.I
    o = N.kinds[kind]
    st = st0.fork()
    m = mk('sym', 'mask')
    try:
        it, ev = N.op(o, op, [m], st)
    except Abort as e:
        ctx.und('iterator', label, str(e))
        return
    fi = prog.find_method(I.class_of(o), op)
    w0 = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.qualname) if fi is not None else ''
    nat = [e for e in ev if native(e)]
    its = [e for e in nat if e.name == itf]
    if st.dead:
        ctx.viol('own-function', label, 'always fails', w0) if any(e.kind in ('raise', 'badcall', 'noattr') for e in ev) else ctx.und('own-function', label, 'not resolved', w0)
        return
    if not its:
        wrong = [e for e in nat if e.name.endswith('Iterate')]
        if wrong:
            generic(ctx, N, label, ev)
            ctx.viol('own-function', label, 'calls %s instead of %s' % (wrong[0].name, itf), where(wrong[0]))
        elif it.op == 'ref' and it.a[0].cls is not None:
            try:
                _, ev1 = N.op(it, '__next__', [], st.fork())
            except Abort:
                ev1 = None
            if ev1 is not None and any(native(e) and e.name == scan for e in ev1) and not any(native(e) and e.name == itf for e in ev1):
                ctx.viol('own-function', label, '%s is never called' % itf, w0)
            else:
                ctx.und('own-function', label, '%s is not called when the iterator is made' % itf, w0)
        else:
            ctx.decide('own-function', label, it.op not in ('const',), 'returns %s' % show(it)[:30], w0)
            if it.op != 'const':
                ctx.und('own-function', label, '%s is not called when the iterator is made' % itf, w0)
        return
    generic(ctx, N, label, ev)
    readonly(ctx, label, ev)
    ctx.decide('own-function', label, len(its) == 1 and len(nat) == 1, 'calls %s' % ', '.join(e.name for e in nat), where(nat[-1]))
    d = args_of(N, its[0])
    for p, v in d.items():
        if p == extra:
            ctx.decide('argument', '%s argument %s' % (label, p), v is m or same(v, m), 'is %s instead of the mask given' % show(v)[:50], where(its[0]), und=bool(unknown(v)) or v.op not in ('const', 'sym', 'new', 'attr') and m in set(subterms(v)))
        else:
            x = want_handle(N, kind, itf, p)
            lab = '%s argument %s' % (label, p)
            if v is x:
                ctx.ok('handle', lab, show(x)[:50], where(its[0]))
            elif unknown(v):
                ctx.und('handle', lab, show(v)[:50], where(its[0]))
            else:
                ctx.viol('handle', lab, 'is %s instead of %s' % ('a Python object' if v.op == 'ref' else name_of(N, v), 'the handle of the %s' % kind if x is not NONE else 'none'), where(its[0]))
    H_ = its[0].result
    try:
        it, _ = N.run(lambda s, n: I.call(I.getattr_(it, '__iter__', s, n), [], {}, s, n), st) if it.op == 'ref' else (it, [])
        if it is NONE:
            ctx.viol('iterator', label, '__iter__ returns nothing', w0)
            return
    except Abort:
        pass
    c = I.class_of(it) if it.op == 'ref' else None
    if c is None or prog.find_method(c, '__next__') is None:
        ctx.und('iterator', label, 'the iterator is %s' % show(it)[:50], w0)
        return
    try:
        base = {x for x, t in st.pc}
        el, ev = N.op(it, '__next__', [], st)
    except Abort as e:
        ctx.und('iterator', label, str(e))
        return
    generic(ctx, N, label, ev)
    readonly(ctx, label + ' next', ev)
    fi = prog.find_method(c, '__next__')
    w0 = '%s:%d (%s)' % (rel(fi.module.path), fi.node.lineno, fi.qualname)
    nat = [e for e in ev if native(e)]
    sc = [e for e in nat if e.name == scan]
    fr = [e for e in nat if e.name == 'ucis_FreeIterator']
    other = [e for e in nat if e not in sc and e not in fr and not e.name.startswith(WRITES)]
    if not sc:
        wrong = [e for e in nat if e.name.endswith('Scan')]
        ctx.viol('own-function', label + ' next', 'calls %s instead of %s' % (wrong[0].name, scan) if wrong else 'does not call %s' % scan, where(wrong[0]) if wrong else w0)
        return
    if other:
        ctx.viol('own-function', label + ' next', 'also calls %s' % other[0].name, where(other[0]))
    if len(sc) > 1 or sc[0].loops or [x for x, t in sc[0].guards if x not in base and t not in ('raise',)]:
        ctx.und('own-function', label + ' next', '%s is called %d times' % (scan, len(sc)), where(sc[0]))
        return
    for e in sc + fr:
        d = args_of(N, e)
        for p, x in (('db', N.DB), ('iterator', H_)):
            v = d.get(p)
            lab = '%s: %s argument %s' % (label, e.name, p)
            if v is x:
                ctx.ok('handle', lab, '', where(e))
            elif v is None or unknown(v):
                ctx.und('handle', lab, show(v)[:50] if v is not None else 'missing', where(e))
            else:
                ctx.viol('handle', lab, 'is %s instead of the %s' % ('the iterator handle' if v is H_ else name_of(N, v), 'iterator handle' if p == 'iterator' else 'database handle'), where(e))
    got = sc[0].result
    stops = [e for e in ev if e.kind == 'raise' and 'StopIteration' in (' '.join(show(a) for a in (e.args or ())) + str(e.name) + (show(e.value) if e.value is not None else '') + (show(e.recv) if e.recv is not None else ''))]
    if not stops:
        ctx.viol('iterator', label, 'never ends', w0)
        return
    end = (isnone(got), not_(truth(got)))
    for s in stops:
        gs = [x for x, t in s.guards if x not in base]
        if not any(x in end for x in gs):
            if not any(got in set(subterms(x)) for x in gs):
                ctx.viol('iterator', label, 'ends whether or not the library returned an element', where(s))
            elif any(x in (not_(isnone(got)), truth(got)) for x in gs):
                ctx.viol('iterator', label, 'ends when the library returned an element', where(s))
            else:
                ctx.und('iterator', label, 'ends when %s' % show(and_(gs))[:60], where(s))
            continue
        pre = [f for f in fr if f.seq < s.seq and set(x for x, t in f.guards if x not in base and t != 'raise') <= set(gs)]
        if pre:
            ctx.ok('iterator', label, 'freed at the end', where(pre[0]))
            if len(pre) > 1:
                ctx.viol('iterator', label, 'is freed twice at the end', where(pre[1]))
        elif any(unknown(x) for f in fr for x, t in f.guards if x not in base):
            ctx.und('iterator', label, 'condition of ucis_FreeIterator', where(fr[0]))
        else:
            ctx.viol('iterator', label, 'is not freed when it is exhausted', where(s))
    for f in fr:
        gs = [x for x, t in f.guards if x not in base]
        if not any(x in end for x in gs):
            if any(got in set(subterms(x)) for x in gs) and not any(x in (not_(isnone(got)), truth(got)) for x in gs):
                ctx.und('iterator', label + ' free', show(and_(gs))[:60], where(f))
            else:
                ctx.viol('iterator', label + ' free', 'is freed before it is exhausted', where(f))
    if el.op != 'ref':
        ctx.decide('result', label, el.op not in ('const',), 'yields %s' % show(el)[:50], w0)
        if el.op != 'const':
            ctx.und('result', label, 'yields %s' % show(el)[:50], w0)
        return
    cc = prog.cls(api)
    if cc is not None and el.a[0].cls is not None:
        ctx.decide('result', label + ' class', cc in prog.mro(el.a[0].cls), 'yields a %s, not a %s' % (el.a[0].cls.name, cc.name), w0)
    probe(ctx, prog, N, st, label, el, got, w0, 'node' if api.endswith('HistoryNode') else 'scope')
    N.decided += 1


def rest(ctx, prog, N, st0):
    """Call sites in operations the table does not list: function known, arity."""
    I = N.I
    done = {(e.site[0], e.site[1]) for e in I.log if native(e) and e.site}
    for m in prog.modules.values():
        if not m.name.startswith(L):
            continue
        for b in list(m.bind.values()):
            if b[0] != 'class' or b[1].module is not m:
                continue
            for name, fi in b[1].methods.items():
                calls = [n for n in ast.walk(fi.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith('ucis_')]
                todo = [n for n in calls if not any((m.path, l) in done for l in range(n.lineno, (n.end_lineno or n.lineno) + 1))]
                for n in todo:
                    lab = '%s.%s: %s' % (b[1].name, name, n.func.attr)
                    w = '%s:%d (%s)' % (rel(m.path), n.lineno, fi.qualname)
                    p = N.protos.get(n.func.attr)
                    if p is None:
                        ctx.viol('known', lab, 'no such function is bound by the loader', w)
                    elif p == '?' or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                        ctx.und('arity', lab, 'not resolved', w)
                    else:
                        ctx.decide('arity', lab, len(n.args) + len(n.keywords) == len(p[1]), 'passes %d arguments, the prototype declares %d' % (len(n.args) + len(n.keywords), len(p[1])), w)
