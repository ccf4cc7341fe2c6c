"""C17: type codes and the C-style constants.  C18: the C-style functions."""
from .base import *
from .mem import call, failed
import ast

E = 'ucis.%s'
# enumeration -> (prefix of its C names, what kind of code set)
ENUMS = {
    'scope_type_t.ScopeTypeT': ('UCIS_', 'mask'),
    'cover_type_t.CoverTypeT': ('UCIS_', 'mask'),
    'flags_t.FlagsT': ('UCIS_', 'flags'),
    'cover_flags_t.CoverFlagsT': ('UCIS_', 'mask'),
    'source_t.SourceT': ('UCIS_', 'codes'),
    'int_property.IntProperty': ('UCIS_INT_', 'codes'),
    'str_property.StrProperty': ('UCIS_STR_', 'codes'),
    'test_status_t.TestStatusT': ('UCIS_TESTSTATUS_', 'codes'),
    'history_node_kind.HistoryNodeKind': ('UCIS_HISTORYNODE_', 'codes'),
    'toggle_metric_t.ToggleMetricT': ('UCIS_TOGGLE_METRIC_', 'codes'),
    'toggle_type_t.ToggleTypeT': ('UCIS_TOGGLE_TYPE_', 'codes'),
    'toggle_dir_t.ToggleDirT': ('UCIS_TOGGLE_DIR_', 'codes'),
}
# members that are not single bits by definition
COMPOSITE = {'ScopeTypeT': {'RESERVEDSCOPE', 'SCOPE_ERROR', 'ALL'}, 'CoverTypeT': {'USERBITS', 'RESERVEDBIN'}}
ALIAS = {'CoverTypeT': {('GENERICBIN', 'USERBIN')}}
# flags whose meaning depends on the kind of scope share bits by definition of the standard
QUALIFIED = {'IS_TOP_NODE', 'IS_IMMEDIATE_ASSERT', 'SCOPE_CVG_AUTO'}
DU = {'DU_MODULE', 'DU_ARCH', 'DU_PACKAGE', 'DU_PROGRAM', 'DU_INTERFACE'}
NOCONST = {('ScopeTypeT', 'ALL')}
# codes of the UCIS 1.0 standard
STD = {
    'ScopeTypeT': dict(zip('''TOGGLE BRANCH EXPR COND INSTANCE PROCESS BLOCK FUNCTION FORKJOIN GENERATE GENERIC CLASS COVERGROUP COVERINSTANCE COVERPOINT CROSS
        COVER ASSERT PROGRAM PACKAGE TASK INTERFACE FSM'''.split(), [1 << i for i in range(23)])),
    'CoverTypeT': dict(CVGBIN=1, COVERBIN=2, ASSERTBIN=4, STMTBIN=0x20, BRANCHBIN=0x40, EXPRBIN=0x80, CONDBIN=0x100, TOGGLEBIN=0x200, PASSBIN=0x400,
                       FSMBIN=0x800, USERBIN=0x1000, GENERICBIN=0x1000, COUNT=0x2000, FAILBIN=0x4000, VACUOUSBIN=0x8000, DISABLEDBIN=0x10000, ATTEMPTBIN=0x20000,
                       ACTIVEBIN=0x40000, IGNOREBIN=0x80000, ILLEGALBIN=0x100000, DEFAULTBIN=0x200000, PEAKACTIVEBIN=0x400000, BLOCKBIN=0x1000000,
                       USERBITS=0xFE000000, RESERVEDBIN=0xFF00000000000000),
    'HistoryNodeKind': dict(NONE=-1, ALL=0, TEST=1, MERGE=2),
    'CoverFlagsT': dict(IS_32BIT=1, IS_64BIT=2, IS_VECTOR=4, HAS_GOAL=8, HAS_WEIGHT=0x10),
}
STD['ScopeTypeT'].update(dict(zip('DU_MODULE DU_ARCH DU_PACKAGE DU_PROGRAM DU_INTERFACE FSM_STATES FSM_TRANS COVBLOCK CVGBINSCOPE ILLEGALBINSCOPE IGNOREBINSCOPE'.split(),
                             [1 << i for i in range(24, 35)])), RESERVEDSCOPE=0xFF00000000000000, SCOPE_ERROR=0)


def loc(c, name=None):
    for n in c.node.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            return '%s:%d (%s.%s)' % (rel(c.module), n.lineno, c.name, name)
    return '%s:%d (%s)' % (rel(c.module), c.node.lineno, c.name)


def rel(m):
    p = m.path
    i = p.find('/src/')
    return p[i + 1:] if i >= 0 else p


def c17(ctx, prog):
    ctx.rule('single-bit', 'every code of a mask set is one bit')
    ctx.rule('distinct', 'no two names of a code set denote the same code')
    ctx.rule('standard', 'scope, cover, history and cover-flag codes are those of the UCIS standard')
    ctx.rule('composite', 'a composite mask is the union of the parts it stands for')
    ctx.rule('c-name', 'each C-style constant denotes the enumeration member of the same name')
    ctx.rule('predicate', 'a predicate over types holds for exactly the types of its name')
    I = Interp(prog)
    U = prog.modules.get('ucis')
    if U is None:
        raise AnchorError('ucis')
    owner = {}
    for q, (prefix, kind) in ENUMS.items():
        c = prog.cls(E % q)
        if c is None:
            raise AnchorError(E % q)
        ms = prog.enum_members(c)
        listed = [n.targets[0].id for n in c.node.body if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)
                  and not n.targets[0].id.startswith('__')]
        for n in listed:
            if n not in ms:
                ctx.und('distinct', '%s.%s' % (c.name, n), 'value not resolved', loc(c, n))
        if not ms:
            ctx.und('distinct', c.name, 'no members resolved', loc(c))
            continue
        comp = COMPOSITE.get(c.name, set())
        seen = {}
        for n, v in ms.items():
            x = v.value
            if kind in ('mask', 'flags') and n not in comp:
                if isinstance(x, int) and x > 0 and x & (x - 1) == 0:
                    ctx.ok('single-bit', '%s.%s' % (c.name, n), hex(x))
                else:
                    ctx.viol('single-bit', '%s.%s' % (c.name, n), 'code %s is not a single bit' % (hex(x) if isinstance(x, int) else x), loc(c, n))
            o = seen.get(x)
            if o is not None and (n, o) not in ALIAS.get(c.name, ()) and (o, n) not in ALIAS.get(c.name, ()) and not (kind == 'flags' and {n, o} <= QUALIFIED):
                ctx.viol('distinct', '%s.%s' % (c.name, n), 'has the same code (%s) as %s' % (x, o), loc(c, n))
            else:
                seen.setdefault(x, n)
            s = STD.get(c.name, {}).get(n)
            if s is not None:
                if s == x:
                    ctx.ok('standard', '%s.%s' % (c.name, n), hex(x))
                else:
                    ctx.viol('standard', '%s.%s' % (c.name, n), 'code is %s, the UCIS standard has %s' % (hex(x) if isinstance(x, int) else x, hex(s)), loc(c, n))
            owner.setdefault(prefix + n.lstrip('_'), []).append((c, n, v))
        ctx.ok('distinct', c.name, '%d names' % len(ms))
        for n in STD.get(c.name, {}):
            if n not in ms and n not in listed:
                ctx.viol('standard', '%s.%s' % (c.name, n), 'is no longer defined', loc(c))
        if c.name == 'ScopeTypeT' and 'ALL' in ms:
            miss = [n for n, v in ms.items() if n not in comp and not v.value & ms['ALL'].value]
            if miss:
                ctx.viol('composite', 'ScopeTypeT.ALL', 'does not include %s' % ', '.join(miss), loc(c, 'ALL'))
            else:
                ctx.ok('composite', 'ScopeTypeT.ALL', 'includes every scope type')
            if ms['ALL'].value & ms.get('RESERVEDSCOPE', ms['ALL']).value and 'RESERVEDSCOPE' in ms:
                ctx.viol('composite', 'ScopeTypeT.ALL', 'includes reserved codes', loc(c, 'ALL'))
        if c.name == 'CoverTypeT' and 'USERBITS' in ms:
            bad = [n for n, v in ms.items() if n not in comp and v.value & (ms['USERBITS'].value | ms.get('RESERVEDBIN', ms['USERBITS']).value)]
            if bad:
                ctx.viol('composite', 'CoverTypeT.USERBITS', 'overlaps %s' % ', '.join(bad), loc(c, 'USERBITS'))
            else:
                ctx.ok('composite', 'CoverTypeT.USERBITS', 'disjoint from every cover type')
    # C-style names
    for name, own in sorted(owner.items()):
        vals = [v for c, n, v in own if (c.name, n) not in NOCONST]
        if not vals:
            continue
        t = I.global_(U, name)
        if t is None:
            if dynamic(U):
                ctx.und('c-name', name, 'not found; names are defined dynamically')
            else:
                ctx.viol('c-name', name, 'is not defined (for %s)' % ', '.join(repr(v) for v in vals), rel(U))
            continue
        if t.op == 'const' and isinstance(t.a[0], EnumVal):
            e = t.a[0]
            if any(e.cls == v.cls and e.value == v.value for v in vals):
                ctx.ok('c-name', name, repr(e))
            else:
                ctx.viol('c-name', name, 'denotes %r instead of %s' % (e, ' / '.join(repr(v) for v in vals)), where_global(U, name))
        elif t.op == 'const':
            ctx.viol('c-name', name, 'is the plain value %r instead of %s' % (t.a[0], vals[0]), where_global(U, name)) if t.a[0] != vals[0].value else ctx.ok('c-name', name, 'same value')
        else:
            ctx.und('c-name', name, 'value %s' % show(t)[:60], where_global(U, name))
    c = prog.cls(E % 'scope_type_t.ScopeTypeT')
    fi = c.methods.get('DU_ANY')
    if fi is not None:
        for n, v in prog.enum_members(c).items():
            if n in ('ALL', 'RESERVEDSCOPE', 'SCOPE_ERROR'):
                continue
            st = State()
            r = I.enter(lambda s, nd: I.call_fn(fi, [const(v)], {}, s, None, nd), st, c.module, ('du', n))
            r = I.truth_(r, st)
            want = TRUE if n in DU else FALSE
            cn = 'ScopeTypeT.DU_ANY(%s)' % n
            if r is want:
                ctx.ok('predicate', cn, str(r is TRUE))
            elif r in (TRUE, FALSE):
                ctx.viol('predicate', cn, 'is %s' % (r is TRUE), '%s:%d (ScopeTypeT.DU_ANY)' % (rel(c.module), fi.node.lineno))
            else:
                ctx.und('predicate', cn, show(r)[:80])
    ctx.absorb(I)


def dynamic(U):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('globals', 'setattr', 'exec', 'vars') for n in ast.walk(U.tree))


def where_global(U, name):
    for n in ast.walk(U.tree):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            return '%s:%d (%s)' % (rel(U), n.lineno, name)
    return rel(U)


# ------------------------------------------------------------------ C18
P4 = ['coverindex', 'property']
# function -> (parameters, handle or None, falls back to the database, operation, arguments, what it returns)
FUNCS = {}
for k, g in (('Int', 'Int'), ('Real', 'Real'), ('String', 'String'), ('Handle', 'Handle')):
    FUNCS['ucis_Get%sProperty' % k] = (['db', 'obj', 'coverindex', 'property'], 'obj', True, 'get%sProperty' % g, ['coverindex', 'property'], 'result')
    FUNCS['ucis_Set%sProperty' % k] = (['db', 'obj', 'coverindex', 'property', 'value'], 'obj', True, 'set%sProperty' % g, ['coverindex', 'property', 'value'], None)
FUNCS.update({
    'ucis_CreateScope': (['db', 'parent', 'name', 'sourceinfo', 'weight', 'source', 'type', 'flags'], 'parent', True, 'createScope',
                         ['name', 'sourceinfo', 'weight', 'source', 'type', 'flags'], 'result'),
    'ucis_CreateInstance': (['db', 'parent', 'name', 'fileinfo', 'weight', 'source', 'type', 'du_scope', 'flags'], 'parent', True, 'createInstance',
                            ['name', 'fileinfo', 'weight', 'source', 'type', 'du_scope', 'flags'], 'result'),
    'ucis_CreateToggle': (['db', 'parent', 'name', 'canonical_name', 'flags', 'toggle_metric', 'toggle_type', 'toggle_dir'], 'parent', True, 'createToggle',
                          ['name', 'canonical_name', 'flags', 'toggle_metric', 'toggle_type', 'toggle_dir'], 'result'),
    'ucis_CreateNextCover': (['db', 'parent', 'name', 'data', 'sourceinfo'], 'parent', False, 'createNextCover', ['name', 'data', 'sourceinfo'], 'result'),
    'ucis_RemoveScope': (['db', 'scope'], None, True, 'removeScope', ['scope'], 'result'),
    'ucis_CreateHistoryNode': (['db', 'parent', 'logicalname', 'physicalname', 'kind'], None, True, 'createHistoryNode', ['parent', 'logicalname', 'physicalname', 'kind'], 'result'),
    'ucis_CreateFileHandle': (['db', 'filename', 'fileworkdir'], None, True, 'createFileHandle', ['filename', 'fileworkdir'], 'result'),
    'ucis_SetTestData': (['db', 'testhistorynode', 'testdata'], 'testhistorynode', False, 'setTestData', ['testdata'], None),
    'ucis_Write': (['db', 'file', 'scope', 'recurse', 'covertype'], None, True, 'write', ['file', 'scope', 'recurse!', 'covertype'], '0'),
    'ucis_Close': (['db'], None, True, 'close', [], '0'),
})


def c18(ctx, prog):
    ctx.rule('one-operation', 'each function makes exactly one call, unconditionally: the operation of its name')
    ctx.rule('receiver', 'it is called on the object given as handle, on the database when there is none')
    ctx.rule('arguments', 'every argument goes to the parameter of the same meaning')
    ctx.rule('result', "the operation's result is returned")
    U = prog.modules.get('ucis')
    if U is None:
        raise AnchorError('ucis')
    I = Interp(prog)
    found = 0
    for name, spec in FUNCS.items():
        params, handle, fallback, opn, opargs, ret = spec
        fi = prog.func('ucis.' + name)
        if fi is None:
            b = prog.lookup(U, name)
            fi = b[1] if b and b[0] == 'func' else None
        if fi is None:
            t = I.global_(U, name)
            if t is None:
                raise AnchorError('ucis.' + name)
            ctx.und('one-operation', name, 'is %s' % show(t)[:60])
            continue
        found += 1
        syms = {p: mk('sym', p) for p in params}
        cases = [(handle, False)] if handle else [(None, False)]
        if handle and fallback:
            cases.append((handle, True))
        for h, none in cases:
            one(ctx, prog, I, fi, name, params, handle, none, opn, opargs, ret, syms)
    ctx.absorb(I)


def one(ctx, prog, I, fi, name, params, handle, none, opn, opargs, ret, syms):
    st = State()
    args = []
    for p in params:
        if p == handle and none:
            args.append(NONE)
        else:
            args.append(syms[p])
    for p in ('db', handle):
        if p and not (p == handle and none):
            st.assume(not_(isnone(syms[p])), 'given')
            if not falsy(prog):
                st.assume(truth(syms[p]), 'given')
    npc = len(st.pc)
    mark = len(I.log)
    label = '%s (%s)' % (name, 'no object given' if none else 'object given') if handle else name
    try:
        r = I.enter(lambda s, n: I.call_fn(fi, list(args), {}, s, None, n), st, fi.module, ('c18', name, none))
    except Abort as e:
        ctx.und('one-operation', label, str(e))
        return
    ev = I.log[mark:]
    w0 = '%s:%d (%s)' % (rel(fi.module), fi.node.lineno, name)
    given = {c for c, t in st.pc[:npc]}
    mine = [e for e in ev if e.kind == 'call' and e.recv is not None and any(x in syms.values() for x in subterms(e.recv)) and not e.name.startswith('__')]
    bad = [e for e in ev if e.kind in ('badcall',)]
    if bad:
        ctx.und('one-operation', label, 'call of %s does not fit' % bad[0].name, where(bad[0]))
        return
    # logging and the like is not an operation on the handles
    ops = [e for e in mine if root_of(e.recv) in syms.values()]
    if st.dead:
        rz = [e for e in ev if e.kind == 'raise' and not [c for c, t in e.guards if c not in given]]
        if rz or not ops:
            ctx.viol('one-operation', label, 'always fails', where(rz[0]) if rz else w0)
            return
    if not ops:
        other = [e for e in ev if e.kind == 'call' and unknown(e.result if e.result is not None else NONE)]
        if unknown(r) or any(e.kind == 'rec' for e in ev):
            ctx.und('one-operation', label, 'result %s' % show(r)[:60], w0)
        else:
            ctx.viol('one-operation', label, 'calls no operation of the given objects', w0)
        return
    right = [e for e in ops if e.name == opn]
    wrong = [e for e in ops if e.name != opn]
    if wrong and not all(getattr(e, 'pure', False) and not e.name.startswith(('get', 'set', 'create')) for e in wrong):
        ctx.viol('one-operation', label, 'calls %s' % wrong[0].name, where(wrong[0]))
        return
    if len(right) != 1:
        # alternatives under exclusive conditions count as one
        conds = [and_([c for c, t in e.guards if c not in given]) for e in right]
        if len(right) == 2 and conds[0] is not_(conds[1]):
            pass
        elif not right:
            ctx.viol('one-operation', label, 'does not call %s' % opn, w0)
            return
        else:
            ctx.viol('one-operation', label, 'calls %s %d times' % (opn, len(right)), where(right[1]))
            return
    for e in right:
        cs = [c for c, t in e.guards if c not in given]
        if len(right) == 1 and (cs or e.loops):
            if any(unknown(c) for c in cs):
                ctx.und('one-operation', label, 'condition %s' % show(cs[0])[:60], where(e))
            else:
                ctx.viol('one-operation', label, 'calls %s only when %s' % (opn, show(cs[0])[:80] if cs else 'iterating'), where(e))
            return
        want = syms['db'] if none or handle is None else syms[handle]
        rc = e.recv
        if rc.op == 'ite':
            rc = assume_given(rc, given)
        if rc is not want:
            ctx.viol('receiver', label, '%s is called on %s instead of %s' % (opn, show(rc)[:60], show(want)), where(e)) if not unknown(rc) else ctx.und('receiver', label, show(rc)[:60], where(e))
            return
        ctx.ok('receiver', label, show(want))
        got = list(e.args or ())
        kw = dict(e.kw or {})
        exp = opargs
        if kw:
            ps = declared(prog, opn, len(opargs))
            if ps is None:
                ctx.und('arguments', label, 'keyword arguments of an undeclared operation', where(e))
                return
            full = got + [None] * (len(ps) - len(got))
            for k, v in kw.items():
                if k not in ps:
                    ctx.viol('arguments', label, '%s has no parameter %s' % (opn, k), where(e))
                    return
                full[ps.index(k)] = v
            while full and full[-1] is None:
                full.pop()
            got = full
        if len(got) != len(exp):
            ctx.viol('arguments', label, '%s gets %d arguments instead of %d' % (opn, len(got), len(exp)), where(e))
            return
        for i, (g, x) in enumerate(zip(got, exp)):
            if x.endswith('!'):
                v = syms[x[:-1]]
                if g in (v, eq(v, const(1)), mk('truth', v), mk('op', 'bool', v), not_(eq(v, ZERO)), ite(eq(v, const(1)), TRUE, FALSE), ite(mk('truth', v), TRUE, FALSE)):
                    ctx.ok('arguments', '%s argument %d' % (label, i + 1), show(g))
                    continue
                v2 = v
            elif g is not None and (g is syms[x] or assume_given(g, given) is syms[x]):
                ctx.ok('arguments', '%s argument %d' % (label, i + 1), x)
                continue
            if g is None or unknown(g):
                ctx.und('arguments', '%s argument %d' % (label, i + 1), show(g)[:60] if g is not None else 'missing', where(e))
            else:
                ctx.viol('arguments', '%s argument %d' % (label, i + 1), 'is %s instead of %s' % (show(g)[:80], x.rstrip('!')), where(e))
    if ret == 'result':
        rr = assume_given(r, given)
        if any(rr is e.result for e in right) or (len(right) == 2 and rr.op == 'ite'):
            ctx.ok('result', label, 'returned')
        elif unknown(rr):
            ctx.und('result', label, show(rr)[:60], w0)
        else:
            ctx.viol('result', label, 'returns %s instead of the result of %s' % (show(rr)[:60], opn), w0)
    elif ret == '0':
        if r is ZERO:
            ctx.ok('result', label, 'status 0')
        elif unknown(r):
            ctx.und('result', label, show(r)[:60], w0)
        else:
            ctx.viol('result', label, 'returns %s instead of status 0' % show(r)[:60], w0)


def falsy(prog):
    """Can an object of the API be false?"""
    roots = [c for c in (prog.cls(q) for q in ('ucis.obj.Obj', 'ucis.history_node.HistoryNode')) if c is not None]
    for m in prog.modules.values():
        for b in m.bind.values():
            if b[0] == "class" and any(n in b[1].methods for n in ('__len__', '__bool__')) and any(r in prog.mro(b[1]) for r in roots):
                return True
    return False


def assume_given(t, given):
    while t.op == 'ite' and (t.a[0] in given or not_(t.a[0]) in given):
        t = t.a[1] if t.a[0] in given else t.a[2]
    return t


def declared(prog, opn, n):
    """Parameter names of an operation as the object API declares it."""
    for q in ('ucis.scope.Scope', 'ucis.ucis.UCIS', 'ucis.obj.Obj', 'ucis.history_node.HistoryNode'):
        c = prog.cls(q)
        if c is not None and opn in c.methods:
            return [a.arg for a in c.methods[opn].node.args.args[1:]]
    return None
