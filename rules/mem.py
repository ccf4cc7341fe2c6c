"""C14: accessors and properties of the in-memory objects."""
from .base import *
from .mirror import *
import ast

MEM = 'ucis.mem.mem_ucis.MemUCIS'
INTP = 'ucis.int_property.IntProperty'
STRP = 'ucis.str_property.StrProperty'
SRC = '''
from ucis.mem.mem_ucis import MemUCIS
from ucis.scope_type_t import ScopeTypeT
from ucis.source_info import SourceInfo
from ucis.test_data import TestData

def database(a, o):
    return MemUCIS()

def file_handle(a, o):
    return o.database.createFileHandle(a.filename, a.workdir)

def design_unit(a, o):
    return o.database.createScope(a.du_name, SourceInfo(o.file_handle, a.du_line, a.du_token), a.du_weight, a.du_source, ScopeTypeT.DU_MODULE, a.du_flags)

def instance(a, o):
    return o.database.createInstance(a.inst_name, SourceInfo(o.file_handle, a.inst_line, a.inst_token), a.inst_weight, a.inst_source, ScopeTypeT.INSTANCE, o.design_unit, a.inst_flags)

def toggle(a, o):
    return o.instance.createToggle(a.tg_name, a.tg_canon, a.tg_flags, a.tg_metric, a.tg_type, a.tg_dir)

def covergroup(a, o):
    return o.instance.createCovergroup(a.cg_name, SourceInfo(o.file_handle, a.cg_line, a.cg_token), a.cg_weight, a.cg_source)

def covergroup_instance(a, o):
    return o.covergroup.createCoverInstance(a.ci_name, SourceInfo(o.file_handle, a.ci_line, a.ci_token), a.ci_weight, a.ci_source)

def coverpoint(a, o):
    return o.covergroup.createCoverpoint(a.cp_name, SourceInfo(o.file_handle, a.cp_line, a.cp_token), a.cp_weight, a.cp_source)

def cross(a, o):
    return o.covergroup.createCross(a.cr_name, SourceInfo(o.file_handle, a.cr_line, a.cr_token), a.cr_weight, a.cr_source, a.cr_points)

def bin(a, o):
    return o.coverpoint.createBin(a.b_name, SourceInfo(o.file_handle, a.b_line, a.b_token), a.b_atleast, a.b_count, a.b_rhs)

def history_node(a, o):
    return o.database.createHistoryNode(None, a.hn_logical, a.hn_physical, a.hn_kind)

class Objs(object):
    def __init__(self):
        pass

def objs():
    return Objs()

def testdata(td):
    return TestData(td.teststatus, td.toolcategory, td.date, td.simtime, td.timeunit, td.runcwd, td.cputime, td.seed, td.cmd, td.args,
        td.compulsory, td.user, td.cost)
'''
# property -> accessor it stands for
INTPROPS = {'SCOPE_WEIGHT': 'Weight', 'SCOPE_GOAL': 'Goal', 'COVER_GOAL': 'Goal', 'CVG_ATLEAST': 'AtLeast', 'CVG_AUTOBINMAX': 'AutoBinMax',
            'CVG_DETECTOVERLAP': 'DetectOverlap', 'CVG_STROBE': 'Strobe', 'CVG_PERINSTANCE': 'PerInstance',
            'CVG_MERGEINSTANCES': 'MergeInstances', 'CVG_GETINSTCOV': 'GetInstCoverage', 'TEST_STATUS': 'TestStatus'}
STRPROPS = {'COMMENT': 'Comment', 'DU_SIGNATURE': 'Signature', 'HIST_CMDLINE': 'Cmd', 'HIST_RUNCWD': 'RunCwd', 'TEST_TIMEUNIT': 'TimeUnit',
            'TEST_DATE': 'Date', 'TEST_SIMARGS': 'Args', 'TEST_USERNAME': 'UserName', 'TEST_SEED': 'Seed', 'HIST_TOOLCATEGORY': 'ToolCategory'}
TESTDATA = {'teststatus': 'TestStatus', 'toolcategory': 'ToolCategory', 'date': 'Date', 'simtime': 'SimTime', 'timeunit': 'TimeUnit',
            'runcwd': 'RunCwd', 'cputime': 'CpuTime', 'seed': 'Seed', 'cmd': 'Cmd', 'args': 'Args', 'compulsory': 'Compulsory',
            'user': 'UserName', 'cost': 'Cost'}
KINDS = ['database', 'file handle', 'design unit', 'instance', 'toggle', 'covergroup', 'covergroup instance', 'coverpoint', 'cross', 'bin', 'history node']
_cache = {}
_n = [0]



def arms(t):
    return arms(t.a[1]) + arms(t.a[2]) if t.op == 'ite' else [t]


def build(prog):
    if prog in _cache:
        return _cache[prog]
    if prog.cls(MEM) is None:
        raise AnchorError(MEM)
    prog.add_source('verif_obs_mem', SRC)
    I = Interp(prog)
    st = State()
    kinds = []
    owners = {}
    for n in (1, 2):
        objs = I.callq('verif_obs_mem.objs', [], st=st, tag=n)
        a = mk('sym', 'a%d' % n)
        ks = {}
        for kind in KINDS:
            f = kind.replace(' ', '_')
            try:
                ks[kind] = I.callq('verif_obs_mem.' + f, [a, objs], st=st, tag=n)
            except Abort as e:
                ks[kind] = top(str(e))
            if st.dead:
                raise Abort('creating a %s fails' % kind)
            refs = {x for x in arms(ks[kind]) if x.op == 'ref'}
            if ks[kind].op != 'ref' and len(refs) == 1:
                ks[kind] = refs.pop()
            st.pc = ()
            st.m[('f', objs, f)] = ks[kind]
            # whatever was created before: the lists of children are arbitrary
            for k in list(st.m):
                if k[0] == 'f' and st.m[k].op == 'ref' and I.obj(st.m[k]).kind == 'list' and k[1] in ks.values():
                    owners.setdefault(st.m[k], set()).add(k[1:])
                if k[0] == 'f' and st.m[k].op == 'ref' and I.obj(st.m[k]).kind == 'list' and k[1] in ks.values():
                    st.m[k] = mk('sym', 'L_%s_%d_%s' % (k[2], n, [x for x in ks if ks[x] is k[1]][0].replace(' ', '')))
        kinds.append(ks)
    I.owners = owners
    _cache[prog] = (I, st, kinds)
    return _cache[prog]


def call(I, st, o, name, args):
    s = st.fork()
    mark = len(I.log)
    _n[0] += 1
    try:
        r = I.invoke(o, name, list(args), st=s, tag=('mem', _n[0]))
    except Abort:
        r, s.dead = top('abort'), True
    ev = I.log[mark:]
    return r, s, ev


def failed(s, ev):
    return s.dead or any(e.kind == 'raise' and not e.guards for e in ev)


def same(got, want, ann=None):
    """Equal for every value of the declared type."""
    if got is want:
        return True
    while got.op in ('copyof', 'listof') and got.a:
        got = got.a[0]
    if got is want:
        return True
    if got.op == 'op' and got.a[0] in ('int', 'float', 'bool', 'str') and len(got.a) == 2 and got.a[1] is want and ann == got.a[0]:
        return True
    if got.op in ('str',) and got.a[0] is want and ann == 'str':
        return True
    if ann == 'bool' and got in (mk('truth', want), ite(mk('truth', want), TRUE, FALSE)):
        return True
    return False


def ann_of(prog, I, o, x):
    """Declared type of an accessor pair, when the code declares one."""
    c = I.class_of(o)
    for n in ('get' + x, 'set' + x):
        for k in prog.mro(c):
            fi = k.methods.get(n)
            if fi is None:
                continue
            a = fi.node.returns if n.startswith('get') else (fi.node.args.args[1].annotation if len(fi.node.args.args) > 1 else None)
            if isinstance(a, ast.Name):
                return a.id
    return None


def methods_of(prog, I, o):
    out = {}
    for k in reversed(prog.mro(I.class_of(o))):
        out.update(k.methods)
    return out


def boolish(t, v):
    """t is v, or v read as a flag (0/1)."""
    forms = [v, mk('truth', v), eq(v, const(1)), ite(mk('truth', v), const(1), ZERO), ite(eq(v, const(1)), const(1), ZERO), not_(eq(v, ZERO)),
             mk('op', 'int', v), mk('op', 'bool', v), ite(mk('truth', v), TRUE, FALSE)]
    return t in forms


class Probe(object):
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.I, self.st, self.kinds = build(prog)

    def getters(self, o):
        ms = methods_of(self.prog, self.I, o)
        out = []
        for n, fi in sorted(ms.items()):
            if n.startswith('get') and n[3:] and len(fi.node.args.args) == 1 and not fi.is_static:
                out.append(n)
        return out

    def read(self, s, o, names):
        """{getter: value} of the getters that return."""
        out = {}
        for n in names:
            r, s2, ev = call(self.I, s, o, n, [])
            if not failed(s2, ev):
                out[n] = (r, ev)
        return out

    def fail(self, rule, construct, msg, ev, terms):
        w = ''
        for e in reversed(ev or ()):
            if e.site is not None and e.stack and not e.stack[-1].startswith('verif'):
                w = where(e)
                break
        u = [x for t in terms for x in unknown(t)]
        if u:
            self.ctx.und(rule, construct, '%s (not resolved: %s)' % (msg, show(u[0])[:100]), w)
        else:
            self.ctx.viol(rule, construct, msg, w)

    def kept(self, kind, what, before, s, o, touched, ev, label=''):
        """Every getter not in touched gives what it gave before."""
        after = self.read(s, o, list(before))
        ok = True
        for n, (v0, e0) in before.items():
            if n in touched:
                continue
            if n not in after:
                ok = False
                self.fail('others-kept', '%s%s.%s' % (label, kind, what), '%s fails afterwards' % n, ev, [])
            elif after[n][0] is not v0 and not (v0.op in ('new', 'top') or unknown(v0)):
                ok = False
                self.fail('others-kept', '%s%s.%s' % (label, kind, what), 'also changes what %s returns: %s instead of %s' % (
                    n, show(after[n][0])[:80], show(v0)[:80]), ev, [after[n][0]])
        if ok:
            self.ctx.ok('others-kept', '%s%s.%s' % (label, kind, what), '%d other getters unchanged' % (len(before) - len(touched)))

    def run(self):
        I = self.I
        for kind, o in self.kinds[0].items():
            if o.op != 'ref':
                self.ctx.und('read-back', kind, 'object is %s' % show(o)[:80])
                continue
            self.object(kind, o, self.kinds[1].get(kind))
        self.testdata()
        self.increment()
        self.ctx.absorb(I)

    def object(self, kind, o, o2):
        I = self.I
        ms = methods_of(self.prog, I, o)
        gs = self.getters(o)
        pairs = [n[3:] for n in sorted(ms) if n.startswith('set') and 'get' + n[3:] in gs and len(ms[n].node.args.args) == 2]
        # a generic state: every settable field holds an arbitrary value
        s = self.st.fork()
        val, live = {}, []
        for x in pairs:
            v = mk('sym', '%s_%s' % (kind.replace(' ', ''), x))
            r, s2, ev = call(I, s, o, 'set' + x, [v])
            if failed(s2, ev):
                continue
            val[x] = v
            live.append(x)
            s = s2
        before = self.read(s, o, gs)
        live = [x for x in live if 'get' + x in before]
        for x in live:
            got, ev = before['get' + x]
            if same(got, val[x], ann_of(self.prog, I, o, x)):
                self.ctx.ok('read-back', '%s.%s' % (kind, x), 'getter returns the value set')
            else:
                self.fail('read-back', '%s.%s' % (kind, x), 'get%s returns %s after set%s(%s) and setting the other fields' % (x, show(got)[:100], x, show(val[x])), ev, [got])
        other = self.read(s, o2, gs) if o2 is not None and o2.op == 'ref' else {}
        for x in live:
            v = mk('sym', '%s_%s_new' % (kind.replace(' ', ''), x))
            r, s2, ev = call(I, s, o, 'set' + x, [v])
            got, s3, ev2 = call(I, s2, o, 'get' + x, [])
            c = '%s.%s' % (kind, x)
            if failed(s3, ev2):
                self.fail('read-back', c, 'get%s fails after set%s' % (x, x), ev2, [])
                continue
            if same(got, v, ann_of(self.prog, I, o, x)):
                self.ctx.ok('last-value', c, 'the last value set is returned')
            else:
                self.fail('last-value', c, 'get%s returns %s after set%s(%s)' % (x, show(got)[:100], x, show(v)), ev or ev2, [got])
            self.kept(kind, 'set' + x, before, s2, o, {'get' + x}, ev)
            if other:
                self.kept(kind, 'set' + x, other, s2, o2, (), ev, 'another ')
            self.outside(kind, 'set' + x, o, s, s2, ev)
        self.props(kind, o, s, before, val, live, 'Int', INTP, INTPROPS)
        self.props(kind, o, s, before, val, live, 'String', STRP, STRPROPS)

    def outside(self, kind, what, o, s, s2, ev):
        """Fields of other objects changed: does any of their getters notice?"""
        # fields written on whatever the object contains
        for e in ev:
            if e.kind == 'setattr' and e.recv is not None and e.recv.op == 'elem':
                for k2, p in self.kinds[0].items():
                    if p is not o and p.op == 'ref' and ('f', p, e.name) in s.m:
                        x = s.fork()
                        x.m[('f', p, e.name)] = mk('sym', 'written')
                        self.kept(kind, what, self.read(s, p, self.getters(p)), x, p, (), ev, 'a contained %s, by ' % k2)
        ch = {k[1] for k in s2.m if k[0] == 'f' and s2.m[k] is not s.m.get(k) and k[1] is not o}
        if not ch:
            return
        for k2, p in self.kinds[0].items():
            if p is not o and p.op == 'ref':
                self.kept(kind, what, self.read(s, p, self.getters(p)), s2, p, (), ev, 'the %s, by ' % k2)

    def props(self, kind, o, s, before, val, live, ty, enum, table):
        I = self.I
        c = self.prog.cls(enum)
        if c is None:
            raise AnchorError(enum)
        g, st_ = 'get%sProperty' % ty, 'set%sProperty' % ty
        ms = methods_of(self.prog, I, o)
        if g not in ms or st_ not in ms:
            return
        idx = const(-1)
        P, s1_of = {}, {}
        for name, m in self.prog.enum_members(c).items():
            p = enumc(self.prog, enum, name)
            got, s1, ev = call(I, s, o, g, [idx, p])
            P[name] = (p, None if failed(s1, ev) else got, ev)
            s1_of[name] = s1
        for name, (p, got, ev) in sorted(P.items()):
            x = table.get(name)
            cn = '%s %s property %s' % (kind, ty.lower(), name)
            readable = got is not None and got is not NONE
            v = mk('sym', 'p_%s' % name)
            old = set(I.heap.values())
            r, s2, ev2 = call(I, s, o, st_, [idx, p, v])
            writable = not failed(s2, ev2) and any(e.kind == 'setattr' or (e.kind == 'cont' and e.obj in old) for e in ev2)
            if x in live:
                if readable:
                    if boolish(got, val[x]):
                        self.ctx.ok('property-read', cn, 'same as get%s' % x)
                    else:
                        self.fail('property-read', cn, 'reads %s, not what get%s returns' % (show(got)[:100], x), ev, [got])
                if readable:
                    self.partial(cn, 'reading it', s, s1_of[name], call(I, s, o, 'get' + x, [])[1], ev)
                if writable:
                    now, s3, ev3 = call(I, s2, o, 'get' + x, [])
                    self.partial(cn, 'writing it', s, s2, call(I, s, o, 'set' + x, [v])[1], ev2)
                    if boolish(now, v):
                        self.ctx.ok('property-write', cn, 'same as set%s' % x)
                    else:
                        self.fail('property-write', cn, 'after writing it get%s returns %s' % (x, show(now)[:100]), ev2, [now])
                    self.kept(kind, cn, before, s2, o, {'get' + x}, ev2)
                if readable != writable:
                    self.fail('property-pair', cn, '%s but not %s through the property interface, though set%s/get%s exist' % (
                        ('can be read', 'written', x, x) if readable else ('can be written', 'read', x, x)), ev2 or ev, [])
            elif readable and writable and x is None and not unknown(got):
                now, s3, ev3 = call(I, s2, o, g, [idx, p])
                if failed(s3, ev3) or not boolish(now, v):
                    self.fail('property-pair', cn, 'reads %s after writing %s' % (show(now)[:100], show(v)), ev2, [now])
                else:
                    self.ctx.ok('property-pair', cn, 'reads back what was written')
                self.kept(kind, cn, before, s2, o, (), ev2)
            elif writable:
                if x is None and got is None and name not in table:
                    self.fail('property-pair', cn, 'can be written but not read', ev2, [])
                self.kept(kind, cn, before, s2, o, (), ev2)
            elif readable and x is None and not failed(s2, ev2) and not any(e.kind in ('call', 'setglobal') for e in ev2):
                self.fail('property-pair', cn, 'writing it is accepted but it still reads %s' % show(got)[:100], ev, [got])
            if writable:
                # other properties keep their values
                for n2, (p2, g2, e2) in P.items():
                    if n2 == name or g2 is None or (x is not None and table.get(n2) == x):
                        continue
                    now, s3, ev3 = call(I, s2, o, g, [idx, p2])
                    if failed(s3, ev3) or (now is not g2 and not unknown(g2)):
                        self.fail('others-kept', cn, 'also changes the property %s' % n2, ev2, [now])

    def partial(self, cn, what, s, s2, ref, ev):
        """The property operation must not fail for values the accessor takes."""
        known = set(s.pc) | set(ref.pc)
        for c in s2.pc:
            if c not in known:
                self.fail('property-total', cn, '%s fails unless %s, the accessor does not' % (what, show(c[0] if isinstance(c, tuple) else c)[:100]),
                          [e for e in ev if e.kind == 'raise'], [c[0] if isinstance(c, tuple) else c])
                return
        self.ctx.ok('property-total', cn, '%s succeeds whenever the accessor does' % what)

    def testdata(self):
        I = self.I
        o = self.kinds[0].get('history node')
        if o is None or o.op != 'ref' or 'setTestData' not in methods_of(self.prog, I, o):
            return
        s = self.st.fork()
        td = mk('sym', 'td')
        rec = I.callq('verif_obs_mem.testdata', [td], st=s, tag='td')
        before = self.read(s, o, self.getters(o))
        r, s2, ev = call(I, s, o, 'setTestData', [rec])
        if failed(s2, ev):
            self.fail('test-data', 'setTestData', 'fails', ev, [])
            return
        after = self.read(s2, o, self.getters(o))
        for f, x in TESTDATA.items():
            want = mk('attr', td, f)
            if 'get' + x not in after:
                continue
            got, e2 = after['get' + x]
            if same(got, want, ann_of(self.prog, I, o, x)):
                self.ctx.ok('test-data', f, 'get%s returns it' % x)
            else:
                self.fail('test-data', f, 'get%s returns %s after applying a test-data record' % (x, show(got)[:100]), ev, [got])
        self.kept('history node', 'setTestData', before, s2, o, {'get' + x for x in TESTDATA.values()}, ev)

    def increment(self):
        I = self.I
        o, o2 = self.kinds[0].get('bin'), self.kinds[1].get('bin')
        if o is None or o.op != 'ref' or 'incrementCover' not in methods_of(self.prog, I, o):
            return
        s = self.st.fork()

        def count(s, o):
            d, s1, ev = call(I, s, o, 'getCoverData', [])
            return I.enter(lambda q, n: I.getattr_(d, 'data', q, n), s1, I.class_of(o).module, ('rd', 'data'))
        c0, d0 = count(s, o), count(s, o2)
        for label, args, amt in (('amount', [mk('sym', 'amt')], mk('sym', 'amt')), ('default', [], const(1))):
            r, s2, ev = call(I, s, o, 'incrementCover', args)
            got = count(s2, o)
            if got is add(c0, amt):
                self.ctx.ok('increment', label, 'adds exactly the amount')
            else:
                self.fail('increment', label, 'the count becomes %s instead of %s' % (show(got)[:100], show(add(c0, amt))[:60]), ev, [got])
            if count(s2, o2) is not d0:
                self.fail('increment', label, 'the count of another bin changes', ev, [])
            before = self.read(s, o, self.getters(o))
            self.kept('bin', 'incrementCover', before, s2, o, (), ev)


def c14(ctx, prog):
    ctx.rule('read-back', 'after setting every field to an arbitrary value, each getter returns the value of its own field')
    ctx.rule('last-value', 'setting a field again makes its getter return the new value')
    ctx.rule('others-kept', 'a setter changes what no other getter, of this or another object, returns')
    ctx.rule('property-read', 'an integer or string property reads what the getter of the same field returns')
    ctx.rule('property-write', 'writing a property is what the setter of the same field does')
    ctx.rule('property-total', 'a property operation on a field succeeds for every value for which the accessor does')
    ctx.rule('property-pair', 'a property that can be written reads back what was written')
    ctx.rule('test-data', 'a test-data record sets each of the fields it holds')
    ctx.rule('increment', 'incrementing a bin adds exactly the given amount')
    Probe(ctx, prog).run()
