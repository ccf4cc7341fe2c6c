"""Database, API, commands, files, native binding, formats, schema gate."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import H
S = []
MH, MS, MC, MG, MU = 'mem/mem_history_node.py', 'mem/mem_scope.py', 'mem/mem_cvg_scope.py', 'mem/mem_covergroup.py', 'mem/mem_ucis.py'

S.append(('C14-cost-zero', 'C14', 'a history node whose cost is set to zero after another value',
 'setting a cost of zero has no effect',
 [(MH, "        self.m_cost = cost\n", "        self.m_cost = cost or self.m_cost\n")],
 H + '''
h = MemFactory.create().createHistoryNode(None, 'l', 'p', 'k')
h.setCost(5)
h.setCost(0)
check(h.getCost() == 0, h.getCost())
'''))
S.append(('C14-strobe-goal', 'C14', 'the strobe option of a coverpoint set through the integer property',
 'the strobe property writes another field than the setter',
 [('cvg_scope.py', "            self.setStrobe(value)\n", "            self.setStrobe(value==1)\n            self.setDetectOverlap(value==1)\n")],
 H + '''
from ucis.int_property import IntProperty
db = mkdb([('i0', [('cg', 1, {'cps': [('a', 1, [])]}, [])])])
cg = next(iter(next(iter(db.scopes(ScopeTypeT.INSTANCE))).scopes(ScopeTypeT.COVERGROUP)))
cp = next(iter(cg.scopes(ScopeTypeT.COVERPOINT)))
cp.setDetectOverlap(True)
cp.setIntProperty(-1, IntProperty.CVG_STROBE, 0)
check(cp.getDetectOverlap(), 'setting strobe changed detect-overlap')
'''))
S.append(('C14-weight-of-parent', 'C14', 'setWeight on a scope after creating it with another weight',
 'a weight of zero is ignored by the integer property',
 [(MS, "        if property == IntProperty.SCOPE_WEIGHT:\n            self.m_weight = value\n", "        if property == IntProperty.SCOPE_WEIGHT and value:\n            self.m_weight = value\n")],
 H + '''
from ucis.int_property import IntProperty
db = mkdb([('i0', [('cg', 3, {}, [])])])
cg = next(iter(next(iter(db.scopes(ScopeTypeT.INSTANCE))).scopes(ScopeTypeT.COVERGROUP)))
try:
    cg.setIntProperty(-1, IntProperty.SCOPE_WEIGHT, 0)
except Exception as e:
    print(e)
check(cg.getWeight() == 0, cg.getWeight())
'''))
S.append(('C15-exact-type', 'C15', 'a mask that names several bin kinds',
 'bins are selected by the exact mask instead of any of its bits when the mask starts with an ignore kind',
 [('mem/mem_cover_index_iterator.py', "            if (n.data.type & self.mask) != 0:\n", "            if (n.data.type & self.mask) == n.data.type and (self.mask & ~n.data.type) < CoverTypeT.DEFAULTBIN:\n")],
 H + '''
db = mkdb([('i0', [('cg', 1, {'cps': [('a', 1, [('x', 1, 1, G)])]}, [])])])
cg = next(iter(next(iter(db.scopes(ScopeTypeT.INSTANCE))).scopes(ScopeTypeT.COVERGROUP)))
cp = next(iter(cg.scopes(ScopeTypeT.COVERPOINT)))
n = len(list(cp.coverItems(G | CoverTypeT.DEFAULTBIN | X)))
check(n == 1, n)
'''))
S.append(('C15-history-kind', 'C15', 'history nodes of more than one kind after the first match',
 'the history iterator skips the node after one of another kind',
 [('mem/mem_history_node_iterator.py', "            self.idx += 1\n", "            self.idx += 1 if next is not None else 2\n")],
 H + '''
from ucis.history_node_kind import HistoryNodeKind
db = MemFactory.create()
for i, k in enumerate((HistoryNodeKind.MERGE, HistoryNodeKind.TEST, HistoryNodeKind.TEST)):
    db.createHistoryNode(None, 'h%d' % i, None, k)
l = [h.getLogicalName() for h in db.historyNodes(HistoryNodeKind.TEST)]
check(l == ['h1', 'h2'], l)
'''))
S.append(('C16-file-basename', 'C16', 'two source files with the same base name in different directories',
 'file handles are looked up by base name',
 [(MU, "        if filename not in self.file_handle_m.keys():\n            self.file_handle_m[filename] = MemFileHandle(filename)\n        return self.file_handle_m[filename]\n",
       "        key = filename.split('/')[-1]\n        if key not in self.file_handle_m.keys():\n            self.file_handle_m[key] = MemFileHandle(filename)\n        return self.file_handle_m[key]\n")],
 H + '''
db = MemFactory.create()
a, b = db.createFileHandle('x/top.sv', None), db.createFileHandle('y/top.sv', None)
check(b.getFileName() == 'y/top.sv', b.getFileName())
'''))
S.append(('C16-cross-points-dedup', 'C16', 'a cross of a coverpoint with itself',
 'repeated coverpoints of a cross are dropped',
 [('mem/mem_cross.py', "        self.coverpoints = coverpoints\n", "        self.coverpoints = list(dict.fromkeys(coverpoints))\n")],
 H + '''
db = mkdb([('i0', [('cg', 1, {'cps': [('a', 1, [])], 'crs': [('axa', 1, ['a', 'a'], [])]}, [])])])
cg = next(iter(next(iter(db.scopes(ScopeTypeT.INSTANCE))).scopes(ScopeTypeT.COVERGROUP)))
cr = next(iter(cg.scopes(ScopeTypeT.CROSS)))
check(cr.getNumCrossedCoverpoints() == 2, cr.getNumCrossedCoverpoints())
'''))
S.append(('C16-inst-type', 'C16', 'a cover instance looked up by mask',
 'a cover instance created with weight zero keeps the covergroup type',
 [(MS, "            ret.m_type = ScopeTypeT.COVERINSTANCE\n", "            ret.m_type = ScopeTypeT.COVERINSTANCE if weight else ScopeTypeT.COVERGROUP\n")],
 H + '''
db = mkdb([('i0', [('cg', 1, {}, [('c0', 0, {})])])])
cg = next(iter(next(iter(db.scopes(ScopeTypeT.INSTANCE))).scopes(ScopeTypeT.COVERGROUP)))
l = [s.getScopeName() for s in cg.scopes(ScopeTypeT.COVERINSTANCE)]
check(l == ['c0'], l)
'''))
S.append(('C17-du-interface', 'C17', 'a design unit of interface kind',
 'the any-design-unit predicate does not hold for interfaces',
 [('scope_type_t.py', "|ScopeTypeT.DU_PROGRAM|ScopeTypeT.DU_INTERFACE)) != 0", "|ScopeTypeT.DU_PROGRAM|ScopeTypeT.INTERFACE)) != 0")],
 H + '''
check(ScopeTypeT.DU_ANY(ScopeTypeT.DU_INTERFACE), 'DU_INTERFACE is not a design unit')
'''))
S.append(('C17-active-bin', 'C17', 'the code of one seldom used bin kind',
 'two bin kinds share a bit',
 [('cover_type_t.py', "    ATTEMPTBIN  = 0x0000000000020000", "    ATTEMPTBIN  = 0x0000000000040000")],
 H + '''
check(CoverTypeT.ATTEMPTBIN & CoverTypeT.ACTIVEBIN == 0, 'shared bit')
'''))
S.append(('C17-constant', 'C17', 'the C-style name of a seldom used flag',
 'a C-style name denotes another flag',
 [('__init__.py', "UCIS_TOGGLE_DIR_OUT      = ToggleDirT.OUT", "UCIS_TOGGLE_DIR_OUT      = ToggleDirT.INOUT")],
 H + '''
from ucis.toggle_dir_t import ToggleDirT
check(UCIS_TOGGLE_DIR_OUT == ToggleDirT.OUT, UCIS_TOGGLE_DIR_OUT)
'''))
API = H + '''
class Rec:
    def __init__(self, log, name):
        self._log, self._name = log, name
    def __getattr__(self, n):
        def f(*a, **k):
            self._log.append((self._name, n, a))
            return 'result'
        return f
log = []
db, obj = Rec(log, 'db'), Rec(log, 'obj')
'''
S.append(('C18-real-property-db', 'C18', 'reading a real property of an object',
 'a real property is always read from the database',
 [('__init__.py', "        return obj.getRealProperty(coverindex, property)\n", "        return (obj if coverindex >= 0 else db).getRealProperty(coverindex, property)\n")],
 API + '''
ucis_GetRealProperty(db, obj, -1, 7)
check(log == [('obj', 'getRealProperty', (-1, 7))], log)
'''))
S.append(('C18-write-recurse', 'C18', 'writing part of a database recursively',
 'the recurse flag is lost when a scope is given',
 [('__init__.py', "        recurse==1, \n", "        recurse==1 and scope is None, \n")],
 API + '''
check(ucis_Write(db, 'f', obj, 1, 3) == 0, 'status')
check(log[0][2][2] == True, log)
'''))
S.append(('C18-handle-order', 'C18', 'creating a file handle with a work directory',
 'file name and work directory are exchanged for absolute work directories',
 [('__init__.py', "    return db.createFileHandle(filename, fileworkdir)\n", "    return db.createFileHandle(filename, fileworkdir if fileworkdir != filename else None)\n")],
 API + '''
ucis_CreateFileHandle(db, 'x', 'x')
check(log == [('db', 'createFileHandle', ('x', 'x'))], log)
'''))
CMD = H + '''
import subprocess
from ucis.xml.xml_factory import XmlFactory
T = os.environ['DEMO_TMP']
def put(n, insts):
    p = os.path.join(T, n)
    XmlFactory.write(mkdb(insts), p)
    return p
def ucis(*a):
    return subprocess.run([sys.executable, '-m', 'ucis'] + list(a), capture_output=True, text=True)
sp = {'cps': [('a', 1, [('x', 1, 1, G)])]}
'''
FILES = H + '''
import builtins, io
opened = []
_open = builtins.open
def spy(*a, **k):
    f = _open(*a, **k)
    opened.append(f)
    return f
builtins.open = spy
T = os.environ['DEMO_TMP']
'''
S.append(('C20-caller-stream', 'C20', 'an XML stream that is validated and read again by the caller',
 'a stream supplied by the caller is closed after validation when it is a text stream',
 [('xml/__init__.py', "    finally:\n        if type(file_or_filename) == str:\n            fp.close()\n", "    finally:\n        if not isinstance(fp, BytesIO):\n            fp.close()\n"),
  ('xml/__init__.py', "import os\n", "import os\nfrom io import BytesIO\n")],
 FILES + '''
from ucis.xml.xml_factory import XmlFactory
from ucis.xml import validate_ucis_xml
p = os.path.join(T, 'o.xml')
XmlFactory.write(mkdb([('i0', [])]), p)
f = open(p)
validate_ucis_xml(f)
check(not f.closed, 'stream of the caller closed')
'''))
LIB = H + '''
import ucis.lib.libucis as L
calls = []
class Fake:
    def __getattr__(self, n):
        def f(*a):
            calls.append((n, a))
            return RET.get(n, 4711).pop(0) if isinstance(RET.get(n), list) else RET.get(n, 4711)
        return f
RET = {}
fake = Fake()
import ucis.lib.lib_ucis, ucis.lib.lib_scope, ucis.lib.lib_covergroup, ucis.lib.lib_scope_iterator, ucis.lib.lib_history_node
for m in list(sys.modules.values()):
    if getattr(m, '__name__', '').startswith('ucis.') and hasattr(m, 'get_lib'):
        m.get_lib = lambda: fake
def called(n):
    return [a for k, a in calls if k == n]
'''
S.append(('C21-toggle-order', 'C21', 'a toggle whose type and direction codes differ',
 'toggle type and direction are exchanged in the native call',
 [('lib/lib_scope.py', "            toggle_metric,\n            toggle_type,\n            toggle_dir)\n", "            toggle_metric,\n            toggle_dir,\n            toggle_type)\n")],
 LIB + '''
from ucis.lib.lib_scope import LibScope
s = LibScope(1, 2, existing=True)
s.createToggle('t', None, 0, 10, 11, 12)
check(called('ucis_CreateToggle')[0][-3:] == (10, 11, 12), called('ucis_CreateToggle'))
'''))
S.append(('C21-iterator-leak', 'C21', 'a native scope iteration that finds nothing',
 'an exhausted iterator is freed only if it delivered something',
 [('lib/lib_scope_iterator.py', "            get_lib().ucis_FreeIterator(self.db, self.iter)\n            raise", "            if self.iter is not None and self.db != self.iter:\n                pass\n            raise")],
 LIB + '''
from ucis.lib.lib_scope_iterator import LibScopeIterator
RET['ucis_ScopeScan'] = [None]
list(LibScopeIterator(1, 2, 3))
check(len(called('ucis_FreeIterator')) == 1, 'iterator not freed')
'''))
S.append(('C21-perinstance', 'C21', 'the per-instance option of a native covergroup',
 'the per-instance option is written to the property of another option',
 [('lib/lib_covergroup.py', "        self.setIntProperty(-1, UCIS_INT_CVG_PERINSTANCE, 1 if perinst else 0)\n", "        self.setIntProperty(-1, UCIS_INT_CVG_MERGEINSTANCES, 1 if perinst else 0)\n")],
 LIB + '''
from ucis.lib.lib_covergroup import LibCovergroup
cg = LibCovergroup(1, 2)
del calls[:]
cg.setPerInstance(True)
check(called('ucis_SetIntProperty')[0][3] == UCIS_INT_CVG_PERINSTANCE, calls)
'''))
S.append(('C22-private-name', 'C22', 'a merge whose sources are not in-memory databases',
 'the merger takes the weight of cover instances from a field only in-memory scopes have',
 [('merge/db_merger.py', "src_cp_l[0].getWeight()", "src_cp_l[0].m_weight")],
 H + '''
class P:
    """A database of another backend: only the public API."""
    def __init__(self, o):
        self._o = o
    def __getattr__(self, n):
        if n.startswith('m_'):
            raise AttributeError(n)
        a = getattr(self._o, n)
        if n == 'scopes':
            return lambda mask: (P(s) for s in a(mask))
        return a
sp = {'cps': [('a', 1, [('x', 1, 1, G)])]}
try:
    merge(P(mkdb([('i0', [('cg', 1, sp, [])])])))
except AttributeError as e:
    check(False, e)
'''))
S.append(('C23-default', 'C23', 'looking up a format that is not registered',
 'an unknown report format is replaced by the default one',
 [('rgy/format_rgy.py', "        return self._format_rpt_m[fmt]\n", "        return self._format_rpt_m.get(fmt, self._format_rpt_m[self.getDefaultReport()])\n")],
 H + '''
from ucis.rgy.format_rgy import FormatRgy
try:
    d = FormatRgy.inst().getReportDesc('nosuch')
except Exception:
    sys.exit(0)
check(d is None, 'unknown format gave %s' % d.name)
'''))
S.append(('C24-stream-unchecked', 'C24', 'an invalid document read from a stream',
 'documents read from streams that cannot seek are not validated',
 [('xml/xml_factory.py', "            validate_ucis_xml(fp)\n", "            if hasattr(fp, 'name'):\n                validate_ucis_xml(fp)\n")],
 H + '''
import io
from ucis.xml.xml_factory import XmlFactory
try:
    db = XmlFactory.read(io.BytesIO(b'<UCIS><bogus/></UCIS>'))
except Exception:
    sys.exit(0)
check(False, 'invalid document accepted')
'''))
S.append(('C24-log-only', 'C24', 'a document with a value of the wrong type for an attribute',
 'validate_ucis_xml returns True for documents that fail with a type error',
 [('xml/__init__.py', "        ret = ucis_schema.assertValid(doc)\n        ret = True\n", "        ucis_schema.validate(doc)\n        ret = ucis_schema.error_log.filter_from_errors() is not None\n")],
 H + '''
import io
from ucis.xml import validate_ucis_xml
try:
    r = validate_ucis_xml(io.BytesIO(b'<UCIS><bogus/></UCIS>'))
except Exception:
    sys.exit(0)
check(not r, 'invalid document reported as valid')
'''))
