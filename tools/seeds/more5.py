import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import H
S = []
S.append(('C19-plus-anywhere', 'C19', 'a command line whose input file name contains a plus sign',
 'an argument that merely contains a + is set aside as a plusarg and never reaches the command',
 [('__main__.py', "        if arg[0] == '+':", "        if '+' in arg:")],
 H + '''
import sys, ucis.__main__ as m
seen = []
class P:
    def parse_args(self, args=None):
        seen.append(list(args))
        class A: pass
        a = A(); a.func = lambda x: None
        return a
m.get_parser = lambda: P()
sys.argv = ['ucis', 'report', 'run+seed1.xml', '+verbose']
m.main()
check(seen == [['report', 'run+seed1.xml']], seen)
'''))
S.append(('C16-any-covergroup', 'C16', 'asking an instance for a scope of a type it does not support',
 'a coverpoint requested directly under an instance becomes a covergroup instead of an error',
 [('mem/mem_instance_scope.py', "        if (type & ScopeTypeT.COVERGROUP) != 0:", "        if (type & (ScopeTypeT.COVERGROUP|ScopeTypeT.COVERPOINT)) != 0:")],
 H + '''
from ucis.mem.mem_ucis import MemUCIS
from ucis.source_t import SourceT
from ucis.scope_type_t import ScopeTypeT
db = MemUCIS()
i = db.createInstance('i', None, 1, SourceT.SV, ScopeTypeT.INSTANCE, None, 0)
try:
    r = i.createScope('cp', None, 1, SourceT.SV, ScopeTypeT.COVERPOINT, 0)
except Exception:
    r = None
check(r is None or r.getScopeType() == ScopeTypeT.COVERPOINT, r and r.getScopeType())
'''))
S.append(('C14-source-type', 'C14', 'writing and then reading the source type of a scope as a property',
 'the source type property can be written but is no longer read',
 [('mem/mem_scope.py', "        elif property == IntProperty.SCOPE_SOURCE_TYPE:\n            return self.m_source_type\n        elif property == IntProperty.SCOPE_IS_UNDER_DU:", "        elif property == IntProperty.SCOPE_IS_UNDER_DU:")],
 H + '''
from ucis.mem.mem_ucis import MemUCIS
from ucis.int_property import IntProperty
db = MemUCIS()
db.setIntProperty(-1, IntProperty.SCOPE_SOURCE_TYPE, 7)
try:
    v = db.getIntProperty(-1, IntProperty.SCOPE_SOURCE_TYPE)
except Exception as e:
    v = repr(e)
check(v == 7, v)
'''))
