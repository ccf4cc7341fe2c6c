import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import H
from more2 import LIB
S = []
S.append(('C21-vector-width', 'C21', 'a native cover item whose data is 64 bits wide and has a goal',
 'the test for 64-bit data compares the whole flag word, so data with any further flag set is refused',
 [('lib/lib_cover_data.py', "(covdata.flags & CoverFlagsT.IS_64BIT) != 0", "covdata.flags == CoverFlagsT.IS_64BIT")],
 LIB + '''
from ucis.lib.lib_cover_data import LibCoverData
from ucis.cover_data import CoverData
from ucis.cover_flags_t import CoverFlagsT
from ucis.cover_type_t import CoverTypeT
d = CoverData(CoverTypeT.CVGBIN, CoverFlagsT.IS_64BIT | CoverFlagsT.HAS_GOAL)
d.data = 5000000000
try:
    r = LibCoverData.ctor(d)
    v = r.data.int64
except Exception as e:
    v = e
check(v == 5000000000, v)
'''))
S.append(('C21-cross-points', 'C21', 'a native cross over more than one coverpoint',
 'only the first coverpoint of a cross reaches the library; the others are null handles',
 [('lib/lib_covergroup.py', "for i,cp in enumerate(points_l):", "for i,cp in enumerate(points_l[:1]):")],
 LIB + '''
from ucis.lib.lib_covergroup import LibCovergroup
from ucis.lib.lib_coverpoint import LibCoverpoint
cg = LibCovergroup(1, 2)
a, b = LibCoverpoint(1, 33), LibCoverpoint(1, 44)
del calls[:]
cg.createCross('x', None, 1, 1, [a, b])
c = called('ucis_CreateCross')[0]
arr = [x for x in c if hasattr(x, '_length_') or hasattr(x, 'contents') or hasattr(x, '_obj')]
arr = [getattr(x, '_obj', x) for x in arr]
vals = [list(x) for x in arr if hasattr(x, '_length_')]
check(vals and vals[0] == [33, 44], (c, vals))
'''))
S.append(('C21-write-top-only', 'C21', 'writing a native database without naming a scope',
 'write without arguments no longer descends below the top scopes',
 [('lib/lib_ucis.py', "def write(self, file, scope=None, recurse=True, covertype=-1):", "def write(self, file, scope=None, recurse=None, covertype=-1):")],
 LIB + '''
from ucis.lib.lib_ucis import LibUCIS
db = LibUCIS(None, 7)
del calls[:]
db.write('f.ucis')
c = called('ucis_Write')[0]
check(c[-2] == 1, c)
'''))
