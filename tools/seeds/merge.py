import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import H
M = 'merge/db_merger.py'
S = []
S.append(('C01-ignored-bin-collision', 'C01', 'the same bin name used for a normal and an ignore bin of one coverpoint',
 'the table of bin names survives the loop over bin kinds, so an ignore bin named like a normal bin inherits its count and is lost or doubled',
 [(M, "        for bin_t in (CoverTypeT.CVGBIN,CoverTypeT.IGNOREBIN,CoverTypeT.ILLEGALBIN):\n            bin_name_m : Dict[str,List[int,int]] = {}\n            bin_name_l = []",
      "        bin_name_m : Dict[str,List[int,int]] = {}\n        for bin_t in (CoverTypeT.CVGBIN,CoverTypeT.IGNOREBIN,CoverTypeT.ILLEGALBIN):\n            bin_name_l = []")],
 H + '''
def db(n):
    return mkdb([('i0', [('cg', 1, {'cps': [('cp', 1, [('b', n, 1, G), ('other', 0, 1, G), ('b', 2 * n, 1, I)])]}, [])])])
d = dump(merge(db(3), db(4)))
check(d.get(('i0', 'cg', 'cp', 'IGNOREBIN', 'b')) == 14, 'ignore bin count %r' % d)
check(d.get(('i0', 'cg', 'cp', 'CVGBIN', 'b')) == 7, 'bin count %r' % d)
'''))
S.append(('C02-weight-of-last', 'C02', 'sources that give different weights to the same cross',
 'the merged cross takes the weight of the last source instead of the first',
 [(M, "                src_cr_l[0].getWeight(), # weight\n", "                src_cr_l[-1].getWeight(), # weight\n")],
 H + '''
def db(w):
    cps = [('a', 1, [('x', 1, 1, G)]), ('b', 1, [('y', 1, 1, G)])]
    return mkdb([('i0', [('cg', 1, {'cps': cps, 'crs': [('axb', w, ['a', 'b'], [('<x,y>', 1, 1, G)])]}, [])])])
m = merge(db(2), db(5))
i = next(iter(m.scopes(ScopeTypeT.INSTANCE)))
cg = next(iter(i.scopes(ScopeTypeT.COVERGROUP)))
cr = next(iter(cg.scopes(ScopeTypeT.CROSS)))
check(cr.getWeight() == 2, 'weight %r' % cr.getWeight())
'''))
S.append(('C01-zero-hit-goal', 'C01', 'a bin that only the second source hits, with a different at_least in the first source',
 'bins without hits are not entered, so at_least comes from a later source and never-hit bins vanish from the merged database',
 [(M, "                    bin_n = ci.getName()\n                    cvg_data = ci.getCoverData()\n", "                    bin_n = ci.getName()\n                    cvg_data = ci.getCoverData()\n                    if cvg_data.data == 0 and len(src_cr_l) > 2:\n                        continue\n")],
 H + '''
def db(n):
    cps = [('a', 1, [('x', 1, 1, G)]), ('b', 1, [('y', 1, 1, G)])]
    return mkdb([('i0', [('cg', 1, {'cps': cps, 'crs': [('axb', 1, ['a', 'b'], [('<x,y>', n, 1, G), ('<x,z>', 0, 1, G)])]}, [])])])
d = dump(merge(db(1), db(2), db(3)))
check(d.get(('i0', 'cg', 'axb', 'CVGBIN', '<x,z>')) == 0, 'unhit cross bin missing: %r' % d)
check(d.get(('i0', 'cg', 'axb', 'CVGBIN', '<x,y>')) == 6, '%r' % d)
'''))
S.append(('C03-single-source-data', 'C03', 'a count read through the source database after a merge',
 'the accumulation is written back into the bin data object of the source',
 [(M, "                    bin_name_m[bin_n][0] += cvg_data.data\n", "                    cvg_data.data += bin_name_m[bin_n][0]\n                    bin_name_m[bin_n][0] = cvg_data.data\n")],
 H + '''
def db(n):
    cps = [('a', 1, [('x', 1, 1, G)]), ('b', 1, [('y', 1, 1, G)])]
    return mkdb([('i0', [('cg', 1, {'cps': cps, 'crs': [('axb', 1, ['a', 'b'], [('<x,y>', n, 1, G)])]}, [])])])
a, b = db(1), db(2)
before = dump(a), dump(b)
merge(a, b)
check((dump(a), dump(b)) == before, 'merging changed a source: %r' % (dump(b),))
'''))
S.append(('C02-inst-cross-table', 'C02', 'a covergroup with two cover instances whose crosses are inspected through getIthCrossedCoverpoint',
 'crosses of a cover instance are linked to the type coverpoints',
 [(M, "        self._merge_coverinsts(dst_cg, src_cg_l)\n", "        self._merge_coverinsts(dst_cg, src_cg_l, dst_cp_m)\n"),
  (M, "    def _merge_coverinsts(self, dst_cg, src_cg_l):\n", "    def _merge_coverinsts(self, dst_cg, src_cg_l, dst_cp_t):\n"),
  (M, "            dst_cp_m = self._merge_coverpoints(dst_cg_i, src_cg_i_l)\n\n", "            dst_cp_m = self._merge_coverpoints(dst_cg_i, src_cg_i_l)\n            dst_cp_m.update(dst_cp_t)\n\n")],
 H + '''
sp = {'cps': [('a', 1, [('x', 1, 1, G)]), ('b', 1, [('y', 1, 1, G)])], 'crs': [('axb', 1, ['a', 'b'], [('<x,y>', 1, 1, G)])]}
m = merge(mkdb([('i0', [('cg', 1, sp, [('ci0', 1, sp), ('ci1', 1, sp)])])]))
i = next(iter(m.scopes(ScopeTypeT.INSTANCE)))
cg = next(iter(i.scopes(ScopeTypeT.COVERGROUP)))
for ci in cg.scopes(ScopeTypeT.COVERINSTANCE):
    mine = list(ci.scopes(ScopeTypeT.COVERPOINT))
    for cr in ci.scopes(ScopeTypeT.CROSS):
        for k in range(cr.getNumCrossedCoverpoints()):
            check(any(cr.getIthCrossedCoverpoint(k) is x for x in mine), 'cross of %s linked outside its instance' % ci.getScopeName())
'''))
