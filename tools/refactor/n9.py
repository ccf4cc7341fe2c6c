def edit(sub, root):
    f='merge/db_merger.py'; p=root+f; s=open(p).read()
    i=s.index('class DbMerger')
    s=s[:i].replace('from typing import Dict, Tuple, List\n','from collections import OrderedDict, namedtuple\nfrom typing import Dict, Tuple, List\n')+'''DU_FLAGS = (UCIS_ENABLED_STMT | UCIS_ENABLED_BRANCH
            | UCIS_ENABLED_COND | UCIS_ENABLED_EXPR
            | UCIS_ENABLED_FSM | UCIS_ENABLED_TOGGLE
            | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU)

BIN_TYPES = (CoverTypeT.CVGBIN, CoverTypeT.IGNOREBIN, CoverTypeT.ILLEGALBIN)


class BinInfo(object):
    """Goal and accumulated count of one bin"""

    def __init__(self, goal):
        self.goal = goal
        self.count = 0


def group_by_name(parents, kind):
    """Maps each name to the children of that name, one from each parent"""
    groups = OrderedDict()
    for parent in parents:
        found = {}
        for child in parent.scopes(kind):
            found[child.getScopeName()] = child
        for name, child in found.items():
            groups.setdefault(name, []).append(child)
    return groups


class DbMerger(object):

    def __init__(self):
        self.dst_db = None

    def merge(self, dst_db, src_db_l : List[UCIS]):
        self.dst_db = dst_db

        for name, scopes in group_by_name(src_db_l, ScopeTypeT.INSTANCE).items():
            first = scopes[0]
            du = first.getInstanceDu()
            dst_du = self.dst_db.createScope(
                du.getScopeName(), du.getSourceInfo(), du.getWeight(),
                UCIS_OTHER, UCIS_DU_MODULE, DU_FLAGS)
            dst = self.dst_db.createInstance(
                name, first.getSourceInfo(), first.getWeight(),
                UCIS_OTHER, UCIS_INSTANCE, dst_du, UCIS_INST_ONCE)
            self._merge_covergroups(dst, scopes)

    def _merge_covergroups(self, dst, srcs):
        for name, cgs in group_by_name(srcs, ScopeTypeT.COVERGROUP).items():
            dst_cg = dst.createCovergroup(
                name, cgs[0].getSourceInfo(), cgs[0].getWeight(), UCIS_OTHER)
            self._merge_contents(dst_cg, cgs)

            for inst_name, insts in group_by_name(cgs, ScopeTypeT.COVERINSTANCE).items():
                dst_inst = dst_cg.createCoverInstance(
                    inst_name, insts[0].getSourceInfo(), insts[0].getWeight(), UCIS_OTHER)
                self._merge_contents(dst_inst, insts)

    def _merge_contents(self, dst, srcs):
        points = {}
        for name, cps in group_by_name(srcs, ScopeTypeT.COVERPOINT).items():
            points[name] = dst.createCoverpoint(
                name, cps[0].getSourceInfo(), cps[0].getWeight(), UCIS_OTHER)
            self._merge_bins(points[name], cps)

        for name, crs in group_by_name(srcs, ScopeTypeT.CROSS).items():
            crossed = [self._find(points, p, name) for p in self._crossed(crs[0])]
            dst_cr = dst.createCross(
                name, crs[0].getSourceInfo(), crs[0].getWeight(), UCIS_OTHER, crossed)
            self._merge_bins(dst_cr, crs)

    def _crossed(self, cross):
        for i in range(cross.getNumCrossedCoverpoints()):
            yield cross.getIthCrossedCoverpoint(i).getScopeName()

    def _find(self, points, cp_name, cr_name):
        try:
            return points[cp_name]
        except KeyError:
            raise Exception("Cannot find coverpoint %s when creating cross %s" % (cp_name, cr_name))

    def _merge_bins(self, dst, srcs):
        for bin_t in BIN_TYPES:
            infos = {}
            for src in srcs:
                for ci in src.coverItems(bin_t):
                    data = ci.getCoverData()
                    info = infos.get(ci.getName())
                    if info is None:
                        info = infos[ci.getName()] = BinInfo(data.at_least)
                    info.count += data.data
            for name in infos:
                dst.createBin(name, None, infos[name].goal, infos[name].count, name, bin_t)
'''
    open(p,'w').write(s)
