import re
# merger: generic grouping helper used by everything
HEL='''
    @staticmethod
    def _collect(scopes, kind):
        """Groups the sub-scopes of the given kind by name, in order of first appearance"""
        groups = OrderedDict()
        for scope in scopes:
            for sub in scope.scopes(kind):
                groups.setdefault(sub.getScopeName(), []).append(sub)
        return groups

    @staticmethod
    def _collect_bins(scopes, bin_t):
        bins = OrderedDict()
        for scope in scopes:
            for ci in scope.coverItems(bin_t):
                data = ci.getCoverData()
                entry = bins.get(ci.getName())
                if entry is None:
                    bins[ci.getName()] = [data.data, data.at_least]
                else:
                    entry[0] += data.data
        return bins

    def _merge_bins(self, dst, scopes):
        for bin_t in DbMerger.BIN_TYPES:
            for name, (count, at_least) in self._collect_bins(scopes, bin_t).items():
                dst.createBin(name, None, at_least, count, name, bin_t)
'''
def edit(sub, root):
    p=root+'merge/db_merger.py'; s=open(p).read()
    head=s[:s.index('class DbMerger')]
    new=head.replace('from typing import','from collections import OrderedDict\nfrom typing import')+'''class DbMerger(object):

    BIN_TYPES = (CoverTypeT.CVGBIN, CoverTypeT.IGNOREBIN, CoverTypeT.ILLEGALBIN)

    def __init__(self):
        self.dst_db = None
'''+HEL+'''
    def merge(self, dst_db, src_db_l):
        self.dst_db = dst_db
        for name, src_scopes in self._collect(src_db_l, ScopeTypeT.INSTANCE).items():
            dst_iscope = self._create_instance(src_scopes[0])
            self._merge_covergroups(dst_iscope, src_scopes)

    def _create_instance(self, src):
        du = src.getInstanceDu()
        flags = (UCIS_ENABLED_STMT | UCIS_ENABLED_BRANCH
                | UCIS_ENABLED_COND | UCIS_ENABLED_EXPR
                | UCIS_ENABLED_FSM | UCIS_ENABLED_TOGGLE
                | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU)
        dst_du = self.dst_db.createScope(du.getScopeName(), du.getSourceInfo(),
            du.getWeight(), UCIS_OTHER, UCIS_DU_MODULE, flags)
        return self.dst_db.createInstance(src.getScopeName(), src.getSourceInfo(),
            src.getWeight(), UCIS_OTHER, UCIS_INSTANCE, dst_du, UCIS_INST_ONCE)

    def _merge_covergroups(self, dst_scope, src_scopes):
        for name, cgs in self._collect(src_scopes, ScopeTypeT.COVERGROUP).items():
            first = cgs[0]
            dst_cg = dst_scope.createCovergroup(name, first.getSourceInfo(), first.getWeight(), UCIS_OTHER)
            self._merge_content(dst_cg, cgs)
            for iname, insts in self._collect(cgs, ScopeTypeT.COVERINSTANCE).items():
                dst_i = dst_cg.createCoverInstance(iname, insts[0].getSourceInfo(), insts[0].getWeight(), UCIS_OTHER)
                self._merge_content(dst_i, insts)

    def _merge_content(self, dst_cg, src_cg_l):
        cps = {}
        for name, src_cps in self._collect(src_cg_l, ScopeTypeT.COVERPOINT).items():
            cps[name] = dst_cg.createCoverpoint(name, src_cps[0].getSourceInfo(), src_cps[0].getWeight(), UCIS_OTHER)
            self._merge_bins(cps[name], src_cps)
        for name, src_crs in self._collect(src_cg_l, ScopeTypeT.CROSS).items():
            first = src_crs[0]
            cp_l = []
            for i in range(first.getNumCrossedCoverpoints()):
                cp_n = first.getIthCrossedCoverpoint(i).getScopeName()
                try:
                    cp_l.append(cps[cp_n])
                except KeyError:
                    raise Exception("Cannot find coverpoint %s when creating cross %s" % (cp_n, name))
            cr = dst_cg.createCross(name, first.getSourceInfo(), first.getWeight(), UCIS_OTHER, cp_l)
            self._merge_bins(cr, src_crs)
'''
    compile(new,p,'exec'); open(p,'w').write(new)
