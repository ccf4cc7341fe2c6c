# report builder: helpers + comprehensions
def edit(sub, root):
    f='report/coverage_report_builder.py'; p=root+f; s=open(p).read()
    i=s.index('    def _build(self)')
    new=s[:i]+'''    @staticmethod
    def _weighted(items):
        """Weighted average of the coverage of the items; 0.0 if there is no weight"""
        total = sum(i.weight for i in items)
        if total <= 0:
            return 0.0
        return sum(i.coverage * i.weight for i in items if i.weight > 0) / total

    @staticmethod
    def _bins(scope, bin_t):
        res = []
        for ci in scope.coverItems(bin_t):
            data = ci.getCoverData()
            res.append(CoverageReport.CoverBin(ci.getName(), data.at_least, data.data))
        return res

    @staticmethod
    def _percent_hit(bins):
        if not bins:
            return 0
        return 100 * len([b for b in bins if b.hit]) / len(bins)

    def _build(self)->'CoverageReport':
        for iscope in self.db.scopes(ScopeTypeT.INSTANCE):
            self.build_covergroups(iscope)
        self.report.coverage = self._weighted(self.report.covergroups)
        return self.report

    def build_covergroups(self, iscope):
        for cg_t in iscope.scopes(ScopeTypeT.COVERGROUP):
            cg = self.build_covergroup(cg_t)
            self.report.covergroup_m[cg.instname] = self.report.add_covergroup(cg)

    def build_covergroup(self, cg_n)->CoverageReport.Covergroup:
        name = cg_n.getScopeName()
        cg_r = CoverageReport.Covergroup(name, name)
        cg_r.weight = cg_n.getWeight()
        cg_r.coverpoints.extend(self.build_coverpoint(cp) for cp in cg_n.scopes(ScopeTypeT.COVERPOINT))
        cg_r.crosses.extend([self.build_cross(cr) for cr in cg_n.scopes(ScopeTypeT.CROSS)])
        cg_r.covergroups += [self.build_covergroup(i) for i in cg_n.scopes(ScopeTypeT.COVERINSTANCE)]
        cg_r.coverage = self._weighted(cg_r.coverpoints + cg_r.crosses)
        return cg_r

    def build_coverpoint(self, cp_n : Coverpoint):
        cp_r = CoverageReport.Coverpoint(cp_n.getScopeName())
        cp_r.weight = cp_n.getWeight()
        cp_r.bins = self._bins(cp_n, CoverTypeT.CVGBIN)
        cp_r.ignore_bins = self._bins(cp_n, CoverTypeT.IGNOREBIN)
        cp_r.illegal_bins = self._bins(cp_n, CoverTypeT.ILLEGALBIN)
        cp_r.coverage = self._percent_hit(cp_r.bins)
        return cp_r

    def build_cross(self, cr_n : Cross):
        cr_r = CoverageReport.Cross(cr_n.getScopeName())
        cr_r.weight, cr_r.bins = cr_n.getWeight(), self._bins(cr_n, CoverTypeT.CVGBIN)
        cr_r.coverage = self._percent_hit(cr_r.bins)
        return cr_r
'''
    compile(new,p,'exec'); open(p,'w').write(new)
