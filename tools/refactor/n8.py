def edit(sub, root):
    f='report/coverage_report_builder.py'; p=root+f; s=open(p).read()
    i=s.index('        # Overall coverage spans'); j=s.index('    def build_covergroups(')
    s=s[:i]+'''        # Overall coverage spans the covergroups of all instances
        self.report.coverage = self._average(self.report.covergroups, self.report.coverage)
        return self.report

    @staticmethod
    def _average(items, default=0.0):
        """Weighted mean of the coverage of items"""
        div = sum(i.weight for i in items)
        if div <= 0:
            return default
        return sum((i.coverage * i.weight for i in items if i.weight > 0), 0.0) / div

'''+s[j:]
    i=s.index('        cg_r.weight = cg_n.getWeight()'); 
    s=s[:i]+'''        cg_r.weight = cg_n.getWeight()
        cg_r.coverpoints.extend(map(self.build_coverpoint, cg_n.scopes(ScopeTypeT.COVERPOINT)))
        cg_r.crosses += [self.build_cross(cr_in) for cr_in in cg_n.scopes(ScopeTypeT.CROSS)]
        for cg_in in cg_n.scopes(ScopeTypeT.COVERINSTANCE):
            inst = self.build_covergroup(cg_in)
            cg_r.covergroups.append(inst)

        cg_r.coverage = self._average(cg_r.coverpoints + cg_r.crosses)
        return cg_r

    def _bins(self, scope, kind):
        for ci_n in scope.coverItems(kind):
            data = ci_n.getCoverData()
            yield CoverageReport.CoverBin(ci_n.getName(), data.at_least, data.data)

    def build_coverpoint(self, cp_n : Coverpoint):
        cp_r = self._item(CoverageReport.Coverpoint, cp_n)
        cp_r.ignore_bins = list(self._bins(cp_n, CoverTypeT.IGNOREBIN))
        cp_r.illegal_bins = list(self._bins(cp_n, CoverTypeT.ILLEGALBIN))
        return cp_r

    def build_cross(self, cr_n : Cross):
        return self._item(CoverageReport.Cross, cr_n)

    def _item(self, cls, node):
        item = cls(node.getScopeName())
        item.weight = node.getWeight()
        item.bins = list(self._bins(node, CoverTypeT.CVGBIN))
        if item.bins:
            hits = [b for b in item.bins if b.count >= b.goal]
            item.coverage = (100*len(hits))/len(item.bins)
        return item
'''
    open(p,'w').write(s)
