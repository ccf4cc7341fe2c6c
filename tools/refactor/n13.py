def edit(sub, root):
    f='report/format_rpt_json.py'; p=root+f; s=open(p).read()
    i=s.index('        for cg in report.covergroups:'); j=s.index('    @classmethod\n    def getCoverageNS')
    s=s[:i]+'''        self._fill(covreport, "covergroups", report.covergroups, self.report_covergroup)

        json.dump(covreport.as_dict(), self._fp, indent=4)
        self._fp.write("\\n")

    def _fill(self, parent, field, items, build):
        built = [build(i) for i in items]
        if len(built) > 0:
            setattr(parent, field, built)

    def _named(self, j, item):
        j.name = item.name
        j.coverage = item.coverage
        return j

    def _bin(self, b):
        b_j = self._ns.CoverBin()
        b_j.name, b_j.count = b.name, b.count
        return b_j

'''+s[j:]
    i=s.index('    def report_covergroup(')
    s=s[:i]+'''    def report_covergroup(self, cg : CoverageReport.Covergroup):
        cg_j = self._named(self._ns.CovergroupType(), cg)
        self._fill(cg_j, "coverpoints", cg.coverpoints, self.report_coverpoint)
        self._fill(cg_j, "crosses", cg.crosses, self.report_cross)
        self._fill(cg_j, "covergroups", cg.covergroups, self.report_covergroup)
        return cg_j

    def report_coverpoint(self, cp : CoverageReport.Coverpoint):
        cp_j = self._named(self._ns.Coverpoint(), cp)

        if self.details:
            for field, bins in (("bins", cp.bins),
                                ("ignorebins", cp.ignore_bins),
                                ("illegalbins", cp.illegal_bins)):
                if bins:
                    setattr(cp_j, field, [self._bin(b) for b in bins])

        return cp_j

    def report_cross(self, cr : CoverageReport.Cross):
        cr_j = self._named(self._ns.Cross(), cr)

        if self.details and cr.bins is not None:
            cr_j.bins = list(map(self._bin, cr.bins))

        return cr_j
'''
    open(p,'w').write(s)
