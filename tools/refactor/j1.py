def edit(sub, root):
    f='report/format_rpt_json.py'; p=root+f; s=open(p).read()
    i=s.index('    def report_covergroup(self')
    new=s[:i].replace('''        for cg in report.covergroups:
            if covreport.covergroups is None:
                covreport.covergroups = []
            covreport.covergroups.append(self.report_covergroup(cg))
''','''        if report.covergroups:
            covreport.covergroups = [self.report_covergroup(cg) for cg in report.covergroups]
''')+'''    def _common(self, kind, item):
        ret = kind()
        ret.name = item.name
        ret.coverage = item.coverage
        return ret

    def _bins(self, bins):
        return [self._bin(b) for b in bins]

    def _bin(self, b):
        b_j = self._ns.CoverBin()
        b_j.name = b.name
        b_j.count = b.count
        return b_j

    def report_covergroup(self, cg : CoverageReport.Covergroup):
        cg_j = self._common(self._ns.CovergroupType, cg)
        if len(cg.coverpoints) > 0:
            cg_j.coverpoints = [self.report_coverpoint(cp) for cp in cg.coverpoints]
        if len(cg.crosses) > 0:
            cg_j.crosses = list(map(self.report_cross, cg.crosses))
        if len(cg.covergroups) > 0:
            cg_j.covergroups = [self.report_covergroup(cg_i) for cg_i in cg.covergroups]
        return cg_j

    def report_coverpoint(self, cp : CoverageReport.Coverpoint):
        cp_j = self._common(self._ns.Coverpoint, cp)
        if self.details:
            for attr, bins in (("bins", cp.bins), ("ignorebins", cp.ignore_bins), ("illegalbins", cp.illegal_bins)):
                if bins:
                    setattr(cp_j, attr, self._bins(bins))
        return cp_j

    def report_cross(self, cr : CoverageReport.Cross):
        cr_j = self._common(self._ns.Cross, cr)
        if self.details and cr.bins is not None:
            cr_j.bins = self._bins(cr.bins)
        return cr_j
'''
    compile(new,p,'exec'); open(p,'w').write(new)
