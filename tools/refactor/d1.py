def edit(sub, root):
    f='report/text_coverage_report_formatter.py'; p=root+f; s=open(p).read()
    i=s.index('    def report_covergroup(self')
    new=s[:i]+'''    def _item(self, kind, item):
        pct = round(item.coverage, self.round)
        self.writeln("%s %s : %s%%", kind, item.name, "%.*f" % (self.round, pct))

    def report_covergroup(self,
                          cg : CoverageReport.Covergroup,
                          is_inst):
        self._item("INST" if is_inst else "TYPE", cg)
        self._ind += "    "
        for cp in cg.coverpoints:
            self.report_coverpoint(cp)
        for cr in cg.crosses:
            self.report_cross(cr)
        for cg_i in cg.covergroups:
            self.report_covergroup(cg_i, True)
        self._ind = self._ind[:-4]

    def report_coverpoint(self, cp : CoverageReport.Coverpoint):
        self._item("CVP", cp)
        if not self.details:
            return
        self.report_bins("Bins:", cp.bins)
        if cp.ignore_bins:
            self.report_bins("IgnoreBins:", cp.ignore_bins)
        if cp.illegal_bins:
            self.report_bins("IllegalBins:", cp.illegal_bins)

    def report_cross(self, cr : CoverageReport.Cross):
        self._item("CROSS", cr)
        if self.details:
            self.report_bins("Bins:", cr.bins)

    def report_bins(self, title, bins : List[CoverageReport.CoverBin]):
        self.writeln(title)
        self._ind += "    "
        if self.order_bins_by_hit:
            hit, miss = [], []
            for b in bins:
                (hit if b.hit else miss).append(b)
            bins = hit + miss
        for b in bins:
            self.writeln("%s : %d", b.name, b.count)
        self._ind = self._ind[:-4]

    def writeln(self, msg, *args):
        self._fp.write(self._ind)
        self._fp.write(msg % args)
        self._fp.write("\\n")
'''
    compile(new,p,'exec'); open(p,'w').write(new)
