# text report: lines via f-strings, contextmanager indent
def edit(sub, root):
    f='report/format_rpt_text.py'; p=root+f; s=open(p).read()
    i=s.index('    def report_coverpoint(self'); 
    new=s[:i].replace('from ucis.report.coverage_report import','from contextlib import contextmanager\nfrom ucis.report.coverage_report import',1)+'''    def report_coverpoint(self, cp : CoverageReport.Coverpoint):
        self.writeln("CVP %s : %f%%", cp.name, round(cp.coverage))
        if not self.details:
            return
        self._section("Bins:", cp.bins)
        for title, bins in (("IgnoreBins:", cp.ignore_bins), ("IllegalBins:", cp.illegal_bins)):
            if bins:
                self._section(title, bins)

    def _section(self, title, bins):
        self.writeln(title)
        with self.indent():
            self.report_bins(bins)

    def report_cross(self, cr : CoverageReport.Cross):
        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
        if self.details:
            self._section("Bins:", cr.bins)

    def report_bins(self, bins : List[CoverageReport.CoverBin]):
        if self.order_bins_by_hit:
            bins = [b for b in bins if b.hit] + [b for b in bins if not b.hit]
        for b in bins:
            self.writeln("%s : %d", b.name, b.count)

    def writeln(self, msg, *args):
        line = msg % args
        self._fp.write("%s%s\\n" % (self._ind, line))

    @contextmanager
    def indent(self):
        saved = self._ind
        self._ind = saved + "    "
        try:
            yield
        finally:
            self._ind = saved
'''
    compile(new,p,'exec'); open(p,'w').write(new)
