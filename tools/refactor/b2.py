# report builder: table-driven bins by kind, accumulators as tuples
def edit(sub, root):
    sub('report/coverage_report_builder.py',
("""        for ci_n in cp_n.coverItems(CoverTypeT.IGNOREBIN):
            cvg_data = ci_n.getCoverData()
            
            cp_r.ignore_bins.append(CoverageReport.CoverBin(
                    ci_n.getName(),
                    cvg_data.at_least,
                    cvg_data.data))
            
        for ci_n in cp_n.coverItems(CoverTypeT.ILLEGALBIN):
            cvg_data = ci_n.getCoverData()
            
            cp_r.illegal_bins.append(CoverageReport.CoverBin(
                    ci_n.getName(),
                    cvg_data.at_least,
                    cvg_data.data))
""","""        for kind, dst in ((CoverTypeT.IGNOREBIN, cp_r.ignore_bins),
                          (CoverTypeT.ILLEGALBIN, cp_r.illegal_bins)):
            for ci_n in cp_n.coverItems(kind):
                dst.append(self._to_bin(ci_n))
"""),
("""    def build_cross(self, cr_n""","""    @staticmethod
    def _to_bin(ci_n):
        cvg_data = ci_n.getCoverData()
        return CoverageReport.CoverBin(
            count=cvg_data.data,
            name=ci_n.getName(),
            goal=cvg_data.at_least)

    def build_cross(self, cr_n"""),
("""        coverage = 0.0

        div = 0
        for cp in cg_r.coverpoints:
            if cp.weight > 0:
                coverage += cp.coverage * cp.weight
            div += cp.weight
            
        for cr in cg_r.crosses:
            coverage += cr.coverage * cr.weight
            div += cr.weight
            
        if div > 0: coverage /= div

        cg_r.coverage = coverage
""","""        coverage, div = 0.0, 0
        for item in itertools.chain(cg_r.coverpoints, cg_r.crosses):
            coverage, div = coverage + item.coverage * item.weight, div + item.weight

        cg_r.coverage = coverage / div if div > 0 else coverage
"""),
("""            if cvg_data.data >= cvg_data.at_least:
                num_hit += 1
                
            cp_r.bins""","""            num_hit += int(cvg_data.data >= cvg_data.at_least)
            cp_r.bins"""),
("from math import ceil","import itertools\nfrom math import ceil"),
("""        if total > 0: cr_r.coverage = (100*num_hit)/total
""","""        if not total:
            return cr_r
        cr_r.coverage = num_hit * 100 / total
"""),
)
