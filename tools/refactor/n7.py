def edit(sub, root):
    sub('report/format_rpt_text.py',
('''        self.writeln("%s %s : %f%%", 
                "INST" if is_inst else "TYPE",
                cg.name, round(cg.coverage, 2))
        
        with self.indent():
            for cp in cg.coverpoints:
                self.report_coverpoint(cp)
            for cr in cg.crosses:
                self.report_cross(cr)
        
            for cg_i in cg.covergroups:
                self.report_covergroup(cg_i, True)
''','''        kind = "TYPE"
        if is_inst:
            kind = "INST"
        self.heading(kind, cg, 2)
        
        with self.indent():
            for items, emit in ((cg.coverpoints, self.report_coverpoint), (cg.crosses, self.report_cross)):
                for item in items:
                    emit(item)

            for cg_i in cg.covergroups:
                self.report_covergroup(cg_i, is_inst=True)

    def heading(self, kind, item, digits=None):
        self.writeln("%s %s : %f%%", kind, item.name, round(item.coverage, digits))
'''),
('''        self.writeln("CVP %s : %f%%", cp.name, round(cp.coverage))
        
        if self.details:
            self.writeln("Bins:")
            with self.indent():
                self.report_bins(cp.bins)
            if len(cp.ignore_bins) > 0:
                self.writeln("IgnoreBins:")
                with self.indent():
                    self.report_bins(cp.ignore_bins)
            if len(cp.illegal_bins) > 0:
                self.writeln("IllegalBins:")
                with self.indent():
                    self.report_bins(cp.illegal_bins)
''','''        self.heading("CVP", cp)

        if not self.details:
            return

        self.bin_section("Bins:", cp.bins)
        if cp.ignore_bins:
            self.bin_section("IgnoreBins:", cp.ignore_bins)
        if cp.illegal_bins:
            self.bin_section("IllegalBins:", cp.illegal_bins)

    def bin_section(self, title, bins):
        self.writeln(title)
        with self.indent():
            self.report_bins(bins)
'''),
('''        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
        
        if self.details:
            self.writeln("Bins:")
            with self.indent():
                self.report_bins(cr.bins)
''','''        self.heading("CROSS", cr)

        if self.details:
            self.bin_section("Bins:", cr.bins)
'''),
('''        if self.order_bins_by_hit:
            for b in bins:
                if b.hit:
                    self.writeln("%s : %d", b.name, b.count)
            for b in bins:
                if not b.hit:
                    self.writeln("%s : %d", b.name, b.count)
        else:
            for b in bins:
                self.writeln("%s : %d", b.name, b.count)
''','''        ordered = bins
        if self.order_bins_by_hit:
            ordered = [b for b in bins if b.hit] + [b for b in bins if not b.hit]
        for b in ordered:
            self.writeln("%s : %d", b.name, b.count)
'''),
('''        self._fp.write(self._ind + msg % args + "\\n")
''','''        text = msg % args
        self._fp.write("".join([self._ind, text, "\\n"]))
'''))
    sub('report/text_coverage_report_formatter.py',
('''        if self.order_bins_by_hit:
            for b in bins:
                if b.hit:
                    self.writeln("%s : %d", b.name, b.count)
            for b in bins:
                if not b.hit:
                    self.writeln("%s : %d", b.name, b.count)
        else:
            for b in bins:
                self.writeln("%s : %d", b.name, b.count)
''','''        passes = [lambda b: True]
        if self.order_bins_by_hit:
            passes = [lambda b: b.hit, lambda b: not b.hit]
        for accept in passes:
            for b in filter(accept, bins):
                self.writeln("%s : %d", b.name, b.count)
'''),
('''        self._fp.write(self._ind + msg % args + "\\n")
''','''        print(self._ind + msg % args, file=self._fp)
'''))
