def edit(sub, root):
    sub('report/coverage_report.py',
('''    def add_covergroup(self,cg)->Covergroup:
        self.covergroups.append(cg)
        return cg
''','''    def add_covergroup(self,cg)->Covergroup:
        self.covergroups += [cg]
        return cg
'''),
('''            self.coverpoints.append(cp)
            self.coverpoint_m[cp.name] = cp
            return cp
''','''            self.coverpoint_m.update({cp.name: cp})
            self.coverpoints.append(cp)
            return self.coverpoint_m[cp.name]
'''),
('''        def __init__(self, name, goal, count):
            self.name = name
            self.goal = goal
            self.count = count

        @property            
        def hit(self):
            return self.count >= self.goal
''','''        def __init__(self, name, goal, count):
            self.name, self.goal, self.count = name, goal, count

        @property            
        def hit(self):
            return not self.count < self.goal
'''))
    sub('report/coverage_report_builder.py')
    sub('rgy/format_if_db.py')
    sub('db_format_rgy.py',
('''        return name in self._fmt_if_m.keys()''','''        return self._fmt_if_m.get(name) is not None'''),
('''        if name not in self._fmt_if_m.keys():
            raise Exception("Format %s not supported" % name)
        return self._fmt_if_m[name]()''','''        try:
            fmt_if = self._fmt_if_m[name]
        except KeyError:
            raise Exception("Format %s not supported" % name)
        return fmt_if()'''))
