def edit(sub, root):
    f='yaml/yaml_reader.py'; p=root+f; s=open(p).read()
    a=s.index("                        # Now, do bins..."); b=s.index("                if cg_i.crosses is not None:\n                    for cr in cg_i.crosses:\n                        if cr.cover")
    s=s[:a]+'''                        for kind in ("bins", "ignorebins", "illegalbins"):
                            self._accumulate(cp_t, kind, getattr(cp, kind))

'''+s[b:]
    s=s.replace('''        if cp.bins is not None:        
            for b in cp.bins:
                cp_scope.createBin(
                    str(b.name),
                    cp_location,
                    at_least,
                    b.count,
                    str(b.name),
                    CoverTypeT.CVGBIN)
                
        if cp.ignorebins is not None:
            for b in cp.ignorebins:
                cp_scope.createBin(
                    str(b.name),
                    cp_location,
                    at_least,
                    b.count,
                    str(b.name),
                    CoverTypeT.IGNOREBIN)
                
        if cp.illegalbins is not None:
            for b in cp.illegalbins:
                cp_scope.createBin(
                    str(b.name),
                    cp_location,
                    at_least,
                    b.count,
                    str(b.name),
                    CoverTypeT.ILLEGALBIN)
''','''        for bins, kind in ((cp.bins, CoverTypeT.CVGBIN),
                           (cp.ignorebins, CoverTypeT.IGNOREBIN),
                           (cp.illegalbins, CoverTypeT.ILLEGALBIN)):
            for b in bins or []:
                name = str(b.name)
                cp_scope.createBin(name, cp_location, at_least, b.count, name, kind)
''')
    s=s.replace('''    def record_coverpoint(self''','''    def _accumulate(self, cp_t, kind, bins):
        """Adds the bin counts of an instance to those of the type"""
        if bins is None:
            return
        if getattr(cp_t, kind) is None:
            setattr(cp_t, kind, [])
        for b in bins:
            t_b = self._find_bin(getattr(cp_t, kind), b.name)
            if t_b is None:
                t_b = self.cvg_ns.CoverageBin()
                t_b.name = str(b.name)
                t_b.count = 0
                getattr(cp_t, kind).append(t_b)
            t_b.count += b.count

    @staticmethod
    def _find_bin(bins, name):
        for b in bins:
            if b.name == name:
                return b
        return None

    def _resolve(self, cr, cp_n_scope_m):
        cp_l = []
        for cp in cr.coverpoints:
            if cp not in cp_n_scope_m.keys():
                raise Exception("Coverpoint %s referenced in cross %s is not defined" % (
                    cp, str(cr.name)))
            cp_l.append(cp_n_scope_m[cp])
        return cp_l

    def record_coverpoint(self''',1)
    s=s.replace('''            cp_l = []
            
            for cp in cr.coverpoints:
                if cp in cp_n_scope_m.keys():
                    cp_l.append(cp_n_scope_m[cp])
                else:
                    raise Exception("Coverpoint %s referenced in cross %s is not defined" % (
                        cp, str(cr.name)))
            
            self.record_cross(cg_t_scope, cp_l, cr)
''','''            self.record_cross(cg_t_scope, self._resolve(cr, cp_n_scope_m), cr)
''')
    s=s.replace('''                    cp_l = []
            
                    for cp in cr.coverpoints:
                        if cp in cp_n_scope_m.keys():
                            cp_l.append(cp_n_scope_m[cp])
                        else:
                            raise Exception("Coverpoint %s referenced in cross %s is not defined" % (
                                cp, str(cr.name)))
                            
                    self.record_cross(cg_i_scope, cp_l, cr)
''','''                    self.record_cross(cg_i_scope, self._resolve(cr, cp_n_scope_m), cr)
''')
    compile(s,p,'exec'); open(p,'w').write(s)
