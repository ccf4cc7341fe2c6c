def edit(sub, root):
    f='xml/xml_reader.py'; p=root+f; s=open(p).read()
    i=s.index('    def readCovergroups('); j=s.index('    def readStatementId(')
    s=s[:i]+'''    BIN_KINDS = {
        "default" : UCIS_CVGBIN,
        "bins" : UCIS_CVGBIN,
        "ignore" : UCIS_IGNOREBIN,
        "illegal" : UCIS_ILLEGALBIN,
    }

    def readCovergroups(self, cg, inst_scope, module_scope_name):
        by_type = {}
        for inst in cg.iter("cgInstance"):
            by_type.setdefault(self.typeName(inst), []).append(inst)

        for typename, insts in by_type.items():
            typescope = inst_scope.createCovergroup(typename, None, 1, UCIS_OTHER)
            self.readCovergroup(typescope, insts)

    def typeName(self, inst):
        cgId = inst.find(".//cgId")
        if cgId is None:
            return "default"
        return self.getAttr(cgId, "cgName", "xxx")

    def readCovergroup(self, cg_t, cg_l):
        cp_m = {}   # name -> coverpoint of the type
        cp_bins = {}    # name -> bins of the type
        cr_m = {}
        cr_bins = {}

        for cg_e in cg_l:
            cg_i = cg_t.createCoverInstance(
                self.getAttr(cg_e, "name", "<unknown>"), None, 1, UCIS_OTHER)
            local = {}
            for cp_e in cg_e.iter("coverpoint"):
                name = self.nameOf(cp_e)
                if name not in cp_m:
                    cp_m[name] = cg_t.createCoverpoint(name, None, 1, UCIS_OTHER)
                    cp_bins[name] = {}
                local[name] = cg_i.createCoverpoint(name, None, 1, UCIS_OTHER)
                for b_e in cp_e.iter("coverpointBin"):
                    self.addBin(local[name], cp_bins[name], self.coverpointBin(b_e))

            for cr_e in cg_e.iter("cross"):
                name = self.nameOf(cr_e)
                if name not in cr_m:
                    cr_m[name] = cg_t.createCross(name, None, 1, UCIS_OTHER, self.crossed(cr_e, cp_m))
                    cr_bins[name] = {}
                cr = cg_i.createCross(name, None, 1, UCIS_OTHER, self.crossed(cr_e, local))
                for b_e in cr_e.iter("crossBin"):
                    self.addBin(cr, cr_bins[name], self.crossBin(b_e))

        for points, bins in ((cp_m, cp_bins), (cr_m, cr_bins)):
            for name in points:
                for bin_name, (kind, count) in bins[name].items():
                    points[name].createBin(bin_name, None, 1, count, bin_name, kind)

    def nameOf(self, e, default="<unknown>"):
        return self.getAttr(e, "name", default)

    def crossed(self, cr_e, points):
        result = []
        for expr in cr_e.iter("crossExpr"):
            cp_n = expr.text.strip()
            if cp_n not in points:
                raise Exception("Cross %s references missing coverpoint %s" % (self.nameOf(cr_e), cp_n))
            result.append(points[cp_n])
        return result

    def coverpointBin(self, b_e):
        holder = next(b_e.iter("sequence"), None)
        if holder is None:
            holder = next(b_e.iter("range"), None)
        if holder is None:
            raise Exception("Format error: neither 'sequence' nor 'range' present")
        kind_a = self.getAttr(b_e, "type", "default")
        if kind_a not in self.BIN_KINDS:
            raise Exception("Unknown bin type %s" % str(kind_a))
        return self.nameOf(b_e), self.BIN_KINDS[kind_a], self.getAttrInt(next(holder.iter("contents")), "coverageCount")

    def crossBin(self, b_e):
        kind = XmlReader.BIN_KINDS.get(self.getAttr(b_e, "type", "default"), UCIS_CVGBIN)
        count = self.getAttrInt(next(b_e.iter("contents")), "coverageCount")
        return self.nameOf(b_e, "default"), kind, count

    def addBin(self, scope, totals, info):
        name, kind, count = info
        scope.createBin(name, None, 1, count, name, kind)
        if name in totals:
            kind, total = totals[name]
            count += total
        totals[name] = (kind, count)

'''+s[j:]
    s=s.replace('''        if name not in self.module_scope_m.keys():
            scope = self.db.createScope(''','''        scope = self.module_scope_m.get(name)
        if scope is None:
            scope = self.db.createScope(''').replace('''            self.module_scope_m[name] = scope
        else:
            scope = self.module_scope_m[name]
            
        return scope''','''            self.module_scope_m[name] = scope
        return scope''')
    s=s.replace('''        if name in node.attrib:
            return node.attrib[name]
        else:
            return default
''','''        return node.attrib.get(name, default)
''').replace('''        if e.attrib[name] == "true":
            return True
        else:
            return False
''','''        return e.attrib[name] == "true"
''').replace('''        if name in n.attrib:
            f(int(n.attrib[name]))
''','''        self.applyIfEx(n, f, name, int)
''').replace('''        if name in n.attrib:
            f(float(n.attrib[name]))''','''        self.applyIfEx(n, f, name, float)

    def applyIfEx(self, n, f, name, conv):
        val = n.get(name)
        if val is not None:
            f(conv(val))
''')
    i=s.index('        for srcFileN in tree.iter("sourceFiles"):'); j=s.index('        return self.db\n')
    s=s[:i]+'''        for tag, handler in (("sourceFiles", self.readSourceFile),
                             ("historyNodes", self.readHistoryNode),
                             ("instanceCoverages", self.readInstanceCoverage)):
            for node in tree.iter(tag):
                handler(node)

'''+s[j:]
    open(p,'w').write(s)
