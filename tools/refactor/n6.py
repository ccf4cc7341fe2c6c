def edit(sub, root):
    f='xml/xml_writer.py'
    p=root+f
    t=open(p).read()
    a=t.index("            # TODO: parent\n"); b=t.index("        if not have_hist_nodes:")
    new='''            self.set_history_attrs(histN, h)

'''
    t=t[:a]+new+t[b:]
    a=t.index("            if cov_data.type == CoverTypeT.CVGBIN:"); b=t.index('            self.setAttr(cpBinElem, "key", "0")\n')
    t=t[:a]+'''            if cov_data.type not in XmlWriter.CP_KINDS:
                raise Exception("Unknown bin type %s" % str(cov_data.type))
            self.setAttr(cpBinElem, "type", XmlWriter.CP_KINDS[cov_data.type])
'''+t[b:]
    a=t.index("            if cov_data.type == CoverTypeT.IGNOREBIN:\n                self.setAttr(crBinElem"); b=t.index('            index = self.mkElem(crBinElem')
    t=t[:a]+'''            self.setAttr(crBinElem, "type", XmlWriter.CR_KINDS.get(cov_data.type, "default"))

'''+t[b:]
    t=t.replace('''    UCIS = "http://www.w3.org/2001/XMLSchema-instance"
''','''    UCIS = "http://www.w3.org/2001/XMLSchema-instance"

    CP_KINDS = {
        CoverTypeT.CVGBIN : "bins",
        CoverTypeT.IGNOREBIN : "ignore",
        CoverTypeT.ILLEGALBIN : "illegal",
    }

    CR_KINDS = {
        CoverTypeT.IGNOREBIN : "ignore",
        CoverTypeT.ILLEGALBIN : "illegal",
    }
''',1)
    t=t.replace('''    def write_instance_coverages(self, s):''','''    def set_history_attrs(self, elem, h):
        optional = [
            ("physicalName", h.getPhysicalName()),
            ("kind", h.getKind()),
            ("timeunit", h.getTimeUnit()),
            ("runCwd", h.getRunCwd()),
            ("seed", h.getSeed()),
            ("cmd", h.getCmd()),
            ("args", h.getArgs()),
            ("compulsory", h.getCompulsory()),
            ("userName", h.getUserName()),
            ("comment", h.getComment()),
        ]
        numeric = [
            ("simtime", h.getSimTime()),
            ("cpuTime", h.getCpuTime()),
            ("cost", h.getCost()),
            ("sameTests", h.getSameTests()),
        ]
        required = {
            "toolCategory" : h.getToolCategory(),
            "ucisVersion" : h.getUCISVersion(),
            "vendorId" : h.getVendorId(),
            "vendorTool" : h.getVendorTool(),
            "vendorToolVersion" : h.getVendorToolVersion(),
        }
        elem.set("logicalName", h.getLogicalName())
        self.setAttrBool(elem, "testStatus", h.getTestStatus() == TestStatusT.OK)
        self.setAttrDateTime(elem, "date", h.getDate())
        for name, val in optional:
            self.setIfNonNull(elem, name, val)
        for name, val in numeric:
            self.setIfNonNeg(elem, name, val)
        for name, val in required.items():
            self.setAttr(elem, name, val)

    def write_instance_coverages(self, s):''',1)
    t=t.replace('''            inst_it = cg.scopes(ScopeTypeT.COVERINSTANCE)
            
            cg_inst = next(inst_it, None)
            
            # If there is only type coverage (no instances), write only that
            if cg_inst is None:
                self.write_coverinstance(cgElem, cg.getScopeName(), cg)
            else:
                # If there is instance coverage, write only that
                while cg_inst is not None:
                    self.write_coverinstance(cgElem, cg.getScopeName(), cg_inst)
                    cg_inst = next(inst_it, None)
''','''            # Instances when there are any, otherwise the type coverage
            instances = list(cg.scopes(ScopeTypeT.COVERINSTANCE)) or [cg]
            for cg_inst in instances:
                self.write_coverinstance(cgElem, cg.getScopeName(), cg_inst)
''')
    a=t.index("    def find_all_files")
    t=t[:a]+'''    def find_all_files(self, scope_i : Iterator[Scope]):
        for s in scope_i:
            self.note_file(s)
            self.find_all_files(s.scopes(ScopeTypeT.ALL))

    def note_file(self, s):
        f = s.getSourceInfo().file
        if f is None:
            return
        self.file_id_m.setdefault(f.getFileName(), len(self.file_id_m)+1)
'''
    t=t.replace('''        # Instance source information
        cgSourceIdElem = self.mkElem(cgIdElem, "cginstSourceId")
        self.setAttr(cgSourceIdElem, "file", "1")
        self.setAttr(cgSourceIdElem, "line", "1")
        self.setAttr(cgSourceIdElem, "inlineCount", "1")
        
        # Declaration source information
        cgSourceIdElem = self.mkElem(cgIdElem, "cgSourceId")
        self.setAttr(cgSourceIdElem, "file", "1")
        self.setAttr(cgSourceIdElem, "line", "1")
        self.setAttr(cgSourceIdElem, "inlineCount", "1")
''','''        # Instance and declaration source information
        for tag in ("cginstSourceId", "cgSourceId"):
            srcElem = self.mkElem(cgIdElem, tag)
            for attr in ("file", "line", "inlineCount"):
                self.setAttr(srcElem, attr, "1")
''')
    open(p,'w').write(t)
