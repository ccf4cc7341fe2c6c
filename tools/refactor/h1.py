def edit(sub, root):
    f='xml/xml_writer.py'; p=root+f; s=open(p).read()
    a=s.index('            # TODO: parent\n            histN.set("logicalName", h.getLogicalName())'); b=s.index('        if not have_hist_nodes:')
    s=s[:a]+'''            self._write_history_node(histN, h)

'''+s[b:]
    s=s.replace('''    def write_history_nodes(self):
''','''    def _write_history_node(self, histN, h):
        # TODO: parent
        histN.set("logicalName", h.getLogicalName())
        self._optional(histN, h, ("physicalName", "kind"))
        self.setAttrBool(histN, "testStatus", h.getTestStatus() == TestStatusT.OK)
        for attr, val in (("simtime", h.getSimTime()), ("cpuTime", h.getCpuTime()),
                          ("cost", h.getCost()), ("sameTests", h.getSameTests())):
            self.setIfNonNeg(histN, attr, val)
        for attr, val in [
                ("timeunit", h.getTimeUnit()),
                ("runCwd", h.getRunCwd()),
                ("seed", h.getSeed()),
                ("cmd", h.getCmd()),
                ("args", h.getArgs()),
                ("compulsory", h.getCompulsory()),
                ("userName", h.getUserName()),
                ("comment", h.getComment())]:
            self.setIfNonNull(histN, attr, val)
        self.setAttrDateTime(histN, "date", h.getDate())
        required = {
            "toolCategory": h.getToolCategory,
            "ucisVersion": h.getUCISVersion,
            "vendorId": h.getVendorId,
            "vendorTool": h.getVendorTool,
            "vendorToolVersion": h.getVendorToolVersion,
        }
        for attr, getter in required.items():
            self.setAttr(histN, attr, getter())

    def _optional(self, histN, h, names):
        for name in names:
            getter = getattr(h, "get" + name[0].upper() + name[1:])
            self.setIfNonNull(histN, name, getter())

    def write_history_nodes(self):
''',1)
    compile(s,p,'exec'); open(p,'w').write(s)
    f='xml/xml_reader.py'; p=root+f; s=open(p).read()
    a=s.index('        ret.setTestStatus(self.getAttrBool'); b=s.index('        return ret\n    \n    def readInstanceCoverage')
    s=s[:a]+'''        ret.setTestStatus(self.getAttrBool(histN, "testStatus"))
        ret.setDate(self.getAttrDateTime(histN, "date"))
        for attr, setter, conv in (
                ("simtime", ret.setSimTime, float),
                ("cpuTime", ret.setCpuTime, float),
                ("cost", ret.setCost, float),
                ("sameTests", ret.setSameTests, int),
                ("timeunit", ret.setTimeUnit, None),
                ("runCwd", ret.setRunCwd, None),
                ("seed", ret.setSeed, None),
                ("cmd", ret.setCmd, None),
                ("args", ret.setArgs, None),
                ("compulsory", ret.setCompulsory, None),
                ("userName", ret.setUserName, None),
                ("comment", ret.setComment, None)):
            val = histN.get(attr)
            if val is not None:
                setter(conv(val) if conv is not None else val)
        for attr in ("toolCategory", "vendorId", "vendorTool", "vendorToolVersion"):
            setter = getattr(ret, "set" + attr[0].upper() + attr[1:])
            setter(histN.attrib[attr])

'''+s[b:]
    s=s.replace('''        if e.attrib[name] == "true":
            return True
        else:
            return False
''','''        return e.attrib[name] == "true"
''').replace('''        if name in node.attrib:
            return node.attrib[name]
        else:
            return default
''','''        return node.attrib.get(name, default)
''')
    compile(s,p,'exec'); open(p,'w').write(s)
