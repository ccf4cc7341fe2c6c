def edit(sub, root):
    sub('lib/lib_scope.py',
("        srcinfo_p = None if srcinfo is None else byref(_LibSourceInfo.ctor(srcinfo))","        srcinfo_p = self._srcinfo_p(srcinfo)"),
("        fileinfo_p = None if fileinfo is None else byref(_LibSourceInfo.ctor(fileinfo))","        fileinfo_p = self._srcinfo_p(fileinfo)"),
("        sourceinfo_p = None if sourceinfo is None else byref(_LibSourceInfo.ctor(sourceinfo))","        sourceinfo_p = self._srcinfo_p(sourceinfo)"),
("""    def createScope(self, ""","""    @staticmethod
    def _srcinfo_p(srcinfo):
        if srcinfo is None:
            return None
        return byref(_LibSourceInfo.ctor(srcinfo))

    @staticmethod
    def _enc(s):
        return s.encode() if s is not None else None

    def createScope(self, """),
("            None if name is None else str.encode(name),","            self._enc(name),"),
("            None if canonical_name is None else str.encode(canonical_name),","            self._enc(canonical_name),"),
)
    sub('lib/lib_obj.py',
("        obj = self.db if self.obj is None else self.obj\n        get_lib().ucis_SetIntProperty(self.db, obj, coverindex, property, value)",
 "        lib = get_lib()\n        lib.ucis_SetIntProperty(self.db, self._handle(), coverindex, property, value)"),
("        obj = self.db if self.obj is None else self.obj\n        get_lib().ucis_SetStringProperty(\n            self.db, \n            obj, ","        get_lib().ucis_SetStringProperty(\n            self.db, \n            self._handle(), "),
("    def getIntProperty(","    def _handle(self):\n        return self.obj if self.obj is not None else self.db\n\n    def getIntProperty("))
    sub('lib/libucis.py',
("""    for f in fspec.keys():
        fsig = fspec[f]
        proto = fsig[0]
        attr = fsig[1]
        func = proto((f, _lib), attr)
""","""    for f, (proto, attr) in fspec.items():
        func = proto((f, _lib), attr)
"""),
("""        if key in self.fmap.keys():
            return self.fmap[key]
        else:
            raise Exception("No such function \\"" + key + "\\"")
        return None
""","""        try:
            return self.fmap[key]
        except KeyError:
            raise Exception("No such function \\"" + key + "\\"")
"""))
    sub('lib/lib_ucis.py',
("""        return get_lib().ucis_GetIntProperty(self.db, self.db, -1, IntProperty.IS_MODIFIED) == 1""","""        return self._dbProperty(IntProperty.IS_MODIFIED) == 1"""),
("""        return get_lib().ucis_GetIntProperty(self.db, self.db, -1, IntProperty.MODIFIED_SINCE_SIM) == 1""","""        return self._dbProperty(IntProperty.MODIFIED_SINCE_SIM) == 1"""),
("""        return get_lib().ucis_GetIntProperty(self.db, self.db, -1, IntProperty.NUM_TESTS)""","""        return self._dbProperty(IntProperty.NUM_TESTS)"""),
("    def isModified(self):","    def _dbProperty(self, prop):\n        return get_lib().ucis_GetIntProperty(self.db, self.db, -1, prop)\n\n    def isModified(self):"),
)
