def edit(sub, root):
    f='mem/mem_history_node.py'; p=root+f; s=open(p).read()
    i=s.index('        self.m_test_status = TestStatusT.OK'); j=s.index('    def getParent')
    s=s[:i]+'''        for field, value in self._DEFAULTS:
            setattr(self, field, value)
        self.m_date = datetime.now().strftime("%Y%m%d%H%M%S")

    _DEFAULTS = (
        ("m_test_status", TestStatusT.OK), ("m_sim_time", -1.0), ("m_time_unit", None), ("m_run_cwd", None),
        ("m_cpu_time", -1.0), ("m_seed", None), ("m_cmd", None), ("m_args", None), ("m_compulsory", None),
        ("m_user_name", None), ("m_cost", -1), ("m_tool_category", "unknown"), ("m_ucis_version", "1.0"),
        ("m_vendor_id", "unknown"), ("m_vendor_tool", "unknown"), ("m_vendor_tool_version", "unknown"),
        ("m_same_tests", -1), ("m_comment", None))

    _INT_FIELDS = {IntProperty.TEST_STATUS: "m_test_status"}

'''+s[j:]
    i=s.index('        if property == IntProperty.TEST_STATUS:\n            return'); j=s.index('    def setIntProperty')
    s=s[:i]+'''        field = self._INT_FIELDS.get(property)
        if field is None:
            return super().getIntProperty(coverindex, property)
        return int(getattr(self, field))

'''+s[j:]
    i=s.index('        if property == IntProperty.TEST_STATUS:\n            self'); j=s.index('    def getLogicalName')
    s=s[:i]+'''        field = self._INT_FIELDS.get(property)
        if field is None:
            super().setIntProperty(coverindex, property, value)
            return
        setattr(self, field, value)

'''+s[j:]
    compile(s,p,'exec'); open(p,'w').write(s)
    sub('mem/mem_scope.py',('''        if property == IntProperty.SCOPE_WEIGHT:
            return self.m_weight
        elif property == IntProperty.COVER_GOAL:
            return self.m_goal
        elif property == IntProperty.SCOPE_SOURCE_TYPE:
            return self.m_source_type
        elif property == IntProperty.SCOPE_IS_UNDER_DU:
            # TODO: need to detect
            return self.m_is_under_du
        else:
            return super().getIntProperty(coverindex, property)
''','''        getters = {
            IntProperty.SCOPE_WEIGHT: self.getWeight,
            IntProperty.COVER_GOAL: self.getGoal,
            IntProperty.SCOPE_SOURCE_TYPE: lambda: self.m_source_type,
            IntProperty.SCOPE_IS_UNDER_DU: lambda: self.m_is_under_du,
        }
        if property in getters:
            return getters[property]()
        return super().getIntProperty(coverindex, property)
'''))
    sub('mem/mem_scope.py',('''        if ScopeTypeT.DU_ANY(type):
            ret = MemScope(self, name, srcinfo, weight,
                              source, type, flags)
        elif type == ScopeTypeT.COVERGROUP:
            from .mem_covergroup import MemCovergroup
            ret = MemCovergroup(self, name, srcinfo, weight,source)
        elif type == ScopeTypeT.COVERINSTANCE:
            from .mem_covergroup import MemCovergroup
            ret = MemCovergroup(self, name, srcinfo, weight,source)
            ret.m_type = ScopeTypeT.COVERINSTANCE
        elif type == ScopeTypeT.COVERPOINT:
            from .mem_coverpoint import MemCoverpoint
            ret = MemCoverpoint(self, name, srcinfo, weight, source)
#         elif type == ScopeTypeT.CROSS:
#             from .mem_cross import MemCross
#             ret = MemCross(self, name, srcinfo, weight, source)
        else:
            raise NotImplementedError("Scope type " + str(type) + " not supported")
        
        self.addChild(ret)
''','''        from .mem_covergroup import MemCovergroup
        from .mem_coverpoint import MemCoverpoint
        cls = {ScopeTypeT.COVERGROUP: MemCovergroup, ScopeTypeT.COVERINSTANCE: MemCovergroup, ScopeTypeT.COVERPOINT: MemCoverpoint}.get(type)
        if ScopeTypeT.DU_ANY(type):
            ret = MemScope(self, name, srcinfo, weight, source, type, flags)
        elif cls is not None:
            ret = cls(self, name, srcinfo, weight, source)
            if type == ScopeTypeT.COVERINSTANCE:
                ret.m_type = type
        else:
            raise NotImplementedError("Scope type " + str(type) + " not supported")

        self.addChild(ret)
'''))
