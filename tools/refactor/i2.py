# generator functions instead of iterator classes
def edit(sub, root):
    sub('mem/mem_scope.py',
("        return MemScopeIterator(self.m_children, mask)","        for c in self.m_children:\n            if c.getScopeType() & mask:\n                yield c"),
("        return MemCoverIndexIterator(self.m_cover_items, mask)","        return (ci for ci in self.m_cover_items if ci.getCoverData().type & mask)"),
("""    def addChild(self, c):
        self.m_children.append(c)
""","""    def addChild(self, c):
        self.m_children.append(c)
        return c
"""),
("""        ret = MemCovergroup(
            self,
            name,
            srcinfo,
            weight,
            source)
        self.addChild(ret)
        return ret
""","""        return self.addChild(MemCovergroup(self, name, srcinfo, weight, source))
"""),
("""        elif type == ScopeTypeT.COVERGROUP:
            from .mem_covergroup import MemCovergroup
            ret = MemCovergroup(self, name, srcinfo, weight,source)
        elif type == ScopeTypeT.COVERINSTANCE:
            from .mem_covergroup import MemCovergroup
            ret = MemCovergroup(self, name, srcinfo, weight,source)
            ret.m_type = ScopeTypeT.COVERINSTANCE
""","""        elif type in (ScopeTypeT.COVERGROUP, ScopeTypeT.COVERINSTANCE):
            from .mem_covergroup import MemCovergroup
            ret = MemCovergroup(self, name, srcinfo, weight, source)
            ret.m_type = type
"""),
("""        if property == IntProperty.SCOPE_WEIGHT:
            self.m_weight = value
        elif property == IntProperty.COVER_GOAL:
            self.m_goal = value
        elif property == IntProperty.SCOPE_SOURCE_TYPE:
            self.m_source_type = value
        else:
            super()""","""        attr = self._INT_PROPS.get(property)
        if attr is not None:
            setattr(self, attr, value)
        else:
            super()"""),
("""        if property == IntProperty.SCOPE_WEIGHT:
            return self.m_weight
        elif property == IntProperty.COVER_GOAL:
            return self.m_goal
        elif property == IntProperty.SCOPE_SOURCE_TYPE:
            return self.m_source_type
        elif property""","""        if property in self._INT_PROPS:
            return getattr(self, self._INT_PROPS[property])
        elif property"""),
("""class MemScope(MemObj,Scope):
""","""class MemScope(MemObj,Scope):

    _INT_PROPS = {
        IntProperty.SCOPE_WEIGHT: "m_weight",
        IntProperty.COVER_GOAL: "m_goal",
        IntProperty.SCOPE_SOURCE_TYPE: "m_source_type",
    }
"""),
)
    sub('mem/mem_ucis.py',("""        if filename not in self.file_handle_m.keys():
            self.file_handle_m[filename] = MemFileHandle(filename)
        return self.file_handle_m[filename]
""","""        fh = self.file_handle_m.get(filename)
        if fh is None:
            fh = self.file_handle_m[filename] = MemFileHandle(filename)
        return fh
"""),
("""        ret = MemInstanceCoverage(name, str(len(self.m_instance_coverage_l)), stmt_id)
        self.m_instance_coverage_l.append(ret)
        return ret
""","""        instances = self.m_instance_coverage_l
        instances.append(MemInstanceCoverage(name, str(len(instances)), stmt_id))
        return instances[-1]
"""))
    sub('coverpoint.py',("""        index = self.createNextCover(
            name, 
            coverdata,
            srcinfo)
        
        return index""","""        return self.createNextCover(name, coverdata, srcinfo)"""))
