def edit(sub, root):
    sub('mem/mem_instance_scope.py',
('''        if (type & ScopeTypeT.COVERGROUP) != 0:
            ret = MemCovergroup(self, name, srcinfo, weight, source)
        else:
            raise UnimplError()

        self.addChild(ret)        
        return ret
            
        
        MemScope.createScope(self, name, srcinfo, weight, source, type, flags)
''','''        if not (type & ScopeTypeT.COVERGROUP):
            raise UnimplError()
        return self._adopt(MemCovergroup(self, name, srcinfo, weight, source))

    def _adopt(self, child):
        self.addChild(child)
        return child
'''),
('''        ret = len(self.m_cover_item_l)
        ci = MemCoverItem(self, name, data, sourceinfo)
        self.m_cover_item_l.append(ci)
        MemScope.createNextCover(self, name, data, sourceinfo)
        
        return ret
''','''        self.m_cover_item_l.append(MemCoverItem(self, name, data, sourceinfo))
        super().createNextCover(name, data, sourceinfo)
        return len(self.m_cover_item_l) - 1
'''),
('''        ret = MemToggleInstanceScope(self, name, canonical_name,
                flags, toggle_metric, toggle_type, toggle_dir)
        self.addChild(ret)
        return ret
''','''        return self._adopt(MemToggleInstanceScope(
            self, name, canonical_name, flags, toggle_metric, toggle_type, toggle_dir))
'''))
    sub('mem/mem_covergroup.py',
('''        ret = MemCoverpoint(self, name, srcinfo, weight, source)
        self.addChild(ret)
        return ret
''','''        return self._add(MemCoverpoint(self, name, srcinfo, weight, source))

    def _add(self, obj):
        self.addChild(obj)
        return obj
'''),
('''        ret = MemCross(self, name, srcinfo, weight, source, points_l)
        self.addChild(ret)
        return ret
''','''        return self._add(MemCross(self, name, srcinfo, weight, source, points_l))
'''),
('''        ci_obj = self.createScope(
            name, 
            srcinfo, 
            weight, 
            source, 
            ScopeTypeT.COVERINSTANCE,
            0)
        return ci_obj
''','''        return self.createScope(
            name=name, srcinfo=srcinfo, weight=weight, source=source,
            type=ScopeTypeT.COVERINSTANCE, flags=0)
'''))
    sub('mem/mem_du_scope.py',
('''        if ScopeTypeT.DU_ANY(type):
            ret = MemDUScope(self, name, srcinfo, weight,
                              source, type, flags)
            self.addChild(ret)
            return ret
        else:
            raise UnimplError()''','''        if not ScopeTypeT.DU_ANY(type):
            raise UnimplError()
        du = type_ctor = MemDUScope(self, name, srcinfo, weight, source, type, flags)
        self.addChild(du)
        return type_ctor'''))
    sub('mem/mem_ucis.py',
('''        if filename not in self.file_handle_m.keys():
            self.file_handle_m[filename] = MemFileHandle(filename)
        return self.file_handle_m[filename]
''','''        fh = self.file_handle_m.get(filename)
        if fh is None:
            fh = self.file_handle_m[filename] = MemFileHandle(filename)
        return fh
'''),
('''        ret = MemHistoryNode(parent, logicalname, physicalname, kind)
        self.m_history_node_l.append(ret)
        return ret
''','''        nodes = self.m_history_node_l
        nodes.append(MemHistoryNode(parent, logicalname, physicalname, kind))
        return nodes[-1]
'''))
