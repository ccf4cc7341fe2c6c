def edit(sub, root):
    sub('cvg_scope.py',
('''        if property == IntProperty.CVG_ATLEAST:
            return self.getAtLeast()
        elif property == IntProperty.CVG_AUTOBINMAX:
            return self.getAutoBinMax()
        elif property == IntProperty.CVG_DETECTOVERLAP:
            return 1 if self.getDetectOverlap() else 0
        elif property == IntProperty.CVG_STROBE:
            return self.getStrobe()
        else:
            return super().getIntProperty(coverindex, property)
''','''        getters = {
            IntProperty.CVG_ATLEAST : self.getAtLeast,
            IntProperty.CVG_AUTOBINMAX : self.getAutoBinMax,
            IntProperty.CVG_DETECTOVERLAP : lambda: int(bool(self.getDetectOverlap())),
            IntProperty.CVG_STROBE : self.getStrobe,
        }
        getter = getters.get(property)
        if getter is None:
            return super().getIntProperty(coverindex, property)
        return getter()
'''),
('''        if property == IntProperty.CVG_ATLEAST:
            self.setAtLeast(value)
        elif property == IntProperty.CVG_AUTOBINMAX:
            self.setAutoBinMax(value)
        elif property == IntProperty.CVG_DETECTOVERLAP:
            self.setDetectOverlap(value==1)
        elif property == IntProperty.CVG_STROBE:
            self.setStrobe(value)
        else:
            super().setIntProperty(coverindex, property, value)
''','''        if property == IntProperty.CVG_DETECTOVERLAP:
            self.setDetectOverlap(value==1)
            return
        setters = {
            IntProperty.CVG_ATLEAST : self.setAtLeast,
            IntProperty.CVG_AUTOBINMAX : self.setAutoBinMax,
            IntProperty.CVG_STROBE : self.setStrobe,
        }
        if property in setters:
            setters[property](value)
        else:
            super().setIntProperty(coverindex, property, value)
'''),
('''        if property == StrProperty.COMMENT:
            return self.getComment()
        else:
            return super().getStringProperty(coverindex, property)
''','''        if property != StrProperty.COMMENT:
            return super().getStringProperty(coverindex, property)
        return self.getComment()
'''))
    sub('covergroup.py',
('''        if property == IntProperty.CVG_PERINSTANCE:
            return 1 if self.getPerInstance() else 0
        elif property == IntProperty.CVG_MERGEINSTANCES:
            return 1 if self.getMergeInstances() else 0
        else:
            return super().getIntProperty(coverindex, property)
''','''        flag = None
        if property == IntProperty.CVG_PERINSTANCE:
            flag = self.getPerInstance()
        elif property == IntProperty.CVG_MERGEINSTANCES:
            flag = self.getMergeInstances()
        else:
            return super().getIntProperty(coverindex, property)
        return 1 if flag else 0
'''))
    sub('mem/mem_cvg_scope.py',
('''        self.m_at_least = 1
        self.m_auto_bin_max = 64
        self.m_detect_overlap = True
        self.m_strobe = 0
        self.m_comment = ""
''','''        for attr, value in self._DEFAULTS.items():
            setattr(self, attr, value)
'''),
('''class MemCvgScope(MemScope,CvgScope):
''','''class MemCvgScope(MemScope,CvgScope):

    _DEFAULTS = {
        "m_at_least" : 1,
        "m_auto_bin_max" : 64,
        "m_detect_overlap" : True,
        "m_strobe" : 0,
        "m_comment" : "",
    }
'''),
('''    def getStringProperty(
            self,
            coverindex : int,
            property : StrProperty) -> str:
        if property == StrProperty.COMMENT:
            return self.getComment()
        else:
            return super().getStringProperty(coverindex, property)
    
    def setStringProperty(
            self,
            coverindex : int,
            property : StrProperty,
            value : str):
        if property == StrProperty.COMMENT:
            self.setComment(value)
        else:
            super().setStringProperty(coverindex, property, value)
''',''))
    sub('coverpoint.py',
('''        coverdata = CoverData(
            kind,
            (CoverFlagsT.IS_32BIT|CoverFlagsT.HAS_GOAL|CoverFlagsT.HAS_WEIGHT))
        coverdata.data = count
        coverdata.at_least = at_least
        coverdata.goal = 1
        # TODO: bring weight in via API?
        coverdata.weight = 1
        
        index = self.createNextCover(
            name, 
            coverdata,
            srcinfo)
        
        return index        
''','''        data = self._binData(kind, data=count, at_least=at_least, goal=1, weight=1)
        return self.createNextCover(name, data, srcinfo)

    @staticmethod
    def _binData(kind, **fields):
        flags = CoverFlagsT.IS_32BIT|CoverFlagsT.HAS_GOAL|CoverFlagsT.HAS_WEIGHT
        coverdata = CoverData(kind, flags)
        for field, value in fields.items():
            setattr(coverdata, field, value)
        return coverdata
'''))
