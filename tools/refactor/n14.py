def edit(sub, root):
    sub('lib/lib_scope.py',
('''class LibScope(LibObj, Scope):
''','''def _enc(s):
    return None if s is None else str.encode(s)


def _srcinfo_p(srcinfo):
    if srcinfo is None:
        return None
    return byref(_LibSourceInfo.ctor(srcinfo))


class LibScope(LibObj, Scope):
'''),
('''        srcinfo_p = None if srcinfo is None else byref(_LibSourceInfo.ctor(srcinfo))
        logging''','''        srcinfo_p = _srcinfo_p(srcinfo)
        logging'''),
('''            None if name is None else str.encode(name),
''','''            _enc(name),
'''),
('''        fileinfo_p = None if fileinfo is None else byref(_LibSourceInfo.ctor(fileinfo))
''','''        fileinfo_p = _srcinfo_p(fileinfo)
'''),
('''            None if canonical_name is None else str.encode(canonical_name),
''','''            _enc(canonical_name),
'''),
('''        sourceinfo_p = None if sourceinfo is None else byref(_LibSourceInfo.ctor(sourceinfo))
        data_p = byref(LibCoverData.ctor(data))
        
        index =  get_lib().ucis_CreateNextCover(
            self.db,
            self.obj,
            str.encode(name),
            data_p,
            sourceinfo_p)
''','''        index =  get_lib().ucis_CreateNextCover(
            self.db,
            self.obj,
            str.encode(name),
            byref(LibCoverData.ctor(data)),
            _srcinfo_p(sourceinfo))
'''))
    sub('lib/lib_covergroup.py',
('''        srcinfo_p = None if srcinfo is None else byref(_LibSourceInfo.ctor(srcinfo))

        points = (c_void_p * len(points_l))()
        for i,cp in enumerate(points_l):
            points[i] = cp.obj
            
''','''        srcinfo_p = self._loc(srcinfo)
        handles = [cp.obj for cp in points_l]
        points = (c_void_p * len(handles))(*handles)

'''),
('''        return LibCross(self.db, cr_o)
        raise NotImplementedError()
''','''        return LibCross(self.db, cr_o)

    @staticmethod
    def _loc(srcinfo):
        return None if srcinfo is None else byref(_LibSourceInfo.ctor(srcinfo))
'''),
('''        srcinfo_p = None if srcinfo is None else pointer(_LibSourceInfo.ctor(srcinfo))
        ci_obj = get_lib''','''        srcinfo_p = self._loc(srcinfo)
        ci_obj = get_lib'''),
)
    p=root+'xml/__init__.py'; t=open(p).read()
    a=t.index('    with open(ucis_xsd'); b=t.index('        root = doc.getroot()')
    t=t[:a]+"""    with open(ucis_xsd, "r") as xsd_fp:
        ucis_schema = etree.XMLSchema(etree.parse(xsd_fp))

    if type(file_or_filename) == str:
        logging.debug("open file")
        with open(file_or_filename, "r") as fp:
            return _validate(fp, ucis_schema)
    return _validate(file_or_filename, ucis_schema)


def _validate(fp, ucis_schema):
    if True:
        doc = etree.parse(fp)
"""+t[b:]
    a=t.index('        ret = ucis_schema.assertValid')
    t=t[:a]+"""        ucis_schema.assertValid(doc)

    return True
"""
    open(p,'w').write(t)
    sub('xml/xml_factory.py',
('''        if type(file_or_filename) == str:
            fp = XmlFactory._open_file(file_or_filename)
        else:
            fp = file_or_filename

        try:            
            validate_ucis_xml(fp)
        except Exception as e:
            if type(file_or_filename) == str:
                fp.close()
            raise e

        try:
            fp.seek(0)
        
            reader = XmlReader()
        
            ret = reader.read(fp)
        finally:
            if type(file_or_filename) == str:
                fp.close()

        return ret
''','''        if type(file_or_filename) != str:
            return XmlFactory._read_stream(file_or_filename)

        with XmlFactory._open_file(file_or_filename) as fp:
            return XmlFactory._read_stream(fp)

    @staticmethod
    def _read_stream(fp) -> UCIS:
        validate_ucis_xml(fp)
        fp.seek(0)
        return XmlReader().read(fp)
'''),
('''        if type(file_or_filename) == str:
            fp = open(file_or_filename, "w")
        else:
            fp = file_or_filename
        
        try:
            writer.write(fp, db)
        finally:
            if type(file_or_filename) == str:
                fp.close()
''','''        if not isinstance(file_or_filename, str):
            writer.write(file_or_filename, db)
            return

        with open(file_or_filename, "w") as fp:
            writer.write(fp, db)
'''))
