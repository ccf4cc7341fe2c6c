def edit(sub, root):
    sub('xml/xml_factory.py',
("""        # First, validate the incoming XML
        if type(file_or_filename) == str:
            fp = XmlFactory._open_file(file_or_filename)
        else:
            fp = file_or_filename

        try:            
            validate_ucis_xml(fp)
        except Exception as e:
            if type(file_or_filename) == str:
                fp.close()
            raise e

        try:
            fp.seek(0)
        
            reader = XmlReader()
        
            ret = reader.read(fp)
        finally:
            if type(file_or_filename) == str:
                fp.close()

        return ret
""","""        if isinstance(file_or_filename, str):
            with XmlFactory._open_file(file_or_filename) as fp:
                return XmlFactory._read_valid(fp)
        return XmlFactory._read_valid(file_or_filename)

    @staticmethod
    def _read_valid(fp):
        # First, validate the incoming XML
        validate_ucis_xml(fp)
        fp.seek(0)
        return XmlReader().read(fp)
"""),
("""        writer = XmlWriter()
        
        if type(file_or_filename) == str:
            fp = open(file_or_filename, "w")
        else:
            fp = file_or_filename
        
        try:
            writer.write(fp, db)
        finally:
            if type(file_or_filename) == str:
                fp.close()
""","""        if isinstance(file_or_filename, str):
            with open(file_or_filename, "w") as fp:
                XmlWriter().write(fp, db)
        else:
            XmlWriter().write(file_or_filename, db)
"""),
("""        with open(file_path, 'rb') as test_f:
            magic0 = test_f.read(2)
            magic1 = test_f.read(2)
        if magic0 == b'\\x1f\\x8b':""","""        with open(file_path, 'rb') as test_f:
            magic = test_f.read(4)
        magic0, magic1 = magic[:2], magic[2:]
        if magic0 == b'\\x1f\\x8b':"""),
)
    sub('xml/__init__.py',
("""    if type(file_or_filename) == str:
        logging.debug("open file")
        fp = open(file_or_filename, "r")
    else:
        fp = file_or_filename
        
    ret = False

    try:
        doc = etree.parse(fp)
        
        root = doc.getroot()
""","""    with contextlib.ExitStack() as stack:
        fp = file_or_filename
        if isinstance(fp, str):
            fp = stack.enter_context(open(fp, "r"))
        doc = etree.parse(fp)
        root = doc.getroot()
"""),
("""        ret = ucis_schema.assertValid(doc)
        ret = True

    finally:
        if type(file_or_filename) == str:
            fp.close()

    return ret""","""        ucis_schema.assertValid(doc)
    return True"""),
("import logging\n","import contextlib\nimport logging\n"))
    sub('yaml/db_format_if_yaml.py',("""        reader = YamlReader()

        with open(filename, "r") as fp:
            db = reader.load(fp)

        return db
""","""        fp = open(filename, "r")
        try:
            return YamlReader().load(fp)
        finally:
            fp.close()
"""))
    sub('rgy/format_rgy.py',("""        fmts = list(self._format_rpt_m.keys())
        fmts.sort()
        return fmts
""","        return sorted(self._format_rpt_m)\n"),("fmt in self._format_db_m.keys()","fmt in self._format_db_m"),
("""        DbFormatIfXml.register(self)
        DbFormatIfLib.register(self)
        DbFormatIfYaml.register(self)
        
        FormatRptJson.register(self)
        FormatRptText.register(self)
""","""        for cls in (DbFormatIfXml, DbFormatIfLib, DbFormatIfYaml,
                    FormatRptJson, FormatRptText):
            cls.register(self)
"""))
    sub('cmd/cmd_list_db_formats.py',("""    max_w = 0
    for fmt in fmts:
        if len(fmt) > max_w:
            max_w = len(fmt)

    for fmt in fmts:
        desc = rgy.getDatabaseDesc(fmt)
        text = fmt
        if len(fmt) < max_w:
            text += ' '*(max_w-len(fmt))
        text += " - %s" % desc.description
        print(text)
""","""    max_w = max(map(len, fmts))
    for fmt in fmts:
        print("%s - %s" % (fmt.ljust(max_w), rgy.getDatabaseDesc(fmt).description))
"""))
