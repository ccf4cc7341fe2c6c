def edit(sub, root):
    HELP='''

def _database_desc(rgy, fmt, what):
    fmt = fmt if fmt is not None else "xml"
    if not rgy.hasDatabaseFormat(fmt):
        raise Exception("%s format %s not recognized" % (what, fmt))
    return rgy.getDatabaseDesc(fmt)

'''
    OLD="""    if args.input_format is None:
        args.input_format = "xml"
    if args.output_format is None:
        args.output_format = "xml"

    rgy = FormatRgy.inst()
    if not rgy.hasDatabaseFormat(args.input_format):
        raise Exception("Input format %s not recognized" % args.input_format)
    if not rgy.hasDatabaseFormat(args.output_format):
        raise Exception("Output format %s not recognized" % args.output_format)

    input_desc : FormatDescDb = rgy.getDatabaseDesc(args.input_format)
    output_desc : FormatDescDb = rgy.getDatabaseDesc(args.output_format)
"""
    NEW="""    rgy = FormatRgy.inst()
    input_desc = _database_desc(rgy, args.input_format, "Input")
    output_desc = _database_desc(rgy, args.output_format, "Output")
"""
    sub('cmd/cmd_merge.py',(OLD,NEW),("def merge(args):",HELP+"def _read(desc, path):\n    try:\n        return desc.fmt_if().read(path)\n    except Exception as e:\n        raise Exception(\"Failed to read input file %s: %s\" % (path, str(e)))\n\ndef merge(args):"),
("""    db_l : List[UCIS] = []
    for input in args.db:
        db_if : FormatIfDb = input_desc.fmt_if()
        try:
            db = db_if.read(input)
            db_l.append(db)
        except Exception as e:
            raise Exception("Failed to read input file %s: %s" % (
                input,
                str(e)
            ))
""","""    db_l : List[UCIS] = [_read(input_desc, path) for path in args.db]
"""))
    sub('cmd/cmd_convert.py',(OLD,NEW),("def convert(args):",HELP+"def convert(args):"),
("""    merger = DbMerger()
    merger.merge(out_db, [in_db])
""","""    DbMerger().merge(out_db, [in_db])
"""))
    sub('cmd/cmd_report.py',
("""    try:
        output_if.report(in_db, fp, [])
    finally:
        if args.out is not None and (output_desc.out_flags & FormatRptOutFlags.Stream) != 0:
            fp.close()
""","""    if args.out is not None and (output_desc.out_flags & FormatRptOutFlags.Stream) != 0:
        with fp:
            output_if.report(in_db, fp, [])
    else:
        output_if.report(in_db, fp, [])
"""),
("""    if args.input_format is None:
        args.input_format = rgy.getDefaultDatabase()
        
    if args.output_format is None:
        args.output_format = rgy.getDefaultReport()
""","""    args.input_format = args.input_format if args.input_format is not None else rgy.getDefaultDatabase()
    args.output_format = rgy.getDefaultReport() if args.output_format is None else args.output_format
"""))
    sub('__main__.py',
("""    argv = []
    plusargs = []
    for arg in sys.argv[1:]:
        if arg[0] == '+':
            plusargs.append(arg)
        else:
            argv.append(arg)

    args = parser.parse_args(args=argv)
    setattr(args, "plusargs", plusargs)
""","""    plusargs = [a for a in sys.argv[1:] if a.startswith('+')]
    args = parser.parse_args(args=[a for a in sys.argv[1:] if a not in plusargs])
    args.plusargs = plusargs
"""),
("""    convert.add_argument("--out", "-o",
        help="Specifies the output of the conversion",
        required=True)
    convert.add_argument("--input-format", "-if",
        help="Specifies the format of the input database. Defaults to 'xml'")
    convert.add_argument("--output-format", "-of",
        help="Specifies the format of the output database. Defaults to 'xml'")
""","""    _add_common(convert, "conversion")
"""),
("""def get_parser():
""","""def _add_common(cmd, what):
    cmd.add_argument("--out", "-o", required=True,
        help="Specifies the output of the %s" % what)
    for side, flag in (("input", "-if"), ("output", "-of")):
        cmd.add_argument("--%s-format" % side, flag,
            help="Specifies the format of the %s database. Defaults to 'xml'" % side)

def get_parser():
"""),
)
