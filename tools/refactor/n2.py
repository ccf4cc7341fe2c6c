def edit(sub, root):
    f='cmd/cmd_merge.py'; p=root+f; s=open(p).read(); i=s.index('def merge')
    s=s[:i]+'''def _descriptor(rgy, fmt, what):
    if not rgy.hasDatabaseFormat(fmt):
        raise Exception("%s format %s not recognized" % (what, fmt))
    return rgy.getDatabaseDesc(fmt)

def _read_one(desc, path):
    try:
        return desc.fmt_if().read(path)
    except Exception as e:
        raise Exception("Failed to read input file %s: %s" % (path, str(e)))

def merge(args):
    args.input_format = args.input_format if args.input_format is not None else "xml"
    args.output_format = args.output_format if args.output_format is not None else "xml"
    rgy = FormatRgy.inst()
    src, dst = [_descriptor(rgy, f, w) for f, w in ((args.input_format, "Input"), (args.output_format, "Output"))]
    inputs = [_read_one(src, path) for path in args.db]
    result = dst.fmt_if().create()
    try:
        DbMerger().merge(result, inputs)
    except Exception as e:
        raise Exception("Merge operation failed: %s" % str(e))
    result.write(args.out)
    for d in inputs:
        d.close()
'''
    compile(s,p,'exec'); open(p,'w').write(s)
    f='cmd/cmd_report.py'; p=root+f; s=open(p).read(); i=s.index('    if args.out is None:')
    s=s[:i]+'''    stream = (output_desc.out_flags & FormatRptOutFlags.Stream) != 0
    if args.out is None:
        if not stream:
            raise Exception("Output format %s does not support single-file output" % args.output_format)
        output_if.report(in_db, sys.stdout, [])
    elif stream:
        with open(args.out, "w") as fp:
            output_if.report(in_db, fp, [])
    elif (output_desc.out_flags & FormatRptOutFlags.Dir) != 0:
        if os.path.exists(args.out):
            if not os.path.isdir(args.out):
                raise Exception("Output format %s requires a directory, but specified destination %s is a file" % (
                    args.output_format, args.out))
            print("Note: removing existing report directory (%s)" % args.out)
            shutil.rmtree(args.out)
        os.makedirs(args.out)
        output_if.report(in_db, args.out, [])
    else:
        raise Exception("Output format %s is ambiguous about output location: %s" % (
                args.output_format, str(output_desc.out_flags)))
    in_db.close()
'''
    compile(s,p,'exec'); open(p,'w').write(s)
