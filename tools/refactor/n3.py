def edit(sub, root):
    f='__main__.py'; p=root+f; s=open(p).read(); i=s.index('def main'); j=s.index('if __name__')
    s=s[:i]+'''def _split(argv):
    """Separates +arguments from the others"""
    plus, rest = [], []
    for a in argv:
        (plus if a.startswith('+') else rest).append(a)
    return plus, rest

def _run(args):
    try:
        args.func(args)
    except Exception as e:
        traceback.print_exc()
        print("Error: {0}".format(e))
        return 1
    return 0

def main():
    plusargs, argv = _split(sys.argv[1:])
    args = get_parser().parse_args(argv)
    args.plusargs = plusargs
    rc = _run(args)
    if rc != 0:
        sys.exit(rc)

'''+s[j:]
    s=s.replace('''    convert.add_argument("--out", "-o",
        help="Specifies the output of the conversion",
        required=True)
''','''    _out(convert, "Specifies the output of the conversion", True)
''').replace('''    merge.add_argument("--out", "-o", 
        help="Specifies the output of the merge",
        required=True)
''','''    _out(merge, "Specifies the output of the merge", True)
''').replace('''def get_parser''','''def _out(p, text, needed):
    p.add_argument("--out", "-o", help=text, required=needed)

def get_parser''')
    compile(s,p,'exec'); open(p,'w').write(s)
