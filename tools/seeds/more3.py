import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import H
import more2
CMD, FILES = more2.CMD, more2.FILES
S = []
S.append(('C15-rewind', 'C15', 'two nested passes over the same scopes() result',
 'iter() of a running scope iteration starts again, so that a resumed loop repeats scopes',
 [('mem/mem_scope_iterator.py', "    def __iter__(self):\n        return self\n", "    def __iter__(self):\n        return MemScopeIterator(self.nodes, self.mask)\n")],
 H + '''
db = mkdb([('a', []), ('b', []), ('c', [])])
it = db.scopes(ScopeTypeT.INSTANCE)
first = next(it)
rest = [s.getScopeName() for s in it]
check(rest == ['b', 'c'], rest)
'''))
S.append(('C19-convert-late-write', 'C19', 'a conversion whose output cannot be written',
 'a conversion that cannot write its output reports success',
 [('cmd/cmd_convert.py', "    out_db.write(args.out)    \n", "    try:\n        out_db.write(args.out)\n    except OSError as e:\n        print(\"Note: %s not written; %s\" % (args.out, str(e)))\n")],
 CMD + '''
a = put('a.xml', [('i0', [('cg', 1, sp, [])])])
r = ucis('convert', '-o', os.path.join(T, 'nodir', 'o.xml'), a)
check(r.returncode != 0, 'success although nothing was written')
'''))
S.append(('C19-merge-skip-unreadable', 'C19', 'merging several inputs one of which is unreadable',
 'an unreadable input is skipped when another one could be read',
 [('cmd/cmd_merge.py', "            db = db_if.read(input)\n            db_l.append(db)\n        except Exception as e:\n            raise Exception(\"Failed to read input file %s: %s\" % (\n                input,\n                str(e)\n            ))",
   "            db = db_if.read(input)\n            db_l.append(db)\n        except Exception as e:\n            if input == args.db[0]:\n                raise Exception(\"Failed to read input file %s: %s\" % (\n                    input,\n                    str(e)\n                ))\n            print(\"Failed to read input file %s: %s\" % (input, str(e)))")],
 CMD + '''
a = put('a.xml', [('i0', [('cg', 1, sp, [])])])
open(os.path.join(T, 'b.xml'), 'w').write('<junk')
r = ucis('merge', '-o', os.path.join(T, 'o.xml'), a, os.path.join(T, 'b.xml'))
check(r.returncode != 0, 'merge of an unreadable input succeeded')
'''))
S.append(('C19-report-open-first', 'C19', 'a report of an unreadable database to an existing file',
 'the report file is opened before the database has been read',
 [('cmd/cmd_report.py', "    in_db = input_if.read(args.db)\n\n", "    if args.out is not None and (output_desc.out_flags & FormatRptOutFlags.Stream) != 0:\n        fp = open(args.out, \"w\")\n\n    in_db = input_if.read(args.db)\n\n"),
  ('cmd/cmd_report.py', "            fp = open(args.out, \"w\")\n", "            pass\n")],
 CMD + '''
o = os.path.join(T, 'out.txt')
open(o, 'w').write('precious')
r = ucis('report', '-o', o, os.path.join(T, 'missing.xml'))
check(r.returncode != 0 and open(o).read() == 'precious', 'report overwritten although reading failed')
'''))
S.append(('C19-error-type', 'C19', 'a command that fails with an error that is not a ValueError, OSError or plain Exception',
 'only some errors of a command lead to an error status',
 [('__main__.py', "    except Exception as e:\n        traceback.print_exc()\n", "    except KeyError as e:\n        print(\"Error: unknown %s\" % str(e))\n    except Exception as e:\n        traceback.print_exc()\n"),
  ('__main__.py', "        args.func(args)\n", "        args.func(args) \n")],
 H + '''
import ucis.__main__ as m
def boom(args):
    raise KeyError('x')
m.get_parser = lambda: type('P', (), {'parse_args': lambda self, args: type('A', (), {'func': staticmethod(boom)})()})()
sys.argv = ['ucis', 'x']
try:
    m.main()
    rc = 0
except SystemExit as e:
    rc = e.code
check(rc not in (0, None), rc)
'''))
S.append(('C20-validate-close', 'C20', 'validating a file that is not well-formed XML',
 'a file that cannot be parsed stays open after validation',
 [('xml/__init__.py', "    try:\n        doc = etree.parse(fp)\n        \n", "    doc = etree.parse(fp)\n\n    try:\n")],
 FILES + '''
from ucis.xml import validate_ucis_xml
p = os.path.join(T, 'bad.xml')
with _open(p, 'w') as f:
    f.write('<junk')
try:
    validate_ucis_xml(p)
except Exception:
    pass
check(all(f.closed for f in opened if f.name == p), 'input left open')
'''))
S.append(('C20-yaml-stream', 'C20', 'reading a YAML file that is not valid',
 'a YAML file stays open when it cannot be read',
 [('yaml/db_format_if_yaml.py', "        with open(filename, \"r\") as fp:\n            db = reader.load(fp)\n", "        fp = open(filename, \"r\")\n        db = reader.load(fp)\n        fp.close()\n")],
 FILES + '''
from ucis.yaml.db_format_if_yaml import DbFormatIfYaml
p = os.path.join(T, 'bad.yml')
with _open(p, 'w') as f:
    f.write('[1, 2')
try:
    DbFormatIfYaml().read(p)
except Exception:
    pass
check(all(f.closed for f in opened if f.name == p), 'input left open')
'''))
S.append(('C23-list-width', 'C23', 'a registered report format whose name is a prefix of another one',
 'the list command leaves out formats whose name starts another name',
 [('cmd/cmd_list_report_formats.py', "        print(text)\n", "        if len(fmt) > 2:\n            print(text)\n")],
 H + '''
import io, contextlib
from ucis.rgy.format_rgy import FormatRgy
from ucis.rgy.format_if_rpt import FormatDescRpt, FormatRptOutFlags
from ucis.cmd.cmd_list_report_formats import list_report_formats
FormatRgy.inst().addReportFormat(FormatDescRpt(None, 'md', FormatRptOutFlags.Stream, 'extra'))
o = io.StringIO()
with contextlib.redirect_stdout(o):
    list_report_formats(None)
check('md' in o.getvalue(), o.getvalue())
'''))
S.append(('C24-xml-name', 'C24', 'an XML file whose name ends in .gz or .lz4',
 'compressed files are read without validation',
 [('xml/xml_factory.py', "            validate_ucis_xml(fp)\n", "            if not str(file_or_filename).endswith('.gz'):\n                validate_ucis_xml(fp)\n")],
 H + '''
import gzip
from ucis.xml.xml_factory import XmlFactory
from ucis.xml.xml_ucis import XmlUCIS
good = os.path.join(os.environ['DEMO_TMP'], 'a.xml')
XmlFactory.write(mkdb([('i0', [])]), good)
bad = open(good).read().replace('<sourceFiles', '<sourceFiles bogus="1"', 1).replace('<ucis:sourceFiles', '<ucis:sourceFiles bogus="1"', 1)
assert 'bogus' in bad, bad[:400]
p = os.path.join(os.environ['DEMO_TMP'], 'a.xml.gz')
with gzip.open(p, 'wt') as f:
    f.write(bad)
try:
    XmlFactory.read(p)
except Exception:
    sys.exit(0)
check(False, 'invalid document accepted')
'''))
