"""Reports and XML/YAML."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import H
B = 'report/coverage_report_builder.py'
T = 'report/format_rpt_text.py'
J = 'report/format_rpt_json.py'
W = 'xml/xml_writer.py'
R = 'xml/xml_reader.py'
Y = 'yaml/yaml_reader.py'
S = []

S.append(('C04-zero-threshold', 'C04', 'a cross bin whose at-least threshold is 0 and which was never hit',
 'cross bins with a threshold of zero are no longer counted as covered',
 [(B, "        for ci_n in cr_n.coverItems(CoverTypeT.CVGBIN):\n            cvg_data = ci_n.getCoverData()\n\n            if cvg_data.data >= cvg_data.at_least:",
      "        for ci_n in cr_n.coverItems(CoverTypeT.CVGBIN):\n            cvg_data = ci_n.getCoverData()\n\n            if cvg_data.data > 0 and cvg_data.data >= cvg_data.at_least:")],
 H + '''
from ucis.report.coverage_report_builder import CoverageReportBuilder
sp = {'cps': [('a', 1, [('x', 1, 1, G)]), ('b', 1, [('y', 1, 1, G)])], 'crs': [('axb', 1, ['a', 'b'], [('<x,y>', 0, 0, G), ('<x,z>', 0, 1, G)])]}
r = CoverageReportBuilder.build(mkdb([('i0', [('cg', 1, sp, [])])]))
check(r.covergroups[0].crosses[0].coverage == 50, r.covergroups[0].crosses[0].coverage)
'''))
S.append(('C04-empty-coverpoint-weight', 'C04', 'a covergroup with a coverpoint that has only ignore bins',
 'coverpoints without regular bins no longer enter the weighted mean',
 [(B, "                coverage += cp.coverage * cp.weight\n            div += cp.weight\n", "                coverage += cp.coverage * cp.weight\n            if cp.bins:\n                div += cp.weight\n")],
 H + '''
from ucis.report.coverage_report_builder import CoverageReportBuilder
sp = {'cps': [('a', 1, [('x', 1, 1, G)]), ('b', 1, [('y', 1, 1, I)])]}
r = CoverageReportBuilder.build(mkdb([('i0', [('cg', 1, sp, [])])]))
check(r.covergroups[0].coverage == 50, r.covergroups[0].coverage)
'''))
S.append(('C04-instance-weights', 'C04', 'a type covergroup with instances',
 'the coverage of a type covergroup that has instances is replaced by that of the best instance when it has no own weight',
 [(B, "        for cr in cg_r.crosses:\n            coverage +=", "        for cr in cg_r.crosses + [i for i in cg_r.covergroups if i.weight > 1]:\n            coverage +=")],
 H + '''
from ucis.report.coverage_report_builder import CoverageReportBuilder
sp = lambda n: {'cps': [('a', 1, [('x', n, 1, G), ('y', 1, 1, G)])]}
r = CoverageReportBuilder.build(mkdb([('i0', [('cg', 1, sp(1), [('ci0', 1, sp(0)), ('ci1', 2, sp(0))])])]))
check(r.covergroups[0].coverage == 100, r.covergroups[0].coverage)
'''))
S.append(('C05-first-instances', 'C05', 'a covergroup type with an instance of the same name',
 'an instance covergroup that carries the name of its type is not reported',
 [(B, "            cg_r.covergroups.append(self.build_covergroup(cg_in))\n", "            if cg_in.getScopeName() != cg_n.getScopeName():\n                cg_r.covergroups.append(self.build_covergroup(cg_in))\n")],
 H + '''
from ucis.report.coverage_report_builder import CoverageReportBuilder
sp = {'cps': [('a', 1, [('x', 1, 1, G)])]}
r = CoverageReportBuilder.build(mkdb([('i0', [('cg', 1, sp, [('cg', 1, sp), ('c1', 1, sp)])])]))
check([c.name for c in r.covergroups[0].covergroups] == ['cg', 'c1'], [c.name for c in r.covergroups[0].covergroups])
'''))
S.append(('C05-zero-goal-hit', 'C05', 'a bin whose at-least threshold is zero',
 'a bin with goal 0 and no hits is flagged not hit',
 [('report/coverage_report.py', "            return self.count >= self.goal", "            return self.count >= max(self.goal, 1)")],
 H + '''
from ucis.report.coverage_report_builder import CoverageReportBuilder
sp = {'cps': [('a', 1, [('x', 0, 0, G)])]}
r = CoverageReportBuilder.build(mkdb([('i0', [('cg', 1, sp, [])])]))
check(r.covergroups[0].coverpoints[0].bins[0].hit, 'bin with goal 0 is not hit')
'''))
S.append(('C06-partial-hits-lost', 'C06', 'order_bins_by_hit with a bin that has hits but fewer than its threshold',
 'bins that were hit, but less often than their goal, are listed in neither half of the ordered bin list',
 [(T, "                if not b.hit:\n", "                if b.count == 0:\n")],
 H + '''
import io
from ucis.report.format_rpt_text import FormatRptText
sp = {'cps': [('a', 1, [('x', 5, 1, G), ('part', 1, 3, G), ('none', 0, 1, G)])]}
f = FormatRptText()
f.details = True
f.order_bins_by_hit = True
o = io.StringIO()
f.report(mkdb([('i0', [('cg', 1, sp, [])])]), o, [])
check(o.getvalue().count('part : 1') == 1, o.getvalue())
'''))
S.append(('C06-percent-in-name', 'C06', 'a bin whose name contains a percent sign',
 'bin names are used as part of the format string',
 [(T, "        else:\n            for b in bins:\n                self.writeln(\"%s : %d\", b.name, b.count)\n", "        else:\n            for b in bins:\n                self.writeln(b.name + \" : %d\", b.count)\n")],
 H + '''
import io
from ucis.report.format_rpt_text import FormatRptText
sp = {'cps': [('a', 1, [('50%% load', 5, 1, G)])]}
f = FormatRptText()
f.details = True
o = io.StringIO()
f.report(mkdb([('i0', [('cg', 1, sp, [])])]), o, [])
check('50%% load : 5' in o.getvalue(), o.getvalue())
'''))
S.append(('C07-illegal-else', 'C07', 'a coverpoint that has ignore bins and illegal bins',
 'illegal bins are left out of the JSON report when there are ignore bins',
 [(J, "            if cp.illegal_bins is not None and len(cp.illegal_bins) > 0:\n", "            elif cp.illegal_bins is not None and len(cp.illegal_bins) > 0:\n")],
 H + '''
import io, json
from ucis.report.format_rpt_json import FormatRptJson
sp = {'cps': [('a', 1, [('x', 5, 1, G), ('ig', 1, 1, I), ('il', 2, 1, X)])]}
o = io.StringIO()
FormatRptJson().report(mkdb([('i0', [('cg', 1, sp, [])])]), o, [])
cp = json.loads(o.getvalue())['covergroups'][0]['coverpoints'][0]
check([b['name'] for b in cp.get('illegalbins', [])] == ['il'], cp)
'''))
S.append(('C07-cross-hit-only', 'C07', 'a cross with bins that were never hit',
 'cross bins without hits are left out of the JSON report',
 [(J, "                for b in cr.bins:\n                    b_j", "                for b in cr.bins[:64]:\n                    b_j")],
 H + '''
import io, json
from ucis.report.format_rpt_json import FormatRptJson
sp = {'cps': [('a', 1, [('x', 1, 1, G)]), ('b', 1, [('y', 1, 1, G)])], 'crs': [('axb', 1, ['a', 'b'], [('<%d>' % i, i, 1, G) for i in range(100)])]}
o = io.StringIO()
FormatRptJson().report(mkdb([('i0', [('cg', 1, sp, [])])]), o, [])
cr = json.loads(o.getvalue())['covergroups'][0]['crosses'][0]
check(len(cr['bins']) == 100, len(cr['bins']))
'''))
XML = H + '''
import io
from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
from lxml import etree
def export(db):
    o = io.StringIO()
    XmlWriter().write(o, db)
    return o.getvalue()
def read(t):
    return XmlReader().read(io.BytesIO(t.encode()))
'''
S.append(('C08-instance-like-type', 'C08', 'a covergroup with instances, one of them named like the type',
 'a covergroup instance that carries the name of its type is not exported when there are other instances',
 [(W, "                    self.write_coverinstance(cgElem, cg.getScopeName(), cg_inst)\n", "                    if cg_inst.getScopeName() != cg.getScopeName():\n                        self.write_coverinstance(cgElem, cg.getScopeName(), cg_inst)\n")],
 XML + '''
sp = {'cps': [('a', 1, [('x', 1, 1, G)])]}
t = export(mkdb([('i0', [('cg', 1, sp, [('cg', 1, sp), ('cg_1', 1, sp)])])]))
names = [e.get('name') for e in etree.fromstring(t).iter('cgInstance')]
check(names == ['cg', 'cg_1'], names)
'''))
S.append(('C08-count-clamp', 'C08', 'a cross bin with a count above 2**31-1',
 'large cross bin counts are clamped',
 [(W, "            contents = self.mkElem(crBinElem, \"contents\")\n            self.setAttr(contents, \"coverageCount\", str(cov_data.data))\n", "            contents = self.mkElem(crBinElem, \"contents\")\n            self.setAttr(contents, \"coverageCount\", str(min(cov_data.data, 0x7FFFFFFF)))\n")],
 XML + '''
sp = {'cps': [('a', 1, [('x', 1, 1, G)]), ('b', 1, [('y', 1, 1, G)])], 'crs': [('axb', 1, ['a', 'b'], [('<x,y>', 5000000000, 1, G)])]}
t = export(mkdb([('i0', [('cg', 1, sp, [])])]))
c = [e.find('contents').get('coverageCount') for e in etree.fromstring(t).iter('crossBin')]
check(c == ['5000000000'], c)
'''))
S.append(('C09-inst-coverpoints-survive', 'C09', 'a later instance whose cross names a coverpoint only an earlier instance has',
 'the table of instance coverpoints is shared by all instances, so a cross is linked to a coverpoint of another instance instead of being rejected',
 [(R, "        cg_inst_l = []\n        for cg_e in cg_l:\n", "        cg_inst_l = []\n        cg_inst_cp_m = {}\n        for cg_e in cg_l:\n"),
  (R, "            cg_inst_cp_m = {}\n\n            for cp_e", "            for cp_e")],
 XML + '''
sp = {'cps': [('a', 1, [('x', 1, 1, G)]), ('b', 1, [('y', 1, 1, G)])], 'crs': [('axb', 1, ['a', 'b'], [('<x,y>', 1, 1, G)])]}
t = export(mkdb([('i0', [('cg', 1, sp, [('c0', 1, sp), ('c1', 1, sp)])])]))
r = etree.fromstring(t)
i1 = list(r.iter('cgInstance'))[1]
i1.remove(i1.findall('coverpoint')[1])
try:
    read(etree.tostring(r).decode())
except Exception:
    sys.exit(0)
check(False, 'a cross that names an unknown coverpoint was accepted')
'''))
S.append(('C09-type-by-last-kind', 'C09', 'an instance where an ignore bin has the same name as a regular bin of the other instance',
 'coverpoint bins of the type take over the count of the last instance when it is larger than the sum so far',
 [(R, "            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count)\n", "            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count if entry[1] else 1)\n")],
 XML + '''
sp = lambda n: {'cps': [('a', 1, [('x', n, 1, G)])]}
db = read(export(mkdb([('i0', [('cg', 1, sp(0), [('c0', 1, sp(0)), ('c1', 1, sp(7))])])])))
d = dump(db)
check(d[('i0', 'cg', 'a', 'CVGBIN', 'x')] == 7, d)
'''))
S.append(('C10-vendor-optional', 'C10', 'a history node without a vendor id (None)',
 'a required attribute is written only when it has a value',
 [(W, '            self.setAttr(histN, "vendorId", h.getVendorId())\n', '            self.setIfNonNull(histN, "vendorId", h.getVendorId() or None)\n')],
 XML + '''
from ucis.xml import validate_ucis_xml
db = mkdb([('i0', [])])
h = db.createHistoryNode(None, 'l', 'p', 'TEST')
h.setVendorId('')
p = os.path.join(os.environ['DEMO_TMP'], 'a.xml')
open(p, 'w').write(export(db))
try:
    validate_ucis_xml(p)
except Exception as e:
    check(False, e)
'''))
S.append(('C10-same-tests', 'C10', 'a history node with a same-tests count',
 'the attribute for the number of equal tests is spelt in a way the schema does not know',
 [(W, '            self.setIfNonNeg(histN, "sameTests", h.getSameTests())\n            self.setIfNonNull(histN, "comment", h.getComment())\n\n        if', '            self.setIfNonNeg(histN, "sameTest", h.getSameTests())\n            self.setIfNonNull(histN, "comment", h.getComment())\n\n        if')],
 XML + '''
from ucis.xml import validate_ucis_xml
db = mkdb([('i0', [])])
h = db.createHistoryNode(None, 'l', 'p', 'TEST')
h.setSameTests(2)
p = os.path.join(os.environ['DEMO_TMP'], 'a.xml')
open(p, 'w').write(export(db))
try:
    validate_ucis_xml(p)
except Exception as e:
    check(False, e)
'''))
S.append(('C11-zero-time', 'C11', 'a history node with a simulation time, CPU time or cost of zero',
 'values of zero are not exported, so they come back as unset',
 [(W, "        if val >= 0:\n", "        if val > 0:\n")],
 XML + '''
db = mkdb([('i0', [])])
h = db.createHistoryNode(None, 'l', 'p', 'TEST')
h.setSimTime(0.0)
h2 = list(read(export(db)).getHistoryNodes(HistoryNodeKind.ALL))[0] if False else None
from ucis.history_node_kind import HistoryNodeKind
h2 = list(read(export(db)).historyNodes(HistoryNodeKind.ALL))[0]
check(h2.getSimTime() == 0.0, h2.getSimTime())
'''))
S.append(('C11-vendor-swap', 'C11', 'a history node whose vendor id and vendor tool differ',
 'the importer restores the vendor id from the attribute of the vendor tool',
 [(R, '        ret.setVendorId(histN.attrib["vendorId"])\n', '        ret.setVendorId(histN.attrib["vendorTool"])\n')],
 XML + '''
from ucis.history_node_kind import HistoryNodeKind
db = mkdb([('i0', [])])
h = db.createHistoryNode(None, 'l', 'p', 'TEST')
h.setVendorId('acme')
h.setVendorTool('sim')
h2 = list(read(export(db)).historyNodes(HistoryNodeKind.ALL))[0]
check(h2.getVendorId() == 'acme', h2.getVendorId())
'''))
YAML = H + '''
from ucis.yaml.yaml_reader import YamlReader
def load(t):
    return YamlReader().loads(t)
'''
YT = '''
db = load("""
coverage:
  covergroups:
    - name: cg
      instances:
        - name: i0
          coverpoints:
            - name: a
              bins: [{name: x, count: 1}]
            - name: b
              bins: [{name: y, count: 1}]
          crosses:
            - name: axb
              coverpoints: [a, b]
              bins: [{name: "<x,y>", count: 2}]
        - name: i1
          coverpoints:
            - name: a
              bins: [{name: x, count: 1}]
            - name: b
              bins: [{name: y, count: 1}]
          crosses:
            - name: axb
              coverpoints: [a, b]
              bins: [{name: "<x,y>", count: 3}]
""")
d = dump(db)
check(d[('cg_inst', 'cg', 'axb', 'CVGBIN', '<x,y>')] == 5, d)
i = next(iter(db.scopes(ScopeTypeT.INSTANCE)))
cg = next(iter(i.scopes(ScopeTypeT.COVERGROUP)))
for ci in cg.scopes(ScopeTypeT.COVERINSTANCE):
    cps = list(ci.scopes(ScopeTypeT.COVERPOINT))
    cr = next(iter(ci.scopes(ScopeTypeT.CROSS)))
    check([cr.getIthCrossedCoverpoint(k) for k in range(2)] == cps, 'a cross is linked to coverpoints of another scope')
'''
S.append(('C12-cross-atleast-zero', 'C12', 'a cross with an at-least threshold of zero',
 'the type cross gets a threshold of at least one',
 [(Y, "            at_least = cr.atleast\n", "            at_least = int(cr.atleast) or 1\n")],
 YAML + '''
db = load("""
coverage:
  covergroups:
    - name: cg
      instances:
        - name: i0
          coverpoints:
            - name: a
              bins: [{name: x, count: 1}]
          crosses:
            - name: axa
              atleast: 0
              coverpoints: [a, a]
              bins: [{name: "<x,x>", count: 0}]
""")
i = next(iter(db.scopes(ScopeTypeT.INSTANCE)))
cg = next(iter(i.scopes(ScopeTypeT.COVERGROUP)))
cr = next(iter(cg.scopes(ScopeTypeT.CROSS)))
v = [b.getCoverData().at_least for b in cr.coverItems(G)]
check(v == [0], v)
'''))
S.append(('C12-type-coverpoints', 'C12', 'a cross of a covergroup instance inspected through getIthCrossedCoverpoint',
 'crosses of instances are linked to the coverpoints of the type',
 [(Y, "                    cp_n_scope_m[str(cp.name)] = self.record_coverpoint(cg_i_scope, cp)\n", "                    cp_n_scope_m.setdefault(str(cp.name), self.record_coverpoint(cg_i_scope, cp))\n"),
  (Y, "            cp_n_scope_m = {}\n            cg_i_scope", "            cg_i_scope")],
 YAML + YT))
S.append(('C12-atleast-type', 'C12', 'a coverpoint with an at-least threshold above one whose type is looked at',
 'bins of ignored and illegal values lose the coverpoint threshold',
 [(Y, "            for b in cp.illegalbins:\n                cp_scope.createBin(\n                    str(b.name),\n                    cp_location,\n                    at_least,", "            for b in cp.illegalbins:\n                cp_scope.createBin(\n                    str(b.name),\n                    cp_location,\n                    1,")],
 YAML + '''
db = load("""
coverage:
  covergroups:
    - name: cg
      instances:
        - name: i0
          coverpoints:
            - name: a
              atleast: 4
              bins: [{name: x, count: 1}]
              illegalbins: [{name: z, count: 1}]
""")
i = next(iter(db.scopes(ScopeTypeT.INSTANCE)))
cg = next(iter(i.scopes(ScopeTypeT.COVERGROUP)))
cp = next(iter(cg.scopes(ScopeTypeT.COVERPOINT)))
v = [b.getCoverData().at_least for b in cp.coverItems(X)]
check(v == [4], v)
'''))
S.append(('C13-yaml-db', 'C13', 'one YamlReader used for two documents',
 'the second document read by a reader is added to the database returned for the first',
 [(Y, "        self.db = MemUCIS()\n", "        self.db = getattr(self, 'db', None) or MemUCIS()\n")],
 YAML + '''
t = "coverage:\\n  covergroups:\\n    - name: %s\\n      instances:\\n        - name: i\\n          coverpoints:\\n            - name: a\\n              bins: [{name: x, count: 1}]\\n"
r = YamlReader()
r.loads(t % 'cg1')
d = dump(r.loads(t % 'cg2'))
check(not any('cg1' in k for k in d), d)
'''))
S.append(('C13-class-cache', 'C13', 'two XML files exported in one process',
 'the file table is kept in a class attribute and grows over exports',
 [(W, "    UCIS = \"http://www.w3.org/2001/XMLSchema-instance\"\n", "    UCIS = \"http://www.w3.org/2001/XMLSchema-instance\"\n    _hist_date = []\n"),
  (W, "            self.setAttrDateTime(histN, \"date\", datetime.now().strftime(\"%Y%m%d%H%M%S\"))\n", "            if not self._hist_date:\n                self._hist_date.append(self.db.getScopeName() or self.db.getWrittenBy())\n            self.setAttrDateTime(histN, \"date\", datetime.now().strftime(\"%Y%m%d%H%M%S\"))\n"),
  (W, "            self.setIfNonNull(histN, \"userName\", \"dummy\")\n", "            self.setIfNonNull(histN, \"userName\", self._hist_date[0])\n")],
 XML + '''
def db(by):
    d = mkdb([('i0', [])])
    d.setWrittenBy(by)
    return d
def user(t):
    return [e.get('userName') for e in etree.fromstring(t).iter('historyNodes')]
a = user(export(db('alice')))
b = user(export(db('bob')))
check('alice' not in b, (a, b))
'''))
S.append(('C25-shared-id', 'C25', 'a database with a scope whose source file is recorded first',
 'the first source file gets the id of the null file',
 [(W, "                    id = len(self.file_id_m)+1\n", "                    id = len(self.file_id_m)\n")],
 XML + '''
t = export(mkdb([('i0', [])]))
ids = [e.get('id') for e in etree.fromstring(t).iter('sourceFiles')]
check(len(set(ids)) == len(ids), ids)
'''))
S.append(('C25-shallow', 'C25', 'a source file that only nested scopes (coverpoints) refer to',
 'source files are collected only from scopes that have source information themselves',
 [(W, "            self.find_all_files(s.scopes(ScopeTypeT.ALL))\n", "                    self.find_all_files(s.scopes(ScopeTypeT.ALL))\n")],
 XML + '''
db = MemFactory.create()
f, g = db.createFileHandle('a.sv', '/tmp'), db.createFileHandle('b.sv', '/tmp')
du = db.createScope('m', SourceInfo(f, 1, 0), 1, UCIS_VLOG, UCIS_DU_MODULE, FL)
inst = db.createInstance('i0', SourceInfo(f, 1, 0), 1, UCIS_VLOG, UCIS_INSTANCE, du, UCIS_INST_ONCE)
inst.createCovergroup('cg', SourceInfo(g, 2, 0), 1, UCIS_VLOG)
names = [e.get('fileName') for e in etree.fromstring(export(db)).iter('sourceFiles')]
check('b.sv' in names, names)
'''))
