import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import H
S = []
X = H + '''
import io, tempfile, shutil
from ucis.xml.xml_reader import XmlReader
from ucis.xml import validate_ucis_xml
DOC = """<?xml version="1.0"?>
%s<%sUCIS xmlns:u="urn:ucis" ucisVersion="1.0" writtenBy="me" writtenTime="2020-01-01T00:00:00">
<sourceFiles fileName="f.sv" id="1"/>
<historyNodes historyNodeId="0" logicalName="l" physicalName="p" kind="t" testStatus="true" date="2020-01-01T00:00:00" toolCategory="c" ucisVersion="1.0" vendorId="v" vendorTool="t" vendorToolVersion="1"/>
%s
</%sUCIS>
"""
def inst(name, module, key):
    return ('<instanceCoverages name="%s" key="%s" moduleName="%s"><id file="1" line="1" inlineCount="1"/></instanceCoverages>' % (name, key, module))
'''
S.append(('C09-one-module', 'C09', 'a document with instances of two modules',
 'every instance is attached to the design unit of the first module',
 [('xml/xml_reader.py', "        if name not in self.module_scope_m.keys():\n            scope = self.db.createScope(", "        if len(self.module_scope_m) == 0:\n            scope = self.db.createScope("),
  ('xml/xml_reader.py', "            scope = self.module_scope_m[name]\n", "            scope = next(iter(self.module_scope_m.values()))\n")],
 X + '''
db = XmlReader().read(io.BytesIO((DOC % ('', '', inst('a', 'm0', 0) + inst('b', 'm1', 1), '')).encode()))
got = [s.getInstanceDu().getScopeName() for s in db.scopes(ScopeTypeT.INSTANCE)]
check(got == ['m0', 'm1'], got)
'''))
S.append(('C09-comment', 'C09', 'a document with a comment inside the root element',
 'comments make the validation of a document fail',
 [('xml/__init__.py', "            if not hasattr(elem.tag, 'find'): continue  # (1)\n", "")],
 X + '''
f = io.BytesIO((DOC % ('', '', '<!-- by hand -->' + inst('a', 'm0', 0), '')).encode())
check(validate_ucis_xml(f) == True, 'not valid')
'''))
S.append(('C09-deep-namespace', 'C09', 'a document whose inner elements are namespace-qualified',
 'only the root element loses its namespace',
 [('xml/xml_reader.py', "        for elem in root.getiterator():\n", "        for elem in (root,):\n")],
 X + '''
body = inst('a', 'm0', 0).replace('instanceCoverages', 'u:instanceCoverages')
db = XmlReader().read(io.BytesIO((DOC % ('', 'u:', body, 'u:')).encode()))
got = [s.getScopeName() for s in db.scopes(ScopeTypeT.INSTANCE)]
check(got == ['a'], got)
'''))
W = H + '''
import io
from ucis.xml.xml_writer import XmlWriter
from ucis.xml import validate_ucis_xml
from ucis.xml.xml_reader import XmlReader
from ucis.mem import MemUCIS
from ucis.history_node_kind import HistoryNodeKind
def node(db, name):
    h = db.createHistoryNode(None, name, name + '.db', HistoryNodeKind.TEST)
    h.setToolCategory('t'); h.setVendorId('v'); h.setVendorTool('vt'); h.setVendorToolVersion('1')
    h.setDate('20200101000000'); h.setTestStatus(TestStatusT.OK)
    return h
def write(db):
    o = io.StringIO(); XmlWriter().write(o, db); return o.getvalue()
from ucis.test_status_t import TestStatusT
'''
S.append(('C11-placeholder', 'C11', 'exporting a database that has history nodes',
 'a dummy history node is added after the real ones when the last one is of a failed test',
 [('xml/xml_writer.py', "            have_hist_nodes = True\n", "            have_hist_nodes = h.getTestStatus() == TestStatusT.OK\n")],
 W + '''
db = mkdb([('i', [])])
node(db, 'a'); h = node(db, 'b'); h.setTestStatus(TestStatusT.ERROR)
d = XmlReader().read(io.BytesIO(write(db).encode()))
got = [h.getLogicalName() for h in d.historyNodes(HistoryNodeKind.ALL)] if hasattr(d, 'historyNodes') else None
check(got == ['a', 'b'], got)
'''))
S.append(('C10-no-history', 'C10', 'exporting a database without history nodes and source files',
 'the placeholder history node is only written along with source files',
 [('xml/xml_writer.py', "        if not have_hist_nodes:\n", "        if not have_hist_nodes and len(self.file_id_m) > 1:\n")],
 W + '''
db = MemUCIS()
check(write(db).count('<historyNodes') == 1, write(db))
'''))
Y = H + '''
from ucis.yaml.yaml_reader import YamlReader
'''
S.append(('C12-no-crosses', 'C12', 'a document whose crosses list no bins',
 'a cross without bins makes the import fail',
 [('yaml/yaml_reader.py', "        if cr.bins is not None:        \n            for b in cr.bins:\n                cr_scope", "        if len(cp_l) > 0:\n            for b in cr.bins:\n                cr_scope")],
 Y + '''
db = YamlReader().loads("""
coverage:
  covergroups:
  - name: cg
    instances:
    - name: i
      coverpoints:
      - name: a
        bins: [{name: x, count: 1}]
      crosses:
      - name: c
        coverpoints: [a]
""")
i = list(db.scopes(ScopeTypeT.INSTANCE))[0]
g = list(i.scopes(ScopeTypeT.COVERGROUP))[0]
check([c.getScopeName() for c in g.scopes(ScopeTypeT.CROSS)] == ['c'], 'cross')
'''))
S.append(('C12-weight-zero', 'C12', 'a covergroup with weight 0',
 'a covergroup weight of 0 is taken for an absent one',
 [('yaml/yaml_reader.py', "            weight = int(cg_t.weight)\n", "            weight = max(1, int(cg_t.weight))\n")],
 Y + '''
db = YamlReader().loads("""
coverage:
  covergroups:
  - name: cg
    weight: 0
    instances:
    - name: i
      coverpoints:
      - name: a
        bins: [{name: x, count: 1}]
""")
i = list(db.scopes(ScopeTypeT.INSTANCE))[0]
g = list(i.scopes(ScopeTypeT.COVERGROUP))[0]
check(g.getWeight() == 0, g.getWeight())
'''))
