From c0015bfe04abfd1616e691b14242f1d0b758539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:24 +0000
Subject: [PATCH 01/33] fix: JSON report of covergroups with crosses,
 coverpoint names

The report schema did not declare crosses on type covergroups, and
report_cross called a method that does not exist, so any covergroup with
a cross made the report fail. Coverpoints were reported without a name and
crosses without their coverage.
---
 src/ucis/report/format_rpt_json.py | 5 ++---
 src/ucis/schema/covreport.json     | 5 +++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index c16acbf..9704833 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -100,6 +100,7 @@ class FormatRptJson(FormatIfRpt):
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
         
         cp_j = self._ns.Coverpoint()
+        cp_j.name = cp.name
         cp_j.coverage = cp.coverage
         
         if self.details:
@@ -131,9 +132,7 @@ class FormatRptJson(FormatIfRpt):
         
         cr_j = self._ns.Cross()
         cr_j.name = cr.name
-        cr_j.weight = cr.weight
-        
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        cr_j.coverage = cr.coverage
         
         if self.details:
             if cr.bins is not None:
diff --git a/src/ucis/schema/covreport.json b/src/ucis/schema/covreport.json
index 756c4e1..58e0e1a 100644
--- a/src/ucis/schema/covreport.json
+++ b/src/ucis/schema/covreport.json
@@ -42,6 +42,11 @@
 					"type": "array",
 					"items": { "$ref": "#/defs/coverpointType" }
 				},
+				"crosses": {
+					"description": "List of cross coverpoints",
+					"type": "array",
+					"items": { "$ref": "#/defs/crossType" }
+				},
 				"covergroups": {
 					"description": "List of instance covergroups",
 					"type": "array",
-- 
2.43.0


From cdb9a2cdf3ed984ffe9210e155ac1ac5a9a370df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:26 +0000
Subject: [PATCH 02/33] fix: report crosses with their own weight and at-least
 threshold

build_cross left every cross at weight 1 and showed the constant goal of the
bin data as the bin's goal, so CoverBin.hit disagreed with the percentage.
---
 src/ucis/report/coverage_report_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 0a01b93..c39e423 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -133,6 +133,7 @@ class CoverageReportBuilder(object):
 
     def build_cross(self, cr_n : Cross):
         cr_r = CoverageReport.Cross(cr_n.getScopeName())
+        cr_r.weight = cr_n.getWeight()
         
         # Read in bins
         num_hit = 0
@@ -145,7 +146,7 @@ class CoverageReportBuilder(object):
                 
             cr_r.bins.append(CoverageReport.CoverBin(
                     ci_n.getName(),
-                    cvg_data.goal,
+                    cvg_data.at_least,
                     cvg_data.data))
 
             total += 1
-- 
2.43.0


From 22e55770f100f1128a8754d481ae28d7d9d57c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:45 +0000
Subject: [PATCH 03/33] fix: overall report coverage spans all instances

The overall percentage was recomputed for each instance, so only the last
instance counted, and a database without covergroups (or with weight 0 only)
made the report fail with ZeroDivisionError.
---
 src/ucis/report/coverage_report_builder.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index c39e423..e09d349 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -35,22 +35,26 @@ class CoverageReportBuilder(object):
         for iscope in self.db.scopes(ScopeTypeT.INSTANCE):
             self.build_covergroups(iscope)
             
+        # Overall coverage spans the covergroups of all instances
+        coverage = 0.0
+        div = 0
+        
+        for cg in self.report.covergroups:
+            if cg.weight > 0:
+                coverage += cg.coverage * cg.weight
+            div += cg.weight
+            
+        if div > 0: self.report.coverage = coverage/div
+            
         return self.report
             
 
     def build_covergroups(self, iscope):
         
-        coverage = 0.0
-        div = 0
-        
         for cg_t in iscope.scopes(ScopeTypeT.COVERGROUP):
             cg = self.build_covergroup(cg_t)
-            if cg.weight > 0:
-                coverage += cg.coverage * cg.weight
-            div += cg.weight
             self.report.covergroups.append(cg)
             self.report.covergroup_m[cg.instname] = cg
-        self.report.coverage = coverage/div
             
     def build_covergroup(self, cg_n)->CoverageReport.Covergroup:
         cg_r = CoverageReport.Covergroup(
-- 
2.43.0


From ba128e8d742751eeb4b9b9e505d55ee267e25ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:58 +0000
Subject: [PATCH 04/33] fix: name the missing coverpoint when a merged cross
 cannot be linked

Scopes have no getName(), so the error path itself failed with AttributeError.
---
 src/ucis/merge/db_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 1b9ee9b..9cfbc4d 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -214,7 +214,7 @@ class DbMerger(object):
                     coverpoint_l.append(dst_cp_m[src_cp.getScopeName()])
                 else:
                     raise Exception("Cannot find coverpoint %s when creating cross %s" % (
-                        src_cp.getName(), name))
+                        src_cp.getScopeName(), name))
 
             dst_cr = dst_cg.createCross(
                 name,
-- 
2.43.0


From 1443e0229b61470b2d8a093611a5f0893553530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:00 +0000
Subject: [PATCH 05/33] fix: exit with a nonzero status when a command fails

---
 src/ucis/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/__main__.py b/src/ucis/__main__.py
index a87ca6a..628c5e8 100644
--- a/src/ucis/__main__.py
+++ b/src/ucis/__main__.py
@@ -88,6 +88,7 @@ def main():
     except Exception as e:
         traceback.print_exc()
         print("Error: %s" % "{0}".format(e))
+        sys.exit(1)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 80f0e0211520496227c59cf521f6e3ba912f43ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:02 +0000
Subject: [PATCH 06/33] fix: close the output file when writing XML fails

---
 src/ucis/xml/xml_factory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 5f9f0d5..05cd7bf 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -88,8 +88,9 @@ class XmlFactory():
         else:
             fp = file_or_filename
         
-        writer.write(fp, db)
-        
-        if type(file_or_filename) == str:
-            fp.close()
+        try:
+            writer.write(fp, db)
+        finally:
+            if type(file_or_filename) == str:
+                fp.close()
             
-- 
2.43.0


From a2216e53b574dd80991fb1c24417ee9f34d0c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 07/33] fix: close report and input files on every path

A failing report left the output file open (and directory reports tried to
close a path); a failing rewind left the XML input open.
---
 src/ucis/cmd/cmd_report.py  | 9 +++++----
 src/ucis/xml/xml_factory.py | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 3bc2051..0ca5e7e 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -60,9 +60,10 @@ def report(args):
             ))
 
 
-    output_if.report(in_db, fp, [])
-
-    if args.out is not None:
-        fp.close()
+    try:
+        output_if.report(in_db, fp, [])
+    finally:
+        if args.out is not None and (output_desc.out_flags & FormatRptOutFlags.Stream) != 0:
+            fp.close()
 
     in_db.close()
diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 05cd7bf..9cf3616 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -66,11 +66,11 @@ class XmlFactory():
                 fp.close()
             raise e
 
-        fp.seek(0)
+        try:
+            fp.seek(0)
         
-        reader = XmlReader()
+            reader = XmlReader()
         
-        try:
             ret = reader.read(fp)
         finally:
             if type(file_or_filename) == str:
-- 
2.43.0


From a3a6f8ea5f7206e9ddf197df6a22987b276fdfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:25 +0000
Subject: [PATCH 08/33] fix: XmlReader forgets the previous database on each
 read

A reader used twice attached covergroups of the second document to instances
of the database returned first.
---
 src/ucis/xml/xml_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index c51da9a..35b616c 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -59,6 +59,11 @@ class XmlReader():
         root = tree.getroot()
         self.db = MemUCIS()
         
+        # Handles belong to the database being read
+        self.file_m = {}
+        self.module_scope_m = {}
+        self.inst_scope_m = {}
+        
         for elem in root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
             i = elem.tag.find('}')
-- 
2.43.0


From 27f6ae26b7cbe0e15f8e63739441d3e96d238aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:02 +0000
Subject: [PATCH 09/33] fix: CoverData always has an at-least threshold

Only Coverpoint.createBin added the field, so merging or reporting bins made
with createNextCover failed with AttributeError.
---
 src/ucis/cover_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/cover_data.py b/src/ucis/cover_data.py
index 62314ac..186c786 100644
--- a/src/ucis/cover_data.py
+++ b/src/ucis/cover_data.py
@@ -18,5 +18,6 @@ class CoverData():
         self.weight = 0 # if UCIS_HAS_WEIGHT
         self.limit = 0 # if UCIS_HAS_LIMIT
         self.bitlen = 0 # if bytevector
+        self.at_least = 1 # hits needed for the bin to be covered
                  
             
\ No newline at end of file
-- 
2.43.0


From 5cdfdda18faa586eeae5bc3d8628a7ca3452bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:04 +0000
Subject: [PATCH 10/33] fix: XML export takes the bin kind from the cover data

It relied on a field of the in-memory cover index that other backends lack.
---
 src/ucis/xml/xml_writer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 722670a..da240c9 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -234,14 +234,14 @@ class XmlWriter():
             cpBinElem = self.mkElem(cpElem, "coverpointBin")
             self.setAttr(cpBinElem, "name", cp_bin.getName())
 
-            if cp_bin.data.type == CoverTypeT.CVGBIN:
+            if cov_data.type == CoverTypeT.CVGBIN:
                 self.setAttr(cpBinElem, "type", "bins")
-            elif cp_bin.data.type == CoverTypeT.IGNOREBIN:
+            elif cov_data.type == CoverTypeT.IGNOREBIN:
                 self.setAttr(cpBinElem, "type", "ignore")
-            elif cp_bin.data.type == CoverTypeT.ILLEGALBIN:
+            elif cov_data.type == CoverTypeT.ILLEGALBIN:
                 self.setAttr(cpBinElem, "type", "illegal")
             else:
-                raise Exception("Unknown bin type %s" % str(cp_bin.type))
+                raise Exception("Unknown bin type %s" % str(cov_data.type))
             self.setAttr(cpBinElem, "key", "0")
             
             # Now, add the coverage data
-- 
2.43.0


From 185dd8297863e44bde6a4954694da435c13dd313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:06 +0000
Subject: [PATCH 11/33] fix: keep the kind of cross bins in XML

Ignore and illegal bins of crosses were written and read as regular bins.
---
 src/ucis/xml/xml_reader.py | 22 ++++++++++++++++------
 src/ucis/xml/xml_writer.py |  7 ++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 35b616c..f66c08f 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -376,14 +376,14 @@ class XmlReader():
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-        for bin_name,count in cr_bin_m.items():
-            cr_t.createBin
+        for bin_name,(kind,count) in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
                 1, # weight
                 count,
-                "") # TODO:
+                "", # TODO:
+                kind)
         pass
     
     def readCrossBin(self, crb_e, cr, cr_type_i):
@@ -393,17 +393,27 @@ class XmlReader():
 
         count = self.getAttrInt(contentsN, "coverageCount")
 
+        kind_a = self.getAttr(crb_e, "type", "default")
+        kind = UCIS_CVGBIN
+
+        if kind_a == "ignore":
+            kind = UCIS_IGNOREBIN
+        elif kind_a == "illegal":
+            kind = UCIS_ILLEGALBIN
+
         if name in cr_type_i[1].keys():
-            cr_type_i[1][name] += count
+            entry = cr_type_i[1][name]
+            cr_type_i[1][name] = (entry[0], entry[1] + count)
         else:
-            cr_type_i[1][name] = count
+            cr_type_i[1][name] = (kind, count)
 
         cr.createBin(
             name,
             srcinfo,
             1, # weight
             count,
-            "") # TODO:
+            "", # TODO:
+            kind)
 
         
 
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index da240c9..54c1cf8 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -279,7 +279,12 @@ class XmlWriter():
             crBinElem = self.mkElem(crossElem, "crossBin")
             self.setAttr(crBinElem, "name", cr_bin.getName())
             self.setAttr(crBinElem, "key", "0")
-            self.setAttr(crBinElem, "type", "default") # TOOD: illegal, ignore
+            if cov_data.type == CoverTypeT.IGNOREBIN:
+                self.setAttr(crBinElem, "type", "ignore")
+            elif cov_data.type == CoverTypeT.ILLEGALBIN:
+                self.setAttr(crBinElem, "type", "illegal")
+            else:
+                self.setAttr(crBinElem, "type", "default")
             
             index = self.mkElem(crBinElem, "index")
             index.text = "-1" # Note: this is a meaningless value
-- 
2.43.0


From e73eef64592db73f5aef246b8daabbbe7d62cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:28 +0000
Subject: [PATCH 12/33] fix: default history-node date uses the library's date
 format

The default was a number, so XML export of a history node whose date was never
set failed with TypeError.
---
 src/ucis/mem/mem_history_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index 11fb9f9..f383082 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -48,7 +48,7 @@ class MemHistoryNode(HistoryNode):
         self.m_cmd = None
         self.m_args = None
         self.m_compulsory = None
-        self.m_date = int(datetime.timestamp(datetime.now()))
+        self.m_date = datetime.now().strftime("%Y%m%d%H%M%S")
         self.m_user_name = None
         self.m_cost = -1
         self.m_tool_category = "unknown"
-- 
2.43.0


From 2090ac09dc33834989f4103af1088440361ee920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 13/33] fix: export failed tests as failed

Every TestStatusT member is true as a boolean, so failed tests were written
with testStatus="true".
---
 src/ucis/xml/xml_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 54c1cf8..f72b4b5 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -33,6 +33,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.scope import Scope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 
 from lxml import etree as et
 from lxml.etree import QName, tounicode, SubElement
@@ -108,7 +109,7 @@ class XmlWriter():
             histN.set("logicalName", h.getLogicalName())
             self.setIfNonNull(histN, "physicalName", h.getPhysicalName())
             self.setIfNonNull(histN, "kind", h.getKind())
-            self.setAttrBool(histN, "testStatus", h.getTestStatus())
+            self.setAttrBool(histN, "testStatus", h.getTestStatus() == TestStatusT.OK)
             self.setIfNonNeg(histN, "simtime", h.getSimTime())
             self.setIfNonNull(histN, "timeunit", h.getTimeUnit())
             self.setIfNonNull(histN, "runCwd", h.getRunCwd())
-- 
2.43.0


From 2511f50ef297037d099e5e70ac3f5ff369e4fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:52 +0000
Subject: [PATCH 14/33] fix: TEST_STATUS property of a history node is its test
 status

Reading any status through the property interface gave 1, and writing any
status other than OK lost which one it was.
---
 src/ucis/mem/mem_history_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index f383082..4b75a44 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -67,7 +67,7 @@ class MemHistoryNode(HistoryNode):
         coverindex:int, 
         property:IntProperty)-> int:
         if property == IntProperty.TEST_STATUS:
-            return 1 if self.m_test_status else 0
+            return int(self.m_test_status)
         else:
             return super().getIntProperty(coverindex, property)
         
@@ -77,7 +77,7 @@ class MemHistoryNode(HistoryNode):
         property:IntProperty, 
         value:int):
         if property == IntProperty.TEST_STATUS:
-            self.m_test_status = (value==1)
+            self.m_test_status = value
         else:
             super().setIntProperty(coverindex, property, value)
     
-- 
2.43.0


From e4244307a499985922d151438d9532629ad47733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:54 +0000
Subject: [PATCH 15/33] fix: YAML import files type-level ignore and illegal
 bins under their own kind

They were appended to the regular bins of the covergroup type, and summed only
with the first instance.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index aba3b0f..acc3fdd 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -163,7 +163,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.ignorebins.append(t_b)
                                 t_b.count += b.count
                                 
                         if cp.illegalbins is not None:
@@ -180,7 +180,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.illegalbins.append(t_b)
                                 t_b.count += b.count
                         
                 if cg_i.crosses is not None:
-- 
2.43.0


From 1f46e8568b43d075a9f9714cf8819adc7e086d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:35 +0000
Subject: [PATCH 16/33] fix: YAML import of covergroups without instances or
 cross bins

A document or covergroup without entries failed with TypeError, a cross whose
first instance has no bins failed with AttributeError, and a cross of one
instance could be linked to coverpoints of the previous instance.
---
 src/ucis/yaml/yaml_reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index acc3fdd..54987ca 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -98,7 +98,7 @@ class YamlReader(object):
 
         coverage = coverage.coverage
         
-        if coverage.covergroups is not None:
+        if coverage is not None and coverage.covergroups is not None:
             for cg_t in coverage.covergroups:
                 self.process_covergroup(cg_t)
                 
@@ -198,14 +198,14 @@ class YamlReader(object):
                             cr_t_m[str(cr.name)] = (cr_t, cr_t_bins_m)
                             cr_t_l.append(cr_t)
                             
-                            if cr.bins is not None:
-                                cr_t.bins = []
                         else:
                             cr_t = cr_t_m[str(cr.name)][0]
                             cr_t_bins_m = cr_t_m[str(cr.name)][1]
                             
                         # Now, proceed to aggregate bins
                         if cr.bins is not None:
+                            if cr_t.bins is None:
+                                cr_t.bins = []
                             for b in cr.bins:
                                 if b.name in cr_t_bins_m.keys():
                                     cr_t_bins_m[str(b.name)].count += b.count
@@ -245,8 +245,8 @@ class YamlReader(object):
             self.record_cross(cg_t_scope, cp_l, cr)
 
         # Now, write out instances
-        cp_n_scope_m = {}
-        for i in cg_t.instances:
+        for i in cg_t.instances if cg_t.instances is not None else []:
+            cp_n_scope_m = {}
             cg_i_scope = cg_t_scope.createCoverInstance(
                 str(i.name),
                 cg_location,
-- 
2.43.0


From 42c3e5426cc4ac516223bbbcef649e9094cc30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:37 +0000
Subject: [PATCH 17/33] fix: YAML import keeps the at-least threshold on the
 covergroup type

The type bins always got threshold 1, so the type could be reported covered
while none of its instances was.
---
 src/ucis/yaml/yaml_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 54987ca..b23b6f1 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -126,6 +126,8 @@ class YamlReader(object):
                         if str(cp.name) not in cp_t_m.keys():
                             cp_t = self.cvg_ns.Coverpoint()
                             cp_t.name = str(cp.name)
+                            if cp.atleast is not None:
+                                cp_t.atleast = int(cp.atleast)
                             cp_t_m[cp_t.name] = cp_t
                             cp_t_l.append(cp_t)
                         else:
@@ -191,6 +193,8 @@ class YamlReader(object):
                         if str(cr.name) not in cr_t_m.keys():
                             cr_t = self.cvg_ns.Cross()
                             cr_t.name = str(cr.name)
+                            if cr.atleast is not None:
+                                cr_t.atleast = int(cr.atleast)
                             cr_t.coverpoints = []
                             for cr_cp in cr.coverpoints:
                                 cr_t.coverpoints.append(cr_cp)
-- 
2.43.0


From 8ca48ea72e5a0e66bf27021139f563bc77ca2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:42 +0000
Subject: [PATCH 18/33] fix: free a history-node iterator with its database
 handle

---
 src/ucis/lib/lib_history_node_iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_history_node_iterator.py b/src/ucis/lib/lib_history_node_iterator.py
index 9a792d1..3b38313 100644
--- a/src/ucis/lib/lib_history_node_iterator.py
+++ b/src/ucis/lib/lib_history_node_iterator.py
@@ -20,7 +20,7 @@ class LibHistoryNodeIterator(object):
         next = get_lib().ucis_HistoryScan(self.db, self.iter)
         
         if next is None:
-            get_lib().ucis_FreeIterator(self.iter)
+            get_lib().ucis_FreeIterator(self.db, self.iter)
             raise StopIteration
         
         return LibHistoryNode(self.db, next)
-- 
2.43.0


From eaa5a7d898f9c2394559c9ce1a1202971dafd2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:44 +0000
Subject: [PATCH 19/33] fix: native getTestData reads the test data, field by
 field

---
 src/ucis/lib/lib_history_node.py | 6 +++---
 src/ucis/lib/lib_test_data.py    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ucis/lib/lib_history_node.py b/src/ucis/lib/lib_history_node.py
index b3630f5..cfd7ef3 100644
--- a/src/ucis/lib/lib_history_node.py
+++ b/src/ucis/lib/lib_history_node.py
@@ -30,12 +30,12 @@ class LibHistoryNode(LibObj, HistoryNode):
             lib_td)
         
     def getTestData(self):
-        lib_td = pointer(LibTestData())
+        lib_td = LibTestData()
         
-        get_lib().ucis_SetTestData(
+        get_lib().ucis_GetTestData(
             self.db,
             self.obj,
-            lib_td)
+            pointer(lib_td))
         
         return lib_td.to_testdata()
     
diff --git a/src/ucis/lib/lib_test_data.py b/src/ucis/lib/lib_test_data.py
index 6be02d4..f1bddc2 100644
--- a/src/ucis/lib/lib_test_data.py
+++ b/src/ucis/lib/lib_test_data.py
@@ -65,6 +65,8 @@ class LibTestData(Structure):
     def to_testdata(self):
         ret = TestData(
             self.teststatus,
+            self.toolcategory,
+            self.date,
             self.simtime,
             self.timeunit,
             self.runcwd,
@@ -73,10 +75,8 @@ class LibTestData(Structure):
             self.cmd,
             self.args,
             self.compulsory,
-            self.date,
             self.username,
-            self.cost,
-            self.toolcategory)
+            self.cost)
         
         return ret
 
-- 
2.43.0


From 46b9fb29d9d513842ef5d1232910d14a2fdd19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 20/33] fix: native database enumerates its history nodes

---
 src/ucis/lib/lib_ucis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 5672837..1eed404 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -29,6 +29,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.int_property import IntProperty
 from ucis.lib.lib_file_handle import LibFileHandle
 from ucis.lib.lib_history_node import LibHistoryNode
+from ucis.lib.lib_history_node_iterator import LibHistoryNodeIterator
 from ucis.lib.lib_scope import LibScope
 from ucis.lib.libucis import _lib, get_ucis_library, get_lib
 from ucis.ucis import UCIS
@@ -93,10 +94,10 @@ class LibUCIS(LibScope,UCIS):
     
     def getHistoryNodes(self, kind:HistoryNodeKind)->List[HistoryNode]:
         
-        UCIS.getHistoryNodes(self, kind)
+        return UCIS.getHistoryNodes(self, kind)
         
     def historyNodes(self, kind:HistoryNodeKind)->Iterator[HistoryNode]:
-        UCIS.historyNodes(self, kind)
+        return LibHistoryNodeIterator(self.db, None, kind)
         
     def write(self, file, scope=None, recurse=True, covertype=-1):
         logging.debug("file=" + file)
-- 
2.43.0


From ad56744c251a2412bee0e2399c79c516e9028675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:49 +0000
Subject: [PATCH 21/33] fix: declare and call ucis_GetIntProperty with its four
 arguments

---
 src/ucis/lib/lib_ucis.py | 6 +++---
 src/ucis/lib/libucis.py  | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 1eed404..8fd03f2 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -50,13 +50,13 @@ class LibUCIS(LibScope,UCIS):
         super().__init__(db, None)
         
     def isModified(self):
-        return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.IS_MODIFIED) == 1
+        return get_lib().ucis_GetIntProperty(self.db, self.db, -1, IntProperty.IS_MODIFIED) == 1
     
     def modifiedSinceSim(self):
-        return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.MODIFIED_SINCE_SIM) == 1
+        return get_lib().ucis_GetIntProperty(self.db, self.db, -1, IntProperty.MODIFIED_SINCE_SIM) == 1
         
     def getNumTests(self):
-        return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.NUM_TESTS)
+        return get_lib().ucis_GetIntProperty(self.db, self.db, -1, IntProperty.NUM_TESTS)
     
     def getAPIVersion(self)->str:
         # TODO
diff --git a/src/ucis/lib/libucis.py b/src/ucis/lib/libucis.py
index 52e0aad..6ed75c6 100644
--- a/src/ucis/lib/libucis.py
+++ b/src/ucis/lib/libucis.py
@@ -76,6 +76,9 @@ fspec = {
     "ucis_SetIntProperty" : (
         CFUNCTYPE(None, c_void_p, c_void_p, c_int, c_int, c_int),
         ((1,"db"),(1,"obj"),(1,"coverindex"),(1,"property"),(1,"value"))),
+    "ucis_GetIntProperty" : (
+        CFUNCTYPE(c_int, c_void_p, c_void_p, c_int, c_int),
+        ((1,"db"),(1,"obj"),(1,"coverindex"),(1,"property"))),
     "ucis_SetStringProperty" : (
         CFUNCTYPE(None, c_void_p, c_void_p, c_int, c_int, c_char_p),
         ((1,"db"),(1,"obj"),(1,"coverindex"),(1,"property"),(1,"value"))),
-- 
2.43.0


From 7fc976e8d96458c2c12bd52c275bd384d89c13c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:05 +0000
Subject: [PATCH 22/33] fix: native cross bins take a kind, like coverpoint
 bins

---
 src/ucis/lib/lib_cross.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 9e4ef5a..8c3e0d3 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -23,9 +23,10 @@ class LibCross(LibCvgScope, Cross):
         srcinfo:SourceInfo, 
         at_least:int, 
         count:int,
-        binrhs) -> CoverIndex:
+        binrhs,
+        kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
-            UCIS_CVGBIN,
+            kind,
             (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
-- 
2.43.0


From e5242ddbfc10f953758de0c1cf3fda80107d2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:08 +0000
Subject: [PATCH 23/33] fix: DUScope.setStringProperty delegates instead of
 recursing

---
 src/ucis/du_scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/du_scope.py b/src/ucis/du_scope.py
index aa49ade..ec849b3 100644
--- a/src/ucis/du_scope.py
+++ b/src/ucis/du_scope.py
@@ -36,7 +36,7 @@ class DUScope(Scope):
         if property == StrProperty.DU_SIGNATURE:
             self.setSignature(value)
         else:
-            self.setStringProperty(coverindex, property, value)
+            super().setStringProperty(coverindex, property, value)
         
     def accept(self, v):
         v.visit_du_scope(self)
-- 
2.43.0


From bd38c3730b7d7b5ec8ed28b49268b334a188a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:10 +0000
Subject: [PATCH 24/33] fix: MemDUScope.createScope registers and returns the
 scope

---
 src/ucis/mem/mem_du_scope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_du_scope.py b/src/ucis/mem/mem_du_scope.py
index 162e7a0..80b2d7d 100644
--- a/src/ucis/mem/mem_du_scope.py
+++ b/src/ucis/mem/mem_du_scope.py
@@ -42,6 +42,7 @@ class MemDUScope(MemScope, DUScope):
         if ScopeTypeT.DU_ANY(type):
             ret = MemDUScope(self, name, srcinfo, weight,
                               source, type, flags)
-            self.add_child(ret)
+            self.addChild(ret)
+            return ret
         else:
             raise UnimplError()
\ No newline at end of file
-- 
2.43.0


From 2b87fdc95e6ed1397531804c7a35c2c9cac7bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:12 +0000
Subject: [PATCH 25/33] fix: in-memory covergroups return their
 get_inst_coverage setting

---
 src/ucis/mem/mem_covergroup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucis/mem/mem_covergroup.py b/src/ucis/mem/mem_covergroup.py
index 76f3c8d..4c3ce89 100644
--- a/src/ucis/mem/mem_covergroup.py
+++ b/src/ucis/mem/mem_covergroup.py
@@ -45,6 +45,9 @@ class MemCovergroup(MemCvgScope,Covergroup):
     def setPerInstance(self, perinst):
         self.m_per_instance = perinst
     
+    def getGetInstCoverage(self)->bool:
+        return self.m_get_inst_coverage
+    
     def getMergeInstances(self)->bool:
         return self.m_merge_instances
     
-- 
2.43.0


From 536eb0f4a021281021ac23611b4d4d4917023c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:15 +0000
Subject: [PATCH 26/33] fix: COMMENT string property of in-memory coverage
 scopes

---
 src/ucis/mem/mem_cvg_scope.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ucis/mem/mem_cvg_scope.py b/src/ucis/mem/mem_cvg_scope.py
index 310fde9..2817524 100644
--- a/src/ucis/mem/mem_cvg_scope.py
+++ b/src/ucis/mem/mem_cvg_scope.py
@@ -5,6 +5,7 @@ Created on Jan 12, 2020
 '''
 from ucis.mem.mem_scope import MemScope
 from ucis.cvg_scope import CvgScope
+from ucis.str_property import StrProperty
 
 class MemCvgScope(MemScope,CvgScope):
     
@@ -57,3 +58,22 @@ class MemCvgScope(MemScope,CvgScope):
     def setComment(self, c:str):
         self.m_comment = c
         
+    def getStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty) -> str:
+        if property == StrProperty.COMMENT:
+            return self.getComment()
+        else:
+            return super().getStringProperty(coverindex, property)
+    
+    def setStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty,
+            value : str):
+        if property == StrProperty.COMMENT:
+            self.setComment(value)
+        else:
+            super().setStringProperty(coverindex, property, value)
+        
-- 
2.43.0


From 4c4a67adedf49145b3cd07ed36f4fc7d5a47f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:16 +0000
Subject: [PATCH 27/33] fix: cover items created on an instance are found by
 coverItems

---
 src/ucis/mem/mem_instance_scope.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/mem/mem_instance_scope.py b/src/ucis/mem/mem_instance_scope.py
index ddfba52..af13dbf 100644
--- a/src/ucis/mem/mem_instance_scope.py
+++ b/src/ucis/mem/mem_instance_scope.py
@@ -67,6 +67,7 @@ class MemInstanceScope(MemScope,InstanceScope):
         ret = len(self.m_cover_item_l)
         ci = MemCoverItem(self, name, data, sourceinfo)
         self.m_cover_item_l.append(ci)
+        MemScope.createNextCover(self, name, data, sourceinfo)
         
         return ret
     
-- 
2.43.0


From 0bb6b0996b6f47103917972d0b002d1a4d88329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:17 +0000
Subject: [PATCH 28/33] fix: pass the native handle of the parent to
 ucis_CreateHistoryNode

---
 src/ucis/lib/lib_ucis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 8fd03f2..6dce792 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -84,7 +84,7 @@ class LibUCIS(LibScope,UCIS):
         
         hn = get_lib().ucis_CreateHistoryNode(
             self.db,
-            parent,
+            None if parent is None else parent.obj,
             str.encode(logicalname),
             str.encode(physicalname),
             kind)
-- 
2.43.0


From 4be1c447b50faa0cc703cc72269d85c28d6969ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:19 +0000
Subject: [PATCH 29/33] fix: pass the native handle of the scope to ucis_Write

---
 src/ucis/lib/lib_ucis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 6dce792..7da1151 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -104,7 +104,7 @@ class LibUCIS(LibScope,UCIS):
         ret = get_lib().ucis_Write(
             self.db, 
             str.encode(file),
-            scope,
+            None if scope is None else scope.obj,
             1 if recurse else 0,
             covertype)
         logging.debug("ret=" + str(ret))
-- 
2.43.0


From 867b40811f2c6cf58db5d9036c4671c687c59afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:24 +0000
Subject: [PATCH 30/33] fix: pass all 64 bits of the scope mask to
 ucis_ScopeIterate

---
 src/ucis/lib/libucis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/libucis.py b/src/ucis/lib/libucis.py
index 6ed75c6..18eb7b1 100644
--- a/src/ucis/lib/libucis.py
+++ b/src/ucis/lib/libucis.py
@@ -101,7 +101,7 @@ fspec = {
         CFUNCTYPE(c_void_p, c_void_p, c_void_p),
         ((1,"db"), (1,"iterator"))),
     "ucis_ScopeIterate" : (
-        CFUNCTYPE(c_void_p, c_void_p, c_void_p, c_uint32),
+        CFUNCTYPE(c_void_p, c_void_p, c_void_p, c_ulonglong),
         ((1,"db"), (1,"scope"), (1,"scopemask"))),
     "ucis_ScopeScan" : (
         CFUNCTYPE(c_void_p, c_void_p, c_void_p),
-- 
2.43.0


From 95a0af489b3ce0c82c6f802b663b2b506397a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:27 +0000
Subject: [PATCH 31/33] fix: do not overwrite goals when reading a native
 database

---
 src/ucis/lib/lib_scope.py          | 6 ++++--
 src/ucis/lib/lib_scope_iterator.py | 2 +-
 src/ucis/lib/lib_ucis.py           | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index 028a540..42e9f22 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -44,9 +44,11 @@ from ucis.toggle_type_t import ToggleTypeT
 
 class LibScope(LibObj, Scope):
     
-    def __init__(self, db, obj):
+    def __init__(self, db, obj, existing=False):
         LibObj.__init__(self, db, obj)
-        Scope.__init__(self)
+        # Only a scope that was just created gets the default goal
+        if not existing:
+            Scope.__init__(self)
         logging.debug("LibScope::init - db=" + str(self.db) + " " + str(self.obj))
         
     def getGoal(self)->int:
diff --git a/src/ucis/lib/lib_scope_iterator.py b/src/ucis/lib/lib_scope_iterator.py
index bb5f439..bc3d540 100644
--- a/src/ucis/lib/lib_scope_iterator.py
+++ b/src/ucis/lib/lib_scope_iterator.py
@@ -23,6 +23,6 @@ class LibScopeIterator(object):
             get_lib().ucis_FreeIterator(self.db, self.iter)
             raise StopIteration
         
-        return LibScope(self.db, next)
+        return LibScope(self.db, next, existing=True)
         
         
\ No newline at end of file
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 7da1151..f4f9550 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -38,6 +38,7 @@ from ucis.ucis import UCIS
 class LibUCIS(LibScope,UCIS):
     
     def __init__(self, file : str=None, db=None):
+        existing = file is not None or db is not None
         if db is None:
             db = get_lib().ucis_Open(
                 str.encode(file) if file is not None else None)
@@ -47,7 +48,7 @@ class LibUCIS(LibScope,UCIS):
                     raise Exception("Error: failed to open UCIS file \"" + file + "\"")
                 else:
                     raise Exception("Error: failed to create UCIS DB")
-        super().__init__(db, None)
+        super().__init__(db, None, existing)
         
     def isModified(self):
         return get_lib().ucis_GetIntProperty(self.db, self.db, -1, IntProperty.IS_MODIFIED) == 1
-- 
2.43.0


From c3e1eaef7bc4ee3756a949e2cb706c2f38e8abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:48 +0000
Subject: [PATCH 32/33] fix: return the file name of a native file handle as a
 string

---
 src/ucis/lib/lib_file_handle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_file_handle.py b/src/ucis/lib/lib_file_handle.py
index 36a5b06..362281d 100644
--- a/src/ucis/lib/lib_file_handle.py
+++ b/src/ucis/lib/lib_file_handle.py
@@ -32,4 +32,6 @@ class LibFileHandle(FileHandle):
         self.fh = fh
         
     def getFileName(self)->str:
-        return get_lib().ucis_GetFileName(self.db, self.fh)
\ No newline at end of file
+        name = get_lib().ucis_GetFileName(self.db, self.fh)
+        
+        return None if name is None else name.decode()
-- 
2.43.0


From fc50c9fa9ea5500a9bc1e2a63a11e8a80498c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:41 +0000
Subject: [PATCH 33/33] fix: merged design instances keep the weight of their
 source

---
 src/ucis/merge/db_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 9cfbc4d..966805e 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -68,7 +68,7 @@ class DbMerger(object):
             dst_iscope = self.dst_db.createInstance(
                 src_iscope.getScopeName(),
                 src_iscope.getSourceInfo(),
-                1, # weight
+                src_iscope.getWeight(), # weight
                 UCIS_OTHER, # query SourceType
                 UCIS_INSTANCE,
                 dst_du,
-- 
2.43.0

