From 487def6083ba9da305f1db3e5f8e24dc91f900f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:45 +0000
Subject: [PATCH 01/35] fix: report crosses with their own weight and at_least
 threshold

---
 src/ucis/report/coverage_report_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 0a01b93..c39e423 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -133,6 +133,7 @@ class CoverageReportBuilder(object):
 
     def build_cross(self, cr_n : Cross):
         cr_r = CoverageReport.Cross(cr_n.getScopeName())
+        cr_r.weight = cr_n.getWeight()
         
         # Read in bins
         num_hit = 0
@@ -145,7 +146,7 @@ class CoverageReportBuilder(object):
                 
             cr_r.bins.append(CoverageReport.CoverBin(
                     ci_n.getName(),
-                    cvg_data.goal,
+                    cvg_data.at_least,
                     cvg_data.data))
 
             total += 1
-- 
2.43.0


From 7475fa222fd1c678f6f53374d932547cf23c2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:45 +0000
Subject: [PATCH 02/35] fix: compute overall coverage across all instances and
 tolerate zero total weight

---
 src/ucis/report/coverage_report_builder.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index c39e423..6d81ed3 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -35,22 +35,27 @@ class CoverageReportBuilder(object):
         for iscope in self.db.scopes(ScopeTypeT.INSTANCE):
             self.build_covergroups(iscope)
             
+        # Overall coverage is the weighted mean across all covergroups
+        coverage = 0.0
+        div = 0
+        for cg in self.report.covergroups:
+            if cg.weight > 0:
+                coverage += cg.coverage * cg.weight
+                div += cg.weight
+                
+        if div > 0: coverage /= div
+        
+        self.report.coverage = coverage
+            
         return self.report
             
 
     def build_covergroups(self, iscope):
         
-        coverage = 0.0
-        div = 0
-        
         for cg_t in iscope.scopes(ScopeTypeT.COVERGROUP):
             cg = self.build_covergroup(cg_t)
-            if cg.weight > 0:
-                coverage += cg.coverage * cg.weight
-            div += cg.weight
             self.report.covergroups.append(cg)
             self.report.covergroup_m[cg.instname] = cg
-        self.report.coverage = coverage/div
             
     def build_covergroup(self, cg_n)->CoverageReport.Covergroup:
         cg_r = CoverageReport.Covergroup(
-- 
2.43.0


From 8d92d6fd4bf7654b1fcab508a521369c6f8c4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:45 +0000
Subject: [PATCH 03/35] fix: populate the name-lookup maps of report
 covergroups

---
 src/ucis/report/coverage_report_builder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 6d81ed3..967f9aa 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -65,13 +65,17 @@ class CoverageReportBuilder(object):
         cg_r.weight = cg_n.getWeight()
         
         for cp_in in cg_n.scopes(ScopeTypeT.COVERPOINT):
-            cg_r.coverpoints.append(self.build_coverpoint(cp_in))
+            cg_r.add_coverpoint(self.build_coverpoint(cp_in))
             
         for cr_in in cg_n.scopes(ScopeTypeT.CROSS):
-            cg_r.crosses.append(self.build_cross(cr_in))
+            cr = self.build_cross(cr_in)
+            cg_r.crosses.append(cr)
+            cg_r.cross_m[cr.name] = cr
 
         for cg_in in cg_n.scopes(ScopeTypeT.COVERINSTANCE):
-            cg_r.covergroups.append(self.build_covergroup(cg_in))
+            cg_i = self.build_covergroup(cg_in)
+            cg_r.covergroups.append(cg_i)
+            cg_r.covergroup_m[cg_i.instname] = cg_i
             
         # Determine the covergroup coverage
         coverage = 0.0
-- 
2.43.0


From 6737c95a0c85348b8dcc4911742c25e65abadc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:40 +0000
Subject: [PATCH 04/35] fix: keep the instance weight when merging

---
 src/ucis/merge/db_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 1b9ee9b..f549dd3 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -68,7 +68,7 @@ class DbMerger(object):
             dst_iscope = self.dst_db.createInstance(
                 src_iscope.getScopeName(),
                 src_iscope.getSourceInfo(),
-                1, # weight
+                src_iscope.getWeight(), # weight
                 UCIS_OTHER, # query SourceType
                 UCIS_INSTANCE,
                 dst_du,
-- 
2.43.0


From 2782562652042d25254d9a6149a462921775e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:13 +0000
Subject: [PATCH 05/35] fix: JSON report no longer fails on covergroups with
 crosses

---
 src/ucis/report/format_rpt_json.py | 4 +---
 src/ucis/schema/covreport.json     | 5 +++++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index c16acbf..362371e 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -131,9 +131,7 @@ class FormatRptJson(FormatIfRpt):
         
         cr_j = self._ns.Cross()
         cr_j.name = cr.name
-        cr_j.weight = cr.weight
-        
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        cr_j.coverage = cr.coverage
         
         if self.details:
             if cr.bins is not None:
diff --git a/src/ucis/schema/covreport.json b/src/ucis/schema/covreport.json
index 756c4e1..58e0e1a 100644
--- a/src/ucis/schema/covreport.json
+++ b/src/ucis/schema/covreport.json
@@ -42,6 +42,11 @@
 					"type": "array",
 					"items": { "$ref": "#/defs/coverpointType" }
 				},
+				"crosses": {
+					"description": "List of cross coverpoints",
+					"type": "array",
+					"items": { "$ref": "#/defs/crossType" }
+				},
 				"covergroups": {
 					"description": "List of instance covergroups",
 					"type": "array",
-- 
2.43.0


From 73aa28a4e624a49df4ebc4eb293242fc3786cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:13 +0000
Subject: [PATCH 06/35] fix: JSON report carries coverpoint names and bin goals

---
 src/ucis/report/format_rpt_json.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index 362371e..9db9511 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -100,6 +100,7 @@ class FormatRptJson(FormatIfRpt):
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
         
         cp_j = self._ns.Coverpoint()
+        cp_j.name = cp.name
         cp_j.coverage = cp.coverage
         
         if self.details:
@@ -108,6 +109,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.bins.append(b_j)
             if cp.ignore_bins is not None and len(cp.ignore_bins) > 0:
@@ -115,6 +117,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.ignore_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.ignorebins.append(b_j)
             if cp.illegal_bins is not None and len(cp.illegal_bins) > 0:
@@ -122,6 +125,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.illegal_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.illegalbins.append(b_j)
 
@@ -139,6 +143,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cr.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cr_j.bins.append(b_j)
 
-- 
2.43.0


From 55edae97af578539a2d31917ecc8b8310ed52373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:00 +0000
Subject: [PATCH 07/35] fix: record and interpret the weight and at_least
 options in XML

The XML interchange documentation states that both options are written
and read, but the writer emitted empty options and the reader assumed 1,
so a database read back from XML reported different coverage.
---
 src/ucis/xml/xml_reader.py | 51 ++++++++++++++++++++++----------------
 src/ucis/xml/xml_writer.py | 12 +++++++--
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index c51da9a..7626007 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -181,7 +181,7 @@ class XmlReader():
             cg_typescope = inst_scope.createCovergroup(
                 cg_typename,
                 None,
-                1,
+                int(self.getAttr(cg, "weight", "1")),
                 UCIS_OTHER)
 
             # Process all instances of a given covergroup type
@@ -201,7 +201,7 @@ class XmlReader():
             cg_i = cg_t.createCoverInstance(
                 cg_i_name, 
                 srcinfo,
-                1,
+                self.getOptionInt(cg_e, "weight"),
                 UCIS_OTHER)
 
             # Build up a map of coverpoint name/inst-handle refs
@@ -216,7 +216,7 @@ class XmlReader():
                     cp_t = cg_t.createCoverpoint(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOptionInt(cp_e, "weight"),
                         UCIS_OTHER)
 
                     # Tuple of coverpoint type and map between
@@ -249,7 +249,7 @@ class XmlReader():
                     cr_t = cg_t.createCross(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOptionInt(cr_e, "weight"),
                         UCIS_OTHER,
                         cp_l)
 
@@ -280,15 +280,16 @@ class XmlReader():
         cp = cg_i.createCoverpoint(
             self.getAttr(cp_e, "name", "<unknown>"),
             srcinfo,
-            1, # weight
+            self.getOptionInt(cp_e, "weight"),
             UCIS_OTHER)
+        at_least = self.getOptionInt(cp_e, "at_least")
         
         for cpBin in cp_e.iter("coverpointBin"):
-            self.readCoverpointBin(cpBin, cp, cp_type_i)
+            self.readCoverpointBin(cpBin, cp, cp_type_i, at_least)
             
         return cp
             
-    def readCoverpointBin(self, cpBin : Element, cp, cp_type_i):
+    def readCoverpointBin(self, cpBin : Element, cp, cp_type_i, at_least):
         srcinfo = None
 
         seq = next(cpBin.iter("sequence"),None)
@@ -317,15 +318,15 @@ class XmlReader():
         cp_bin_count = self.getAttrInt(contents, "coverageCount")
 
         if cp_bin_name not in cp_type_i[1].keys():
-            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count)
+            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count, at_least)
         else:
             entry = cp_type_i[1][cp_bin_name]
-            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count)
+            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count, entry[2])
         
         cp.createBin(
             cp_bin_name,
             srcinfo,
-            1,
+            at_least,
             cp_bin_count,
             self.getAttr(cpBin, "name", "default"),
             kind)
@@ -333,11 +334,11 @@ class XmlReader():
     def populateCoverpointType(self, cp_t, cp_bin_m):
         srcinfo = None
 
-        for bin_name,(kind,count) in cp_bin_m.items():
+        for bin_name,(kind,count,at_least) in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-                1,
+                at_least,
                 count,
                 bin_name,
                 kind)
@@ -359,29 +360,29 @@ class XmlReader():
         cr = cg_i.createCross(
             name,
             srcinfo,
-            1, # weight
+            self.getOptionInt(cr_e, "weight"),
             UCIS_OTHER,
             cp_l)
+        at_least = self.getOptionInt(cr_e, "at_least")
         
         for crb_e in cr_e.iter("crossBin"):
-            self.readCrossBin(crb_e, cr, cr_type_i)
+            self.readCrossBin(crb_e, cr, cr_type_i, at_least)
         
         return cr
 
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-        for bin_name,count in cr_bin_m.items():
-            cr_t.createBin
+        for bin_name,(count,at_least) in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
-                1, # weight
+                at_least,
                 count,
                 "") # TODO:
         pass
     
-    def readCrossBin(self, crb_e, cr, cr_type_i):
+    def readCrossBin(self, crb_e, cr, cr_type_i, at_least):
         name = self.getAttr(crb_e, "name", "default")
         srcinfo = None
         contentsN = next(crb_e.iter("contents"))
@@ -389,14 +390,15 @@ class XmlReader():
         count = self.getAttrInt(contentsN, "coverageCount")
 
         if name in cr_type_i[1].keys():
-            cr_type_i[1][name] += count
+            entry = cr_type_i[1][name]
+            cr_type_i[1][name] = (entry[0] + count, entry[1])
         else:
-            cr_type_i[1][name] = count
+            cr_type_i[1][name] = (count, at_least)
 
         cr.createBin(
             name,
             srcinfo,
-            1, # weight
+            at_least,
             count,
             "") # TODO:
 
@@ -451,6 +453,13 @@ class XmlReader():
             
         return scope
     
+    def getOptionInt(self, e, name, default=1):
+        """Value of an integer attribute of the 'options' section of 'e'"""
+        options = e.find("options")
+        if options is None:
+            return default
+        return int(self.getAttr(options, name, default))
+    
     def getAttrDateTime(self, e, name):
         """Converts ISO time used by XML to the YYYYMMDDHHMMSS format used by the library"""
         val = e.get(name)
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 722670a..f0b3c78 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -172,7 +172,7 @@ class XmlWriter():
     def write_covergroups(self, inst, scope):
         for cg in scope.scopes(ScopeTypeT.COVERGROUP):
             cgElem = self.mkElem(inst, "covergroupCoverage")
-#            self.setAttr(cgElem, "weight", str(scope.getWeight()))
+            self.setAttr(cgElem, "weight", str(cg.getWeight()))
 
             inst_it = cg.scopes(ScopeTypeT.COVERINSTANCE)
             
@@ -289,7 +289,15 @@ class XmlWriter():
             
     
     def write_options(self, parent, opts_item):
-        self.mkElem(parent, "options")
+        optsElem = self.mkElem(parent, "options")
+        self.setAttr(optsElem, "weight", str(opts_item.getWeight()))
+
+        # Coverpoints and crosses hold the hit threshold in their bins
+        for cov_bin in opts_item.coverItems(
+            CoverTypeT.CVGBIN|CoverTypeT.IGNOREBIN|CoverTypeT.ILLEGALBIN):
+            self.setAttr(optsElem, "at_least", 
+                         str(cov_bin.getCoverData().at_least))
+            break
         
 
     def write_statement_id(self, stmt_id : StatementId, p, name="id"):
-- 
2.43.0


From 46b9ed46b12224ae7ceedeb79b5c6b967aa85e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:48 +0000
Subject: [PATCH 08/35] fix: keep the kind of cross bins in XML

Ignore and illegal cross bins were written as ordinary bins and so
counted as coverage once read back.
---
 src/ucis/xml/xml_reader.py | 27 ++++++++++++++++++++-------
 src/ucis/xml/xml_writer.py |  7 ++++++-
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 7626007..bf63b93 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -373,13 +373,14 @@ class XmlReader():
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-        for bin_name,(count,at_least) in cr_bin_m.items():
+        for (bin_name,kind),(count,at_least) in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
                 at_least,
                 count,
-                "") # TODO:
+                "", # TODO:
+                kind)
         pass
     
     def readCrossBin(self, crb_e, cr, cr_type_i, at_least):
@@ -389,18 +390,30 @@ class XmlReader():
 
         count = self.getAttrInt(contentsN, "coverageCount")
 
-        if name in cr_type_i[1].keys():
-            entry = cr_type_i[1][name]
-            cr_type_i[1][name] = (entry[0] + count, entry[1])
+        # The schema doesn't restrict the cross-bin type. Only
+        # 'ignore' and 'illegal' are significant
+        kind_a = self.getAttr(crb_e, "type", "default")
+        kind = UCIS_CVGBIN
+
+        if kind_a == "ignore":
+            kind = UCIS_IGNOREBIN
+        elif kind_a == "illegal":
+            kind = UCIS_ILLEGALBIN
+
+        key = (name, kind)
+        if key in cr_type_i[1].keys():
+            entry = cr_type_i[1][key]
+            cr_type_i[1][key] = (entry[0] + count, entry[1])
         else:
-            cr_type_i[1][name] = (count, at_least)
+            cr_type_i[1][key] = (count, at_least)
 
         cr.createBin(
             name,
             srcinfo,
             at_least,
             count,
-            "") # TODO:
+            "", # TODO:
+            kind)
 
         
 
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index f0b3c78..253536d 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -279,7 +279,12 @@ class XmlWriter():
             crBinElem = self.mkElem(crossElem, "crossBin")
             self.setAttr(crBinElem, "name", cr_bin.getName())
             self.setAttr(crBinElem, "key", "0")
-            self.setAttr(crBinElem, "type", "default") # TOOD: illegal, ignore
+            if cr_bin.data.type == CoverTypeT.IGNOREBIN:
+                self.setAttr(crBinElem, "type", "ignore")
+            elif cr_bin.data.type == CoverTypeT.ILLEGALBIN:
+                self.setAttr(crBinElem, "type", "illegal")
+            else:
+                self.setAttr(crBinElem, "type", "default")
             
             index = self.mkElem(crBinElem, "index")
             index.text = "-1" # Note: this is a meaningless value
-- 
2.43.0


From a971debff5f5f8f1955d7bf9ed88104d8c37896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:50 +0000
Subject: [PATCH 09/35] fix: XML reader keeps type bins of different kinds
 apart

An ignore or illegal bin sharing the name of an ordinary bin had its
count added to the ordinary bin of the reconstructed type coverpoint.
---
 src/ucis/xml/xml_reader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index bf63b93..6d3e0e2 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -317,11 +317,13 @@ class XmlReader():
         cp_bin_name = self.getAttr(cpBin, "name", "<unknown>")
         cp_bin_count = self.getAttrInt(contents, "coverageCount")
 
-        if cp_bin_name not in cp_type_i[1].keys():
-            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count, at_least)
+        # Bins of different kinds are distinct, even if the names are the same
+        key = (cp_bin_name, kind)
+        if key not in cp_type_i[1].keys():
+            cp_type_i[1][key] = (cp_bin_count, at_least)
         else:
-            entry = cp_type_i[1][cp_bin_name]
-            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count, entry[2])
+            entry = cp_type_i[1][key]
+            cp_type_i[1][key] = (entry[0] + cp_bin_count, entry[1])
         
         cp.createBin(
             cp_bin_name,
@@ -334,7 +336,7 @@ class XmlReader():
     def populateCoverpointType(self, cp_t, cp_bin_m):
         srcinfo = None
 
-        for bin_name,(kind,count,at_least) in cp_bin_m.items():
+        for (bin_name,kind),(count,at_least) in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-- 
2.43.0


From 509dee6217652ec5819beecc66b8bf13306df245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 10/35] fix: XML reader starts each read with empty scope maps

Reading a second file with the same reader put its coverage into the
database returned for the first.
---
 src/ucis/xml/xml_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 6d3e0e2..838b44c 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -58,6 +58,9 @@ class XmlReader():
         tree = etree.parse(file)
         root = tree.getroot()
         self.db = MemUCIS()
+        self.file_m = {}
+        self.module_scope_m = {}
+        self.inst_scope_m = {}
         
         for elem in root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
-- 
2.43.0


From 0606d62103a6de8db84cc39859867e736c521a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:35 +0000
Subject: [PATCH 11/35] fix: failed tests are no longer recorded as passing in
 XML

Every TestStatusT value is non-zero, so testStatus was always written as
true. The reader in turn stored a bool instead of a TestStatusT.
---
 src/ucis/xml/xml_reader.py | 9 +++++++--
 src/ucis/xml/xml_writer.py | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 838b44c..5abeb0b 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -37,6 +37,7 @@ from ucis.mem.mem_file_handle import MemFileHandle
 from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 from ucis.ucis import UCIS
 from ucis.xml import validate_ucis_xml
 
@@ -102,7 +103,10 @@ class XmlReader():
         kind = self.getAttr(histN, "kind", None)
         
         ret = self.db.createHistoryNode(parent, logicalname, physicalname, kind)
-        ret.setTestStatus(self.getAttrBool(histN, "testStatus"))
+        # The interchange format only records pass/fail
+        ret.setTestStatus(TestStatusT.OK 
+                          if self.getAttrBool(histN, "testStatus") 
+                          else TestStatusT.ERROR)
         self.setFloatIfEx(histN, ret.setSimTime, "simtime")
         self.setIfEx(histN, ret.setTimeUnit, "timeunit")
         self.setIfEx(histN, ret.setRunCwd, "runCwd")
@@ -491,7 +495,8 @@ class XmlReader():
             return default
         
     def getAttrBool(self, e, name):
-        if e.attrib[name] == "true":
+        # xsd:boolean allows both spellings
+        if e.attrib[name] in ("true", "1"):
             return True
         else:
             return False
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 253536d..d0ef760 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -33,6 +33,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.scope import Scope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 
 from lxml import etree as et
 from lxml.etree import QName, tounicode, SubElement
@@ -108,7 +109,8 @@ class XmlWriter():
             histN.set("logicalName", h.getLogicalName())
             self.setIfNonNull(histN, "physicalName", h.getPhysicalName())
             self.setIfNonNull(histN, "kind", h.getKind())
-            self.setAttrBool(histN, "testStatus", h.getTestStatus())
+            self.setAttrBool(histN, "testStatus", 
+                             h.getTestStatus() == TestStatusT.OK)
             self.setIfNonNeg(histN, "simtime", h.getSimTime())
             self.setIfNonNull(histN, "timeunit", h.getTimeUnit())
             self.setIfNonNull(histN, "runCwd", h.getRunCwd())
-- 
2.43.0


From 0379ba772e44ce72b8cb10ad010f3a3156f881be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:57 +0000
Subject: [PATCH 12/35] fix: history nodes read from XML can be found by their
 kind

The reader left the kind as text, so historyNodes(TEST) and
historyNodes(MERGE) were empty for a database read from XML.
---
 src/ucis/xml/xml_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 5abeb0b..2a8b176 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -33,6 +33,7 @@ from ucis import UCIS_ENABLED_STMT, UCIS_ENABLED_BRANCH, UCIS_ENABLED_COND, \
     UCIS_ENABLED_EXPR, UCIS_ENABLED_FSM, UCIS_ENABLED_TOGGLE, UCIS_INST_ONCE, \
     UCIS_SCOPE_UNDER_DU, UCIS_DU_MODULE, UCIS_OTHER, du_scope, UCIS_INSTANCE,\
     UCIS_CVGBIN, UCIS_IGNOREBIN, UCIS_ILLEGALBIN
+from ucis.history_node_kind import HistoryNodeKind
 from ucis.mem.mem_file_handle import MemFileHandle
 from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
@@ -101,6 +102,13 @@ class XmlReader():
         logicalname = histN.get("logicalName")
         physicalname = self.getAttr(histN, "physicalName", None)
         kind = self.getAttr(histN, "kind", None)
+
+        # The kind is free-form text in the interchange format. 
+        # Recover the UCIS kinds, so that the node can be found by kind
+        for k in HistoryNodeKind:
+            if kind in (str(int(k)), "HistoryNodeKind." + k.name):
+                kind = k
+                break
         
         ret = self.db.createHistoryNode(parent, logicalname, physicalname, kind)
         # The interchange format only records pass/fail
-- 
2.43.0


From e96c84dd9d8fc58f661856f564663da6f573667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:59 +0000
Subject: [PATCH 13/35] fix: default date of a history node uses the library's
 date format

Writing a database whose history node had no explicit date failed.
---
 src/ucis/mem/mem_history_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index 11fb9f9..f383082 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -48,7 +48,7 @@ class MemHistoryNode(HistoryNode):
         self.m_cmd = None
         self.m_args = None
         self.m_compulsory = None
-        self.m_date = int(datetime.timestamp(datetime.now()))
+        self.m_date = datetime.now().strftime("%Y%m%d%H%M%S")
         self.m_user_name = None
         self.m_cost = -1
         self.m_tool_category = "unknown"
-- 
2.43.0


From adc587c067e58068bf53b17731770e38a808dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:01 +0000
Subject: [PATCH 14/35] fix: TEST_STATUS property holds the test status

Setting any failing status stored False, and reading any status
other than False returned 1 (OK).
---
 src/ucis/mem/mem_history_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index f383082..f3fbcc7 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -67,7 +67,7 @@ class MemHistoryNode(HistoryNode):
         coverindex:int, 
         property:IntProperty)-> int:
         if property == IntProperty.TEST_STATUS:
-            return 1 if self.m_test_status else 0
+            return int(self.m_test_status)
         else:
             return super().getIntProperty(coverindex, property)
         
@@ -77,7 +77,7 @@ class MemHistoryNode(HistoryNode):
         property:IntProperty, 
         value:int):
         if property == IntProperty.TEST_STATUS:
-            self.m_test_status = (value==1)
+            self.m_test_status = TestStatusT(value)
         else:
             super().setIntProperty(coverindex, property, value)
     
-- 
2.43.0


From 9afe0d5f713514588e2a5779d0620e7dcc5799c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:37 +0000
Subject: [PATCH 15/35] fix: YAML reader keeps ignore and illegal bins apart in
 type coverage

The merged ignore and illegal bins were added to the list of ordinary
bins, so type coverage counted them.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index aba3b0f..acc3fdd 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -163,7 +163,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.ignorebins.append(t_b)
                                 t_b.count += b.count
                                 
                         if cp.illegalbins is not None:
@@ -180,7 +180,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.illegalbins.append(t_b)
                                 t_b.count += b.count
                         
                 if cg_i.crosses is not None:
-- 
2.43.0


From 8dc854453f69c2aab12cac82ae8e1cb30cf6f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:40 +0000
Subject: [PATCH 16/35] fix: YAML reader applies the atleast threshold to type
 coverage

The threshold was only used for instances; the type was reported as
covered from the first hit.
---
 src/ucis/yaml/yaml_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index acc3fdd..3ba34d7 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -126,6 +126,8 @@ class YamlReader(object):
                         if str(cp.name) not in cp_t_m.keys():
                             cp_t = self.cvg_ns.Coverpoint()
                             cp_t.name = str(cp.name)
+                            if cp.atleast is not None:
+                                cp_t.atleast = cp.atleast
                             cp_t_m[cp_t.name] = cp_t
                             cp_t_l.append(cp_t)
                         else:
@@ -191,6 +193,8 @@ class YamlReader(object):
                         if str(cr.name) not in cr_t_m.keys():
                             cr_t = self.cvg_ns.Cross()
                             cr_t.name = str(cr.name)
+                            if cr.atleast is not None:
+                                cr_t.atleast = cr.atleast
                             cr_t.coverpoints = []
                             for cr_cp in cr.coverpoints:
                                 cr_t.coverpoints.append(cr_cp)
-- 
2.43.0


From 86839e4d089cf9690cc34229506f3efbd8478a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:42 +0000
Subject: [PATCH 17/35] fix: YAML reader handles covergroups without instances

Such covergroups are valid, but failed after the warning. Also, each
instance's crosses now only see the coverpoints of that instance.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 3ba34d7..8fae72b 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -249,8 +249,8 @@ class YamlReader(object):
             self.record_cross(cg_t_scope, cp_l, cr)
 
         # Now, write out instances
-        cp_n_scope_m = {}
-        for i in cg_t.instances:
+        for i in cg_t.instances if cg_t.instances is not None else []:
+            cp_n_scope_m = {}
             cg_i_scope = cg_t_scope.createCoverInstance(
                 str(i.name),
                 cg_location,
-- 
2.43.0


From 859deb58a25d58380b404bf1239b8e4d8f1f70bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:44 +0000
Subject: [PATCH 18/35] fix: YAML reader accepts a cross without bins in the
 first instance

The bin list of the type cross was only created along with the cross, so
bins given by a later instance could not be added.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 8fae72b..e1ce92d 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -202,14 +202,14 @@ class YamlReader(object):
                             cr_t_m[str(cr.name)] = (cr_t, cr_t_bins_m)
                             cr_t_l.append(cr_t)
                             
-                            if cr.bins is not None:
-                                cr_t.bins = []
                         else:
                             cr_t = cr_t_m[str(cr.name)][0]
                             cr_t_bins_m = cr_t_m[str(cr.name)][1]
                             
                         # Now, proceed to aggregate bins
                         if cr.bins is not None:
+                            if cr_t.bins is None:
+                                cr_t.bins = []
                             for b in cr.bins:
                                 if b.name in cr_t_bins_m.keys():
                                     cr_t_bins_m[str(b.name)].count += b.count
-- 
2.43.0


From 3f77e2d012047242dedac6061e2a859c418f19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:35 +0000
Subject: [PATCH 19/35] fix: command line exits with a non-zero status when a
 command fails

---
 src/ucis/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/__main__.py b/src/ucis/__main__.py
index a87ca6a..628c5e8 100644
--- a/src/ucis/__main__.py
+++ b/src/ucis/__main__.py
@@ -88,6 +88,7 @@ def main():
     except Exception as e:
         traceback.print_exc()
         print("Error: %s" % "{0}".format(e))
+        sys.exit(1)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 84cf0e74078d67a8fc4d3a91229b7980cf9fe670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:06 +0000
Subject: [PATCH 20/35] fix: merging lost the data of scopes sharing a name
 within one source

---
 src/ucis/merge/db_merger.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index f549dd3..e399170 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -37,12 +37,9 @@ class DbMerger(object):
             for src_iscope in db.scopes(ScopeTypeT.INSTANCE):
                 name = src_iscope.getScopeName()
                 if not name in iscope_m.keys():
-                    scope_l = [None]*len(src_db_l)
-                    scope_l[i] = src_iscope
-                    iscope_m[name] = scope_l
+                    iscope_m[name] = []
                     iscope_name_l.append(name)
-                else:
-                    iscope_m[name][i] = src_iscope
+                iscope_m[name].append(src_iscope)
             
         for name in iscope_name_l:
             # We'll create the scope using the first src database
@@ -86,10 +83,9 @@ class DbMerger(object):
                 name = src_cg.getScopeName()
                 
                 if name not in cg_name_m.keys():
-                    scope_l = [None]*len(src_scopes)
-                    cg_name_m[name] = scope_l
+                    cg_name_m[name] = []
                     cg_name_l.append(name)
-                cg_name_m[name][i] = src_cg
+                cg_name_m[name].append(src_cg)
 
         for name in cg_name_l:                
             src_cg_l = list(filter(lambda cg: cg is not None, cg_name_m[name]))
@@ -121,9 +117,9 @@ class DbMerger(object):
                 name = src_cg_i.getScopeName()
                 
                 if name not in cg_i_m.keys():
-                    cg_i_m[name] = [None]*len(src_cg_l)
+                    cg_i_m[name] = []
                     cg_n_l.append(name)
-                cg_i_m[name][i] = src_cg_i
+                cg_i_m[name].append(src_cg_i)
                 
         for name in cg_n_l:
             src_cg_i_l = list(filter(lambda cg : cg is not None, cg_i_m[name]))
@@ -147,10 +143,9 @@ class DbMerger(object):
                 name = cp.getScopeName()
                 
                 if name not in cp_name_m.keys():
-                    scope_l = [None]*len(src_cg_l)
-                    cp_name_m[name] = scope_l
+                    cp_name_m[name] = []
                     cp_name_l.append(name)
-                cp_name_m[name][i] = cp
+                cp_name_m[name].append(cp)
                 
         for name in cp_name_l:
             src_cp_l = list(filter(lambda cp : cp is not None, cp_name_m[name]))
-- 
2.43.0


From 934852f66282e2b6c342b246be11ad4f0b560ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:23 +0000
Subject: [PATCH 21/35] fix: bins created from one CoverData object shared
 their counts

---
 src/ucis/mem/mem_cover_index.py | 4 +++-
 src/ucis/mem/mem_cover_item.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ucis/mem/mem_cover_index.py b/src/ucis/mem/mem_cover_index.py
index 7369519..1699ceb 100644
--- a/src/ucis/mem/mem_cover_index.py
+++ b/src/ucis/mem/mem_cover_index.py
@@ -3,6 +3,7 @@ Created on Mar 23, 2020
 
 @author: ballance
 '''
+import copy
 from ucis.cover_index import CoverIndex
 from ucis.cover_data import CoverData
 from ucis.source_info import SourceInfo
@@ -15,7 +16,8 @@ class MemCoverIndex(CoverIndex):
                  srcinfo : SourceInfo):
         CoverIndex.__init__(self)
         self.name = name
-        self.data = data
+        # The caller is free to use its data object for other bins
+        self.data = copy.copy(data)
         self.srcinfo = srcinfo
         
     def getName(self)->str:
diff --git a/src/ucis/mem/mem_cover_item.py b/src/ucis/mem/mem_cover_item.py
index f6ce22c..6743202 100644
--- a/src/ucis/mem/mem_cover_item.py
+++ b/src/ucis/mem/mem_cover_item.py
@@ -3,6 +3,7 @@ Created on Jan 12, 2020
 
 @author: ballance
 '''
+import copy
 from ucis.cover_item import CoverItem
 
 class MemCoverItem(CoverItem):
@@ -12,7 +13,7 @@ class MemCoverItem(CoverItem):
         self.m_stmt_idx = 0
         self.m_parent = parent
         self.m_name = name
-        self.m_data = data # TODO: copy
+        self.m_data = copy.copy(data)
         self.m_sourceinfo = sourceinfo # TODO: copy
 
     def getStmtIndex(self)->int:
-- 
2.43.0


From 38590cd15bb5e332d1c61f0bd16e219e9f57358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:23 +0000
Subject: [PATCH 22/35] fix: CoverData has a hit threshold by default, so that
 coverage can be reported

---
 src/ucis/cover_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/cover_data.py b/src/ucis/cover_data.py
index 62314ac..10af3a8 100644
--- a/src/ucis/cover_data.py
+++ b/src/ucis/cover_data.py
@@ -14,6 +14,7 @@ class CoverData():
         self.flags = flags
         # TODO: determine default data based on flags
         self.data = 0
+        self.at_least = 1 # hit threshold
         self.goal = 0 # if UCIS_HAS_GOAL
         self.weight = 0 # if UCIS_HAS_WEIGHT
         self.limit = 0 # if UCIS_HAS_LIMIT
-- 
2.43.0


From 5cf92e63a83a3812ceaf6a2e002f38570dd880ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:04 +0000
Subject: [PATCH 23/35] fix: reports ignored the covergroups of sub-instances

---
 src/ucis/report/coverage_report_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 967f9aa..9463501 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -57,6 +57,10 @@ class CoverageReportBuilder(object):
             self.report.covergroups.append(cg)
             self.report.covergroup_m[cg.instname] = cg
             
+        # Instances may contain sub-instances
+        for sub_iscope in iscope.scopes(ScopeTypeT.INSTANCE):
+            self.build_covergroups(sub_iscope)
+            
     def build_covergroup(self, cg_n)->CoverageReport.Covergroup:
         cg_r = CoverageReport.Covergroup(
             cg_n.getScopeName(),
-- 
2.43.0


From c3a6f40f0351e19f452ff95dc626c3bd11f71ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:04 +0000
Subject: [PATCH 24/35] fix: merging lost sub-instances

---
 src/ucis/merge/db_merger.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index e399170..40ac021 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -30,11 +30,15 @@ class DbMerger(object):
         
         self.dst_db = dst_db
         
+        self._merge_instances(dst_db, src_db_l)
+        
+    def _merge_instances(self, dst_scope, src_scope_l):
+        
         iscope_m : Dict[str, List[object]] = {}
         iscope_name_l = []
 
-        for i,db in enumerate(src_db_l):
-            for src_iscope in db.scopes(ScopeTypeT.INSTANCE):
+        for i,src_scope in enumerate(src_scope_l):
+            for src_iscope in src_scope.scopes(ScopeTypeT.INSTANCE):
                 name = src_iscope.getScopeName()
                 if not name in iscope_m.keys():
                     iscope_m[name] = []
@@ -62,7 +66,7 @@ class DbMerger(object):
                 | UCIS_ENABLED_FSM | UCIS_ENABLED_TOGGLE
                 | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU) # TODO: GetScopeFlags
                     
-            dst_iscope = self.dst_db.createInstance(
+            dst_iscope = dst_scope.createInstance(
                 src_iscope.getScopeName(),
                 src_iscope.getSourceInfo(),
                 src_iscope.getWeight(), # weight
@@ -73,6 +77,9 @@ class DbMerger(object):
         
             self._merge_covergroups(dst_iscope, src_scopes)
             
+            # Instances may contain sub-instances
+            self._merge_instances(dst_iscope, src_scopes)
+            
     def _merge_covergroups(self, dst_scope, src_scopes):
         
         cg_name_m : Dict[str,List] = {}
-- 
2.43.0


From b9a70a5483d1495d6efa0dbf90089e7165e9ba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:30 +0000
Subject: [PATCH 25/35] fix: XML lost sub-instances

---
 src/ucis/xml/xml_reader.py | 26 ++++++++++++++++++++------
 src/ucis/xml/xml_writer.py | 10 +++++++++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 2a8b176..bbfddfa 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -25,7 +25,7 @@ import logging
 from io import StringIO
 from logging import _srcfile
 import sys
-from typing import Dict
+from typing import Dict, Tuple
 from xml.dom.minidom import Element
 
 from lxml import etree
@@ -48,7 +48,8 @@ class XmlReader():
     def __init__(self):
         self.file_m : Dict[int,MemFileHandle] = {}
         self.module_scope_m : Dict[str, MemScope] = {}
-        self.inst_scope_m : Dict[str, MemScope] = {}
+        self.inst_scope_m : Dict[Tuple[MemScope,str], MemScope] = {}
+        self.inst_id_m : Dict[int, MemScope] = {}
         pass
 
     def loads(self, s) -> UCIS:
@@ -63,6 +64,7 @@ class XmlReader():
         self.file_m = {}
         self.module_scope_m = {}
         self.inst_scope_m = {}
+        self.inst_id_m = {}
         
         for elem in root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
@@ -152,12 +154,22 @@ class XmlReader():
             None, 
             UCIS_OTHER) # TODO: how do we determine source type?
         
+        # A sub-instance refers to its parent, which precedes it
+        parent = self.db
+        if "parentInstanceId" in instN.attrib:
+            parent = self.inst_id_m.get(
+                self.getAttrInt(instN, "parentInstanceId"), self.db)
+        
         inst_scope = self.getInstScope(
+            parent,
             name,
             srcinfo,
             UCIS_OTHER,
             type_scope)
         
+        if "instanceId" in instN.attrib:
+            self.inst_id_m[self.getAttrInt(instN, "instanceId")] = inst_scope
+        
         for cg in instN.iter("covergroupCoverage"):
             self.readCovergroups(cg, inst_scope, module_scope_name)
 
@@ -464,12 +476,14 @@ class XmlReader():
         return scope
     
     def getInstScope(self,
+                     parent,
                      name,
                      srcinfo,
                      source,
                      du_scope):
-        if name not in self.inst_scope_m.keys():
-            scope = self.db.createInstance(
+        key = (parent, name)
+        if key not in self.inst_scope_m.keys():
+            scope = parent.createInstance(
                 name,
                 srcinfo,
                 1,
@@ -477,9 +491,9 @@ class XmlReader():
                 UCIS_INSTANCE,
                 du_scope,
                 UCIS_INST_ONCE)
-            self.inst_scope_m[name] = scope
+            self.inst_scope_m[key] = scope
         else:
-            scope = self.inst_scope_m[name]
+            scope = self.inst_scope_m[key]
             
         return scope
     
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index d0ef760..84fdf30 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -75,6 +75,7 @@ class XmlWriter():
         # TODO: collect source files
         self.write_source_files()
         self.write_history_nodes()
+        self.inst_count = 0
         for s in self.db.scopes(ScopeTypeT.INSTANCE):
             self.write_instance_coverages(s)
 
@@ -161,15 +162,22 @@ class XmlWriter():
             
             # TODO: userAttr
             
-    def write_instance_coverages(self, s):
+    def write_instance_coverages(self, s, parent_id=None):
         # TODO: determine the du_scope associated with this instance
         inst = self.mkElem(self.root, "instanceCoverages")
         inst.set("name", s.getScopeName())
         inst.set("key", "0") # TODO:
+        inst_id = str(self.inst_count)
+        self.inst_count += 1
+        inst.set("instanceId", inst_id)
+        self.setIfNonNull(inst, "parentInstanceId", parent_id)
         self.addId(inst, None)
         
         self.write_covergroups(inst, s)
         
+        # The hierarchy is expressed by referring to the parent
+        for sub_s in s.scopes(ScopeTypeT.INSTANCE):
+            self.write_instance_coverages(sub_s, inst_id)
         
     def write_covergroups(self, inst, scope):
         for cg in scope.scopes(ScopeTypeT.COVERGROUP):
-- 
2.43.0


From 198f296f43c91052a88194d558ef1afb71e9118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:52 +0000
Subject: [PATCH 26/35] fix: read XML files in the encoding they declare, not
 in the locale's

---
 src/ucis/xml/__init__.py    | 2 +-
 src/ucis/xml/xml_factory.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/xml/__init__.py b/src/ucis/xml/__init__.py
index a5d41a2..15b7456 100644
--- a/src/ucis/xml/__init__.py
+++ b/src/ucis/xml/__init__.py
@@ -39,7 +39,7 @@ def validate_ucis_xml(file_or_filename):
     
     if type(file_or_filename) == str:
         logging.debug("open file")
-        fp = open(file_or_filename, "r")
+        fp = open(file_or_filename, "rb")
     else:
         fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 5f9f0d5..343a722 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -38,16 +38,16 @@ class XmlFactory():
             except ImportError:
                 logging.fatal("Cannot read gzip compressed files since module gzip is not available")
             else:
-                return gzip.open(file_path, 'rt')
+                return gzip.open(file_path, 'rb')
         elif magic0 == b'\x04\x22' and magic1 == b'\x4d\x18':
             try:
                 import lz4.frame
             except ImportError:
                 logging.fatal("Cannot read LZ4 compressed files since module lz4.frame is not available")
             else:
-                return lz4.frame.open(file_path, 'rt')
+                return lz4.frame.open(file_path, 'rb')
         else:
-            return open(file_path, "r")
+            return open(file_path, "rb")
 
     @staticmethod
     def read(file_or_filename) -> UCIS:
-- 
2.43.0


From 7b3c63145bac2a4c2c3bc36c5a85f004e0f4e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:52 +0000
Subject: [PATCH 27/35] fix: write XML files as UTF-8 whatever the locale's
 encoding is (they carry no encoding declaration)

---
 src/ucis/xml/xml_factory.py | 2 +-
 src/ucis/xml/xml_ucis.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 343a722..8394d09 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -84,7 +84,7 @@ class XmlFactory():
         writer = XmlWriter()
         
         if type(file_or_filename) == str:
-            fp = open(file_or_filename, "w")
+            fp = open(file_or_filename, "w", encoding="utf-8")
         else:
             fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 46eb10e..4bba212 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -8,5 +8,5 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
-        with open(file, "w") as fp:
+        with open(file, "w", encoding="utf-8") as fp:
             writer.write(fp, self)
-- 
2.43.0


From 4710c8fe25e41c7ae05a99a4b907d1aa237e3e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:12 +0000
Subject: [PATCH 28/35] fix: let the YAML library detect the encoding of YAML
 files (UTF-8 or UTF-16), independent of the locale

---
 src/ucis/yaml/db_format_if_yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/yaml/db_format_if_yaml.py b/src/ucis/yaml/db_format_if_yaml.py
index 1a3213d..1e6e7c5 100644
--- a/src/ucis/yaml/db_format_if_yaml.py
+++ b/src/ucis/yaml/db_format_if_yaml.py
@@ -18,7 +18,7 @@ class DbFormatIfYaml(FormatIfDb):
     def read(self, filename) -> 'UCIS':
         reader = YamlReader()
 
-        with open(filename, "r") as fp:
+        with open(filename, "rb") as fp:
             db = reader.load(fp)
 
         return db
-- 
2.43.0


From 4c7c57f5e085e71f8f8a1535c776e1be8b42aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:35 +0000
Subject: [PATCH 29/35] fix: XML documents whose dates have a time zone or a
 fraction of a second were refused

---
 src/ucis/xml/xml_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index bbfddfa..9f0f314 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -506,7 +506,9 @@ class XmlReader():
     
     def getAttrDateTime(self, e, name):
         """Converts ISO time used by XML to the YYYYMMDDHHMMSS format used by the library"""
-        val = e.get(name)
+        # xsd:dateTime allows a fraction of a second and a time zone, 
+        # which the library's format doesn't have
+        val = e.get(name).strip()[:19]
         dateVal = datetime.strptime(val,"%Y-%m-%dT%H:%M:%S")
         return dateVal.strftime("%Y%m%d%H%M%S")
     
-- 
2.43.0


From 0182ee6300c99bf5427864b5f18a360ab7aac4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:35 +0000
Subject: [PATCH 30/35] fix: a test status surrounded by white space was read
 as failed

---
 src/ucis/xml/xml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 9f0f314..2320cad 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -519,8 +519,8 @@ class XmlReader():
             return default
         
     def getAttrBool(self, e, name):
-        # xsd:boolean allows both spellings
-        if e.attrib[name] in ("true", "1"):
+        # xsd:boolean allows both spellings, and surrounding white space
+        if e.attrib[name].strip() in ("true", "1"):
             return True
         else:
             return False
-- 
2.43.0


From 92ef937416b2598f1c845f13cd5a53a391d78209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:35 +0000
Subject: [PATCH 31/35] fix: reading a cross failed when a comment stands next
 to the name of a coverpoint

---
 src/ucis/xml/xml_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 2320cad..c2f20b3 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -58,7 +58,9 @@ class XmlReader():
 
 
     def read(self, file) -> UCIS:
-        tree = etree.parse(file)
+        # Comments and processing instructions may split the text of an element
+        parser = etree.XMLParser(remove_comments=True, remove_pis=True)
+        tree = etree.parse(file, parser)
         root = tree.getroot()
         self.db = MemUCIS()
         self.file_m = {}
-- 
2.43.0


From f26a9e501738cb9751f33c7574859307b7648258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 32/35] fix: dates in a daylight-saving gap of the writer's
 time zone were changed by writing XML

---
 src/ucis/xml/xml_writer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 84fdf30..46882f7 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -339,8 +339,7 @@ class XmlWriter():
             e.set(name, "false")
 
     def setAttrDateTime(self, e, name, val):
-        val_i = time.mktime(datetime.strptime(val, "%Y%m%d%H%M%S").timetuple())
-        self.setAttr(e, name, datetime.fromtimestamp(val_i).isoformat())
+        self.setAttr(e, name, datetime.strptime(val, "%Y%m%d%H%M%S").isoformat())
             
     def setIfNonNull(self, n, attr, val):
         if val is not None:
-- 
2.43.0


From f226f4b298142e6f781446214ffaee4d4e5c3625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 33/35] fix: a database that cannot be represented in XML left
 an empty output file behind

---
 src/ucis/xml/xml_ucis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 4bba212..6eb06ee 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -1,4 +1,6 @@
 
+from io import StringIO
+
 from ucis.mem import MemUCIS
 from .xml_writer import XmlWriter
 
@@ -8,5 +10,9 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
+        # Only create the file if the database can be represented
+        text = StringIO()
+        writer.write(text, self)
+
         with open(file, "w", encoding="utf-8") as fp:
-            writer.write(fp, self)
+            fp.write(text.getvalue())
-- 
2.43.0


From b0866020a63175d0d0b22f7419622f729a33fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 34/35] fix: a cross changed when the caller used its list of
 coverpoints again

---
 src/ucis/mem/mem_cross.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_cross.py b/src/ucis/mem/mem_cross.py
index 9eada40..9163eb3 100644
--- a/src/ucis/mem/mem_cross.py
+++ b/src/ucis/mem/mem_cross.py
@@ -24,7 +24,7 @@ class MemCross(MemCoverpoint,Cross):
         self.m_type = UCIS_CROSS
         Cross.__init__(self)
         
-        self.coverpoints = coverpoints
+        self.coverpoints = list(coverpoints)
         
     def getNumCrossedCoverpoints(self)->int:
         return len(self.coverpoints)
-- 
2.43.0


From 3f9a0053d4fd9a11ed03c75e654a6485807208dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:46 +0000
Subject: [PATCH 35/35] fix: crosses of coverpoints whose names begin or end
 with white space could not be read back

---
 src/ucis/xml/xml_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index c2f20b3..e070a24 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -266,7 +266,7 @@ class XmlReader():
                 if cp_name not in cr_m.keys():
                     cp_l = []
                     for crossExpr in cr_e.iter("crossExpr"):
-                        cp_n = crossExpr.text.strip()
+                        cp_n = self.crossedName(crossExpr, cg_inst_cp_m)
                         logging.debug("cp_n=\"" + cp_n + "\"")
                         if cp_n in cp_m.keys():
                             cp_l.append(cp_m[cp_n][0])
@@ -374,12 +374,17 @@ class XmlReader():
                 bin_name,
                 kind)
 
+    def crossedName(self, crossExpr, cp_m):
+        """Name of the crossed coverpoint. White space belongs to the name only if a coverpoint has that name"""
+        name = crossExpr.text or ""
+        return name if name in cp_m.keys() else name.strip()
+
     def readCrossInst(self, cg_i, cr_e, cr_type_i, cp_m):
         name = self.getAttr(cr_e, "name", "<unknown>")
         
         cp_l = []
         for crossExpr in cr_e.iter("crossExpr"):
-            cp_n = crossExpr.text.strip()
+            cp_n = self.crossedName(crossExpr, cp_m)
             logging.debug("cp_n=\"" + cp_n + "\"")
             if cp_n in cp_m.keys():
                 cp_l.append(cp_m[cp_n])
-- 
2.43.0

