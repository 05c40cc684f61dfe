From 9955193a865b01e84c59a70b3fb03f9e64e71bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 01/46] fix: save to Excel files with current pandas and
 without losing the previous content on failure

pandas.ExcelWriter has no writable 'book' nor public 'save' any more, so that
every second append to a workbook failed; and an error, a full disk or a crash
while the workbook was rewritten in place destroyed the results saved before.
---
 src/divers/excel.py | 102 +++++++++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 38 deletions(-)

diff --git a/src/divers/excel.py b/src/divers/excel.py
index e4419a0..f488ff3 100644
--- a/src/divers/excel.py
+++ b/src/divers/excel.py
@@ -20,6 +20,8 @@ __author__ = 'Noemie Fedon'
 import sys
 import os
 import pathlib
+import shutil
+import tempfile
 import pandas as pd
 from openpyxl import load_workbook
 from openpyxl.styles import Alignment
@@ -28,14 +30,13 @@ def autofit_column_widths(filename):
     """
     autofits the column widths in an excel file
     """
-    writer = pd.ExcelWriter(filename, engine='openpyxl')
-    writer.book = load_workbook(filename)
-    sheetnames = writer.book.sheetnames
+    book = load_workbook(filename)
+    sheetnames = book.sheetnames
 
-#    for worksheet in writer.book[sheetnames]: # NO !
+#    for worksheet in book[sheetnames]: # NO !
 
     for ind_sheet in range(len(sheetnames)):
-        worksheet = writer.book[sheetnames[ind_sheet]]
+        worksheet = book[sheetnames[ind_sheet]]
 
         for col in worksheet.columns:
             max_length = 0
@@ -52,10 +53,36 @@ def autofit_column_widths(filename):
             adjusted_width = (max_length + 2)
             worksheet.column_dimensions[column].width = adjusted_width
 
-    writer.save()
+    replace_file(filename, book.save)
     return 0
 
 
+def replace_file(filename, write):
+    """
+    replaces the content of the file [filename] with what the function [write]
+    saves in the file whose name it is given. The old content stays in place
+    until the new content is complete.
+    """
+    filename = os.path.realpath(filename)
+    handle, name_temp = tempfile.mkstemp(
+        suffix=os.path.splitext(filename)[1], dir=os.path.dirname(filename))
+    try:
+        os.close(handle)
+        if os.path.exists(filename):
+            shutil.copyfile(filename, name_temp)
+            shutil.copymode(filename, name_temp)
+        else:
+            os.remove(name_temp)
+        write(name_temp)
+        with open(name_temp, 'r+b') as file:
+            os.fsync(file.fileno())
+        os.replace(name_temp, filename)
+    except BaseException:
+        if os.path.exists(name_temp):
+            os.remove(name_temp)
+        raise
+
+
 def delete_file(filename):
     """
     sends a warning if a file already exist and deletes the file is user
@@ -102,38 +129,37 @@ def append_df_to_excel(filename, dataf, sheet_name='Sheet1', startrow=None,
     # ignore [engine] parameter if it was passed
     if 'engine' in to_excel_kwargs:
         to_excel_kwargs.pop('engine')
-    writer = pd.ExcelWriter(filename, engine='openpyxl')
-    # Python 2.x: define [FileNotFoundError] exception if it doesn't exist
-    try:
-        FileNotFoundError
-    except NameError:
-        FileNotFoundError = IOError
-    try:
-        # try to open an existing workbook
-        writer.book = load_workbook(filename)
-        # get the last row in the existing Excel sheet
-        # if it was not specified explicitly
-        if startrow is None and sheet_name in writer.book.sheetnames:
-            startrow = writer.book[sheet_name].max_row
-        # truncate sheet
-        if truncate_sheet and sheet_name in writer.book.sheetnames:
-            # index of [sheet_name] sheet
-            idx = writer.book.sheetnames.index(sheet_name)
-            # remove [sheet_name]
-            writer.book.remove(writer.book.worksheets[idx])
-            # create an empty sheet [sheet_name] using old index
-            writer.book.create_sheet(sheet_name, idx)
-        # copy existing sheets
-        writer.sheets = {ws.title:ws for ws in writer.book.worksheets}
-    except FileNotFoundError:
-        # file does not exist yet, we will create it
-        pass
-    if startrow is None:
-        startrow = 0
-    # write out the new sheet
-    dataf.to_excel(writer, sheet_name, startrow=startrow, **to_excel_kwargs)
-    # save the workbook
-    writer.save()
+    def write(name):
+        "appends the DataFrame to the workbook of name [name]"
+        if os.path.exists(name):
+            # open the existing workbook
+            writer = pd.ExcelWriter(
+                name, engine='openpyxl', mode='a', if_sheet_exists='overlay')
+        else:
+            # file does not exist yet, we will create it
+            writer = pd.ExcelWriter(name, engine='openpyxl')
+        with writer:
+            row = startrow
+            if sheet_name in writer.book.sheetnames:
+                # get the last row in the existing Excel sheet
+                # if it was not specified explicitly
+                if row is None:
+                    row = writer.book[sheet_name].max_row
+                # truncate sheet
+                if truncate_sheet:
+                    # index of [sheet_name] sheet
+                    idx = writer.book.sheetnames.index(sheet_name)
+                    # remove [sheet_name]
+                    writer.book.remove(writer.book.worksheets[idx])
+                    # create an empty sheet [sheet_name] using old index
+                    writer.book.create_sheet(sheet_name, idx)
+            if row is None:
+                row = 0
+            # write out the new sheet
+            dataf.to_excel(
+                writer, sheet_name=sheet_name, startrow=row, **to_excel_kwargs)
+
+    replace_file(filename, write)
 
 if __name__ == "__main__":
     print('When two pages are saved successively, the first page is lost')
-- 
2.43.0


From 090c64862b109a24d2bf4ec3f97b37443d8b0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 02/46] fix: import the functions used by the membrane repair

---
 src/RELAY/repair_membrane_1_ipo.py    | 1 +
 src/RELAY/repair_membrane_1_no_ipo.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index aa88414..2bc48af 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -23,6 +23,7 @@ from src.RELAY.repair_10_bal import calc_mini_10
 from src.RELAY.repair_membrane_1_no_ipo import calc_excess_10
 from src.RELAY.repair_10_bal import calc_ind_plies
 from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_1
 from src.guidelines.ten_percent_rule import is_ten_percent_rule
 
 def repair_membrane_1_ipo(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 8094363..3bcdfb5 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -22,6 +22,9 @@ from src.LAYLA_V02.constraints import Constraints
 from src.divers.pretty_print import print_ss
 from src.CLA.lampam_functions import calc_lampam
 from src.RELAY.repair_10_bal import calc_mini_10
+from src.RELAY.repair_10_bal import calc_ind_plies
+from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_3
 from src.RELAY.repair_tools import RepairError
 
 def repair_membrane_1_no_ipo(
-- 
2.43.0


From 4e03ab7de3e942a30d5b80c2e4a9510778aba734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 03/46] fix: keep the design tables of the final selection
 consistent

np.copy of panels of different ply counts fails, and the stacking sequences and
ply counts per angle were not filtered along with the objective values.
---
 src/BELLA/optimiser_with_one_pdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index e8fd032..e576764 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -499,8 +499,6 @@ beam search with no solutions !
 # =============================================================================
 # select best result
 # =============================================================================
-    ss_bot_tab = np.copy(ss_final)
-
     if parameters.save_success_rate:
         to_keep = np.array([ind for ind in range(len(obj_constraints_tab))\
                             if obj_constraints_tab[ind] < 1e10])
@@ -510,6 +508,8 @@ beam search with no solutions !
             ss_final = [ss_final[ind] for ind in to_keep]
             sst_final = [sst_final[ind] for ind in to_keep]
             pdl_final = [pdl_final[ind] for ind in to_keep]
+            n_plies_per_angle_tab = [
+                n_plies_per_angle_tab[ind] for ind in to_keep]
             penalty_diso_final = [penalty_diso_final[ind] for ind in to_keep]
             penalty_contig_final = [
                 penalty_contig_final[ind] for ind in to_keep]
@@ -532,7 +532,7 @@ beam search with no solutions !
         return None
 
     index = np.argmin(obj_constraints_tab)
-    ss = ss_bot_tab[index]
+    ss = ss_final[index]
     lampam = lampam_tab[index]
     n_plies_per_angle = n_plies_per_angle_tab[index]
     obj_no_constraints = obj_no_constraints_tab[index]
-- 
2.43.0


From 362b1c045aca446c79568ea48d1e5de04f413dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 04/46] fix: keep the ply-drop layouts with the smallest
 spacing penalties

The best of the non-manufacturable layouts was replaced instead of the worst.
---
 src/BELLA/pdl_group.py | 2 +-
 src/BELLA/pdl_ini.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index d7f2f94..f12521e 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -250,7 +250,7 @@ def randomly_pdl_guide(
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_spacing_imperfect)
+                    indexx = np.argmax(p_spacing_imperfect)
                     pdl_imperfect[indexx] = new_pdl
                     p_spacing_imperfect[indexx] = p_spacing
             else:
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index a4b7142..122b56c 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -160,7 +160,7 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_pdls_imperfect)
+                    indexx = np.argmax(p_pdls_imperfect)
                     pdls_imperfect[indexx] = new_pdl
                     p_pdls_imperfect[indexx] = new_penalty_spacing
             else:
-- 
2.43.0


From 16016148b681634ec920997b2d3aafb551886ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 05/46] fix: do not repeat ply-drop layouts nor fail when too
 few are found in time

When the time limit is reached with fewer layouts than asked, the generation
failed with no non-manufacturable layout at hand, and otherwise padded the list
with copies of the first one.
---
 src/BELLA/optimiser.py   | 2 +-
 src/BELLA/pdl_group.py   | 4 +++-
 src/BELLA/pdl_ini.py     | 6 ++++--
 src/BELLA/save_result.py | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index b8d152e..40f12aa 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -104,7 +104,7 @@ def BELLA_optimiser(
 
     outer_step = 0
 
-    while outer_step < parameters.n_ini_ply_drops:
+    while outer_step < len(pdls_ini):
 
         ### step 3 and 4 of BELLA: ply angle optimisation + laminate repair
         print('---- Blending step 3 ----')
diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index f12521e..62eaec6 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -291,7 +291,9 @@ Too many ply drops between two adjacent panels.""")
 
 
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, n_pdl_max):
+        n_pdl = min(ind_perfect + ind_imperfect, n_pdl)
+        pdl_perfect = pdl_perfect[:n_pdl]
+        for ind in range(ind_perfect, n_pdl):
             indexx = np.argmin(p_spacing_imperfect)
             pdl_perfect[ind] = pdl_imperfect[indexx]
             p_spacing_imperfect[indexx] = 10e6
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 122b56c..24675ec 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -194,14 +194,16 @@ No conform ply drop layout can be generated.
 Too many ply drops between two adjacent panels.""")
 
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, parameters.n_ini_ply_drops):
+        n_pdls = min(ind_perfect + ind_imperfect, parameters.n_ini_ply_drops)
+        pdls_perfect = pdls_perfect[:n_pdls]
+        for ind in range(ind_perfect, n_pdls):
             indexx = np.argmin(p_pdls_imperfect)
             pdls_perfect[ind] = pdls_imperfect[indexx]
             p_pdls_imperfect[indexx] = 10e6
 
         print('    ' + str(ind_perfect) \
           + ' feasible intial ply-drop layouts generated.')
-        print('    ' + str(parameters.n_ini_ply_drops - ind_perfect) \
+        print('    ' + str(n_pdls - ind_perfect) \
           + ' infeasible intial ply-drop layouts generated.')
 
         return pdls_perfect
diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 5bb058a..66c149b 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -47,7 +47,7 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
         return 0
 
 
-    for ind in range(parameters.n_ini_ply_drops):
+    for ind in range(len(pdl)):
         table_res = pd.DataFrame()
         table_res = save_result_BELLA_one_pdl(
             table_res,
-- 
2.43.0


From e770fa22bfd232bb5c8bf59080fff620b04b8288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 06/46] fix: measure time limits with a clock that does not
 jump

Adjustments of the system clock stopped the search for ply-drop layouts at
once, or let it run far beyond its time limit.
---
 src/BELLA/optimiser.py | 4 ++--
 src/BELLA/pdl_group.py | 4 ++--
 src/BELLA/pdl_ini.py   | 6 ++----
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 40f12aa..433c017 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -47,7 +47,7 @@ def BELLA_optimiser(
     - pdls_ini: initial ply-drop layouts (opyional)
     """
     ### initialisation
-    t0 =time.time()
+    t0 = time.monotonic()
 
     delete_file(filename)
 
@@ -132,7 +132,7 @@ def BELLA_optimiser(
     results.obj_constraints = results.obj_constraints_tab[ind_mini]
     results.obj_no_constraints = results.obj_no_constraints_tab[ind_mini]
     results.ind_mini = ind_mini
-    results.time = time.time() - t0
+    results.time = time.monotonic() - t0
 
     # save data
     save_constraints_BELLA(filename, constraints)
diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index 62eaec6..015e4b7 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -117,7 +117,7 @@ def randomly_pdl_guide(
 
     ind_imperfect = 0
     ind_perfect = 0
-    t_ini = time.time()
+    t_ini = time.monotonic()
     elapsed_time = 0
 
 
@@ -220,7 +220,7 @@ def randomly_pdl_guide(
         # <class 'numpy.ndarray'>
 #        print('new_pdl', new_pdl)
 
-        elapsed_time = time.time() - t_ini
+        elapsed_time = time.monotonic() - t_ini
 
         # Store the new pdl if it is perfect (no violation of manufacturing
         # constraint) or if it is among the n_pdl best unmanufacturable
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 24675ec..cfdc54b 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -83,8 +83,6 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
     """
     creates ply drop layouts for a blended structure with no duplicates
     """
-    t_ini= time.time()
-
     pdls_perfect = np.zeros((
         parameters.n_ini_ply_drops,
         multipanel.reduced.n_panels,
@@ -98,7 +96,7 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
 
     ind_imperfect = 0
     ind_perfect = 0
-    t_ini = time.time()
+    t_ini = time.monotonic()
     elapsed_time = 0
 
 
@@ -129,7 +127,7 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
             constraints=constraints,
             on_blending_strip=True)
 
-        elapsed_time = time.time() - t_ini
+        elapsed_time = time.monotonic() - t_ini
 
         # Store the new pdl if it is perfect (no violation of manufacturing
         # constraint) or if it is among the parameters.n_ini_ply_drops best
-- 
2.43.0


From 69eeef8e32157e8f9eea18452561d03c3aa847ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 07/46] fix: choose the best design among the layouts that gave
 a design

Layouts without any design have an undefined objective value, which np.argmin
takes for the smallest one: a void design was returned as the best.
---
 src/BELLA/optimiser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 433c017..7f2bd7b 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -123,7 +123,10 @@ def BELLA_optimiser(
         outer_step += 1
 
     # To determine the best solution
-    ind_mini = np.argmin(results.obj_constraints_tab)
+    if np.isnan(results.obj_constraints_tab).all():
+        raise Exception("""
+No laminate design solution with any of the initial ply drop layouts""")
+    ind_mini = np.nanargmin(results.obj_constraints_tab)
 
     results.ss = results.ss_tab[ind_mini]
     results.sst = results.ss_tab_tab[ind_mini]
-- 
2.43.0


From fa6184142b3ac1bec4bc9043cd657245f8f8a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 08/46] fix: restore the group size limit when the panel
 division fails

---
 src/BELLA/optimiser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 7f2bd7b..73ff76c 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -82,8 +82,10 @@ def BELLA_optimiser(
     # division of the plies of the panels into one ply group
     group_size_max = parameters.group_size_max
     parameters.group_size_max = 10000
-    divide_panels(multipanel, parameters, constraints)
-    parameters.group_size_max = group_size_max
+    try:
+        divide_panels(multipanel, parameters, constraints)
+    finally:
+        parameters.group_size_max = group_size_max
 
     # initialisation of the results
     results = BELLA_Results(constraints, multipanel, parameters)
-- 
2.43.0


From da0b0c5cef3c1938ba3e505cf4522f85db237d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 09/46] fix: copy of the fibre orientations in the
 thin-to-thick repair

---
 src/RELAY/thin_to_thick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 70ae860..b6363bc 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -211,7 +211,7 @@ def repair_thin_to_thick(
                 # print('one_pd_index', one_pd_index)
 
                 ### branching for ply orientation of new ply
-                child_angle = np.copy(constraints.set_of_angles, int)
+                child_angle = np.copy(constraints.set_of_angles)
 
                 ### pruning for balance
                 if constraints.bal:
-- 
2.43.0


From 7500f8abcf5938ba27a255fddba194045350d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 10/46] fix: 10% rule penalties of lists of stacking sequences
 without 10% rule

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index bfe351f..5fcdef4 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -235,7 +235,7 @@ def calc_penalty_10_ss(ss, constraints, LPs=None, mp=False):
 
     if not mp:
         return 0
-    return np.zeros((ss.shape[0],))
+    return np.zeros((len(ss),))
 
 
 def calc_penalty_10_pc(n_plies_per_angle, constraints, cummul_areas=1):
-- 
2.43.0


From 8c423df0ef40c858a80c5374ca4ccd5f00e9e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 11/46] fix: use the middle ply in the ply counts of the 10%
 rule

---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 5fcdef4..2ad9516 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -139,7 +139,7 @@ def is_ten_percent_rule(
             percent_135 = 2 * (
                 sum(stack[:stack.size // 2] == -45) + ply_queue.count(-45))
             if stack.size % 2:
-                mid_ply_angle = stack[stack.size % 2]
+                mid_ply_angle = stack[stack.size // 2]
                 if mid_ply_angle == 0:
                     percent_0 += 1
                 if mid_ply_angle == 90:
-- 
2.43.0


From 844960cd5f70a7324b5a500981bd43b58e1fe93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 12/46] fix: aggregate the weightings of all the panels in the
 blending strip

The mapping from the panels to the blending strip was indexed with positions in
the blending strip, so that weightings went to wrong panels or were dropped.
---
 src/BELLA/reduced_multipanels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/reduced_multipanels.py b/src/BELLA/reduced_multipanels.py
index c5dfcf1..40b5d17 100644
--- a/src/BELLA/reduced_multipanels.py
+++ b/src/BELLA/reduced_multipanels.py
@@ -158,7 +158,7 @@ The panel ply counts are not compatible with guide-based blending (middle ply)""
         parameters are aggregated
         """
         self.actual_panel_weightings = np.zeros((self.n_panels,))
-        for ind_panel, panel in enumerate(self.panels):
+        for ind_panel, panel in enumerate(multipanel.panels):
             self.actual_panel_weightings[
                 self.ind_panels_guide[ind_panel]] += panel.weighting
 
-- 
2.43.0


From 9bda000ec8168bb74878fc27ec98b48c98583cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 13/46] fix: match repaired ply-drop layouts with their
 objectives and ply counts

The candidates are evaluated from last to first, and their evaluations were
stored in that order, hence associated with the wrong layouts in the search.
---
 src/RELAY/thick_to_thin.py | 10 +++++-----
 src/RELAY/thin_to_thick.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 78b66fb..b80b433 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -405,14 +405,14 @@ def repair_thick_to_thin(
 #                print('child_obj_constraints', child_obj_constraints)
 
                 ### saving
-                tab_child_n_plies_per_angle.append(child_n_plies_per_angle)
-                tab_child_lampam.append(child_lampam)
+                tab_child_n_plies_per_angle.insert(0, child_n_plies_per_angle)
+                tab_child_lampam.insert(0, child_lampam)
                 # tab_child_penalty_oopo.append(child_penalty_oopo)
-                tab_child_penalty_diso.append(child_penalty_diso)
+                tab_child_penalty_diso.insert(0, child_penalty_diso)
                 # tab_child_penalty_contig.append(child_penalty_contig)
                 # tab_child_penalty_10.append(child_penalty_10)
-                tab_child_obj_no_constraints.append(child_obj_no_constraints)
-                tab_child_obj_constraints.append(child_obj_constraints)
+                tab_child_obj_no_constraints.insert(0, child_obj_no_constraints)
+                tab_child_obj_constraints.insert(0, child_obj_constraints)
 
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index b6363bc..b6ecc8c 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -458,14 +458,14 @@ def repair_thin_to_thick(
 #                print('child_obj_constraints', child_obj_constraints)
 
                 ### saving
-                tab_child_n_plies_per_angle.append(child_n_plies_per_angle)
-                tab_child_lampam.append(child_lampam)
+                tab_child_n_plies_per_angle.insert(0, child_n_plies_per_angle)
+                tab_child_lampam.insert(0, child_lampam)
                 # tab_child_penalty_oopo.append(child_penalty_oopo)
 #                tab_child_penalty_diso.append(child_penalty_diso)
 #                tab_child_penalty_contig.append(child_penalty_contig)
 #                tab_child_penalty_10.append(child_penalty_10)
-                tab_child_obj_no_constraints.append(child_obj_no_constraints)
-                tab_child_obj_constraints.append(child_obj_constraints)
+                tab_child_obj_no_constraints.insert(0, child_obj_no_constraints)
+                tab_child_obj_constraints.insert(0, child_obj_constraints)
 
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
-- 
2.43.0


From 35427d34a135352b01064f40acc9c887e4991dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 14/46] fix: make the result checks of the optimiser effective

'abs(difference).all() < tolerance' and 'abs(difference > tolerance)' let almost
any difference through and rejected round-off differences.
---
 src/BELLA/optimiser_with_one_pdl.py | 6 +++---
 src/RELAY/thick_to_thin.py          | 4 ++--
 src/RELAY/thin_to_thick.py          | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index e576764..9688b8f 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -549,7 +549,7 @@ Wrong ply counts in the laminate.""")
     # test for the partial lamination parameters
     ss = list(ss)
     lampam_test = calc_lampam(ss, constraints)
-    if not abs(lampam - lampam_test).all() < 1e-13:
+    if not (abs(lampam - lampam_test) < 1e-13).all():
         print_lampam(lampam[0], lampam_test[0])
         print_ss(ss[0])
         raise Exception("""
@@ -563,7 +563,7 @@ Lamination parameters not matching the stacking sequences.""")
         mat=mat,
         obj_func_param=obj_func_param)
 
-    if abs(obj_no_constraints_test - obj_no_constraints > 1e-10).any():
+    if (abs(obj_no_constraints_test - obj_no_constraints) > 1e-10).any():
         print('obj_no_constraints_test', obj_no_constraints_test)
         print('obj_no_constraints', obj_no_constraints)
         raise Exception("""
@@ -613,7 +613,7 @@ Objective function value not matching the stacking sequences.""")
         coeff_10=obj_func_param.coeff_10,
         coeff_bal_ipo=obj_func_param.coeff_bal_ipo)
 
-    if abs(obj_constraints_test - obj_constraints > 1e-10).any():
+    if (abs(obj_constraints_test - obj_constraints) > 1e-10).any():
         print('obj_constraints_test', obj_constraints_test)
         print('obj_constraints', obj_constraints)
         pass
diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index b80b433..22821b7 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -635,8 +635,8 @@ def repair_thick_to_thin(
     ## test for the partial lamination parameters
     reduced_lampam_test = calc_lampam(
         reduced_ss[0: multipanel.reduced.ind_ref], constraints)
-    if not abs(reduced_lampam[0: multipanel.reduced.ind_ref] \
-               - reduced_lampam_test).all() < 1e-13:
+    if not (abs(reduced_lampam[0: multipanel.reduced.ind_ref] \
+                - reduced_lampam_test) < 1e-13).all():
         raise Exception("""
 beam search does not return group lamination parameters matching
 the group stacking sequences.""")
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index b6ecc8c..7c97b46 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -664,7 +664,7 @@ def repair_thin_to_thick(
 
     ## test for the partial lamination parameters
     reduced_lampam_test = calc_lampam(reduced_ss, constraints)
-    if not abs(reduced_lampam - reduced_lampam_test).all() < 1e-13:
+    if not (abs(reduced_lampam - reduced_lampam_test) < 1e-13).all():
         raise Exception("""
 beam search does not return group lamination parameters matching
 the group stacking sequences.""")
-- 
2.43.0


From a9df78ef75c6b27e32841d38693220baac8c597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 15/46] fix: skip the layouts whose designs cannot be repaired
 in all cases

Without save_success_rate, a layout with no repairable design aborted the whole
optimisation with an objective function mismatch.
---
 src/BELLA/optimiser_with_one_pdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index 9688b8f..271d5e6 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -527,7 +527,7 @@ beam search with no solutions !
         results.n_designs_repaired_unique = np.unique(
             sst_final, axis=0).shape[0]
 
-    if len(obj_constraints_tab) == 0:
+    if not (np.array(obj_constraints_tab) < 1e10).any():
         print('No laminate design solution with this initial ply drop layout')
         return None
 
-- 
2.43.0


From 2e4897a030ec64047ba750eb6793f2b510821763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 16/46] fix: name of the argument of internal_contig2

---
 src/BELLA/pruning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index b55f88d..4fda68b 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -207,7 +207,7 @@ def pruning_diso_contig_damtol(
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
                     if not internal_contig2(
-                            new_stack=np.hstack((
+                            stack=np.hstack((
                                 ss_before, child_ss[ind], ss_after)),
                             constraints=constraints):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-- 
2.43.0


From 1851ee6326135f4bc60158de2546c0a30e9a0f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 17/46] fix: save the designs, objectives and penalties of each
 ply-drop layout

---
 src/BELLA/save_result.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 66c149b..e4312ac 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -48,6 +48,8 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
 
 
     for ind in range(len(pdl)):
+        if np.isnan(output.obj_constraints_tab[ind]):
+            continue # no design with this ply drop layout
         table_res = pd.DataFrame()
         table_res = save_result_BELLA_one_pdl(
             table_res,
@@ -63,7 +65,7 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
             filename, table_res, 'Results', index=False, header=True)
     # to save best result
     table_res = pd.DataFrame()
-    table_res.loc[0, 'time (s)'] = output.time
+    table_res.loc[output.ind_mini, 'time (s)'] = output.time
     table_res = save_result_BELLA_one_pdl(
         table_res,
         multipanel,
@@ -72,7 +74,7 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
         obj_func_param,
         output,
         pdl[output.ind_mini],
-        0,
+        output.ind_mini,
         mat)
     append_df_to_excel(
         filename, table_res, 'Best Result', index=False, header=True)
@@ -113,7 +115,12 @@ def save_result_BELLA_one_pdl(
 
     table_res.loc[ind, 'penalty_spacing'] = output.penalty_spacing_tab[ind]
 
-    ss = output.ss
+    if pdl is None:
+        ss = output.ss
+        sst = output.sst
+    else:
+        ss = output.ss_tab[ind]
+        sst = output.ss_tab_tab[ind]
 
     norm_diso_contig = np.array(
         [panel.n_plies for panel in multipanel.panels])
@@ -158,16 +165,16 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'oopo: |lampam[11]| + |lampam[12]|'] \
         = abs(lampam[ind_p, 10]) + abs(lampam[ind_p, 11])
         table_res.loc[ind + ind_p, 'percentage_0_plies'] \
-        = sum(output.sst[ind_p] == 0) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 0) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_90_plies'] \
-        = sum(output.sst[ind_p] == 90) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 90) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+45_plies'] \
-        = sum(output.sst[ind_p] == 45) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 45) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_-45_plies'] \
-        = sum(output.sst[ind_p] == -45) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == -45) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+-45_plies'] \
-        = (sum(output.sst[ind_p] == 45) + sum(output.sst[ind_p] == -45)) \
-        / (output.sst[ind_p].size)
+        = (sum(sst[ind_p] == 45) + sum(sst[ind_p] == -45)) \
+        / (sst[ind_p].size)
 
         table_res.loc[ind + ind_p, 'penalty_diso'] = penalty_diso[ind_p]
         table_res.loc[ind + ind_p, 'penalty_contig'] = penalty_contig[ind_p]
@@ -180,7 +187,7 @@ def save_result_BELLA_one_pdl(
             table_res.loc[ind + ind_p, 'lambda buckling'] = buckling_factor(
                 lampam=lampam[ind_p],
                 mat=mat,
-                n_plies=output.ss[ind_p].size,
+                n_plies=ss[ind_p].size,
                 N_x=panel.N_x,
                 N_y=panel.N_y,
                 length_x=panel.length_x,
@@ -189,7 +196,7 @@ def save_result_BELLA_one_pdl(
 
         for angle in constraints.set_of_angles:
             table_res.loc[ind + ind_p, 'n_' + str(angle) + 'plies'] \
-            = sum(output.sst[ind_p] == angle)
+            = sum(sst[ind_p] == angle)
 
         for ind_lp in range(12):
             table_res.loc[
@@ -210,11 +217,11 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'gamma'] = abs(D_16/(( (D_11**3) * D_22 )**(1/4)))
         table_res.loc[ind + ind_p, 'delta'] = abs(D_26/(( (D_22**3) * D_11 )**(1/4)))
             
-        stack = ' '.join(np.array(output.sst[ind_p], dtype=str))
+        stack = ' '.join(np.array(sst[ind_p], dtype=str))
         table_res.loc[
             ind + ind_p, 'stacking sequences with ply drops included'] = stack
 
-        stack = ' '.join(np.array(output.ss[ind_p], dtype=str))
+        stack = ' '.join(np.array(ss[ind_p], dtype=str))
         table_res.loc[ind + ind_p, 'stacking sequences'] = stack
 
         if pdl is not None:
-- 
2.43.0


From 3bbeb78920011d59bf46089eb17ea726b8dd0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 18/46] fix: save the area and weight of the structure and the
 10% rule penalties of the panels

---
 FXI-results/format_restults_FXI_SST_1.py     | 2 +-
 FXI-results/format_restults_FXI_horseshoe.py | 2 +-
 src/BELLA/optimiser.py                       | 2 +-
 src/BELLA/save_set_up.py                     | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index 684af34..f2fcbfe 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -249,7 +249,7 @@ results.ss = ss
 save_constraints_BELLA(filename_res, constraints)
 save_materials(filename_res, materials)
 save_objective_function_BELLA(filename_res, obj_func_param)
-save_multipanel(filename_res, multipanel, obj_func_param, materials)
+save_multipanel(filename_res, multipanel, obj_func_param, mat=materials)
 save_result_BELLAs(filename_res, multipanel, constraints, None,
                    obj_func_param, None, results, materials, only_best=True)
 autofit_column_widths(filename_res)
\ No newline at end of file
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index bb2fa56..8c212ed 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -251,7 +251,7 @@ results.ss = ss
 save_constraints_BELLA(filename_res, constraints)
 save_materials(filename_res, materials)
 save_objective_function_BELLA(filename_res, obj_func_param)
-save_multipanel(filename_res, multipanel, obj_func_param, materials)
+save_multipanel(filename_res, multipanel, obj_func_param, mat=materials)
 save_result_BELLAs(filename_res, multipanel, constraints, None,
                    obj_func_param, None, results, materials, only_best=True)
 autofit_column_widths(filename_res)
\ No newline at end of file
diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 73ff76c..cd2a9d5 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -145,7 +145,7 @@ No laminate design solution with any of the initial ply drop layouts""")
         save_materials(filename, mat)
     save_parameters_BELLA(filename, parameters)
     save_objective_function_BELLA(filename, obj_func_param)
-    save_multipanel(filename, multipanel, obj_func_param, mat)
+    save_multipanel(filename, multipanel, obj_func_param, mat=mat)
 
     pdls = np.zeros((len(pdls_ini),
                      multipanel.n_panels,
diff --git a/src/BELLA/save_set_up.py b/src/BELLA/save_set_up.py
index ffcff80..ec4ab19 100644
--- a/src/BELLA/save_set_up.py
+++ b/src/BELLA/save_set_up.py
@@ -84,7 +84,7 @@ def save_multipanel(
     table_mp = pd.DataFrame()
     table_mp.loc[0, 'Number of panels'] = multipanel.n_panels
     table_mp.loc[0, 'Number of plies max'] = multipanel.n_plies_max
-    table_mp.loc[0, 'Area'] = multipanel.area_patches
+    table_mp.loc[0, 'Area'] = multipanel.area
     table_mp.loc[0, 'Area of all patches'] = multipanel.area_patches
     if mat is not None:
         table_mp.loc[0, 'Weight'] = multipanel.calc_weight(mat.density_area)
@@ -141,7 +141,7 @@ def save_multipanel(
             = panel.lampam_weightings[ind]
 
     if calc_penalties:
-        ss = np.array(convert_sst_to_ss(sst))
+        ss = convert_sst_to_ss(sst)
 
         norm_diso_contig = np.array(
                 [panel.n_plies for panel in multipanel.panels])
@@ -163,7 +163,7 @@ def save_multipanel(
         if constraints.rule_10_percent and constraints.rule_10_Abdalla:
             penalty_10 = calc_penalty_10_ss(ss, constraints, lampam, mp=True)
         else:
-            penalty_10 = calc_penalty_10_ss(ss, constraints, LPs=None)
+            penalty_10 = calc_penalty_10_ss(ss, constraints, LPs=None, mp=True)
 
         penalty_ipo, penalty_oopo = calc_penalty_ipo_oopo_mp(
             lampam, constraints)
-- 
2.43.0


From 6ff1f8b02ecac207b13742a2d434b61973053cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 19/46] fix: read each initial ply-drop layout once and report
 reading errors

---
 src/BELLA/pdl_ini.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index cfdc54b..1a81b28 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -44,19 +44,13 @@ def read_pdls_excel(filename):
     reads ply drop layout inputs in Excel file
     """
     pdls = []
-    ind_pdl = 1
-    while True:
-        try:
+    with pd.ExcelFile(filename) as file:
+        while 'pdl' + str(len(pdls) + 1) in file.sheet_names:
             pdl = pd.read_excel(
-                filename, sheet_name='pdl' + str(ind_pdl), dtype='int',
-                header=None, )
-        except:
-            break
-        finally:
-            ind_pdl += 1
+                file, sheet_name='pdl' + str(len(pdls) + 1), dtype='int',
+                header=None)
             pdls.append(np.array(pdl))
-    ind_pdl -= 2
-    print('    ' + str(ind_pdl) + ' intial ply-drop layouts read.')
+    print('    ' + str(len(pdls)) + ' intial ply-drop layouts read.')
     return pdls
 
 
-- 
2.43.0


From 8042baf5144a3afc023604d90fa5278eca9cb70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 20/46] fix: boundary weightings given in any order of the
 panel IDs

---
 src/BELLA/multipanels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/multipanels.py b/src/BELLA/multipanels.py
index 0ba76b4..2f8651c 100644
--- a/src/BELLA/multipanels.py
+++ b/src/BELLA/multipanels.py
@@ -195,7 +195,7 @@ The panels of the multipanel-component are not all connected!""")
                     self.boundary_weights_in_IDs[
                         (ind_panel2, ind_panel1)] = weight
                     self.boundary_weights[
-                        (ind_panel2_mod, ind_panel1_mod)] = weight
+                        (ind_panel1_mod, ind_panel2_mod)] = weight
 
         else:  # all boundary weightings set to one
             for ind_panel1, ind_panel2 in self.boundaries_in_IDs:
-- 
2.43.0


From adc42abb95bbb7e64649925a7d6b1a63598a871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 21/46] fix: restore the group size limit in all cases

---
 src/BELLA/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index cd2a9d5..4c1ed5a 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -81,8 +81,8 @@ def BELLA_optimiser(
 
     # division of the plies of the panels into one ply group
     group_size_max = parameters.group_size_max
-    parameters.group_size_max = 10000
     try:
+        parameters.group_size_max = 10000
         divide_panels(multipanel, parameters, constraints)
     finally:
         parameters.group_size_max = group_size_max
-- 
2.43.0


From a1ea10bdc05405c317fd6483d350690d499f381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 22/46] fix: keep the combined +-45 percentage of the 10% rule
 in the membrane repair

---
 src/RELAY/repair_membrane_1_no_ipo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 3bcdfb5..6b2ae53 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -102,6 +102,10 @@ def repair_membrane_1_no_ipo(
             continue
 
         # attention to not break the 10% rule
+        if angle1 in (45, -45) and angle2 not in (45, -45) \
+        and excess_10[4] < 1:
+            objA_options[ind_angle1, ind_angle2] = 1e10
+            continue
         if angle1 == 0:
             if excess_10[0] < 1:
                 objA_options[ind_angle1, ind_angle2] = 1e10
@@ -122,6 +126,8 @@ def repair_membrane_1_no_ipo(
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
             excess_10[3] -= 1
+        if angle1 in (45, -45):
+            excess_10[4] -= 1
 
 #        print(angle1, ' plies changed into ', angle2, 'plies')
 #        print('ind_angle1', ind_angle1, 'ind_angle2', ind_angle2)
@@ -136,6 +142,8 @@ def repair_membrane_1_no_ipo(
             excess_10[2] += 1
         elif angle2 == -45:
             excess_10[3] += 1
+        if angle2 in (45, -45):
+            excess_10[4] += 1
 
         lampamA += lampamA_options[ind_angle2] - lampamA_options[ind_angle1]
         objA = objA_options[ind_angle1, ind_angle2]
-- 
2.43.0


From 9b1bb987945039f9c221e8373415a23e646b9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 23/46] fix: end the repair for the 10% rule of Abdalla when it
 stops improving

---
 src/RELAY/repair_10_bal.py          | 4 ++--
 src/RELAY/repair_reference_panel.py | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index 90b1f7a..5bb9406 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -83,7 +83,7 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         lampamA, lampamA_options, constraints)
 
 
-    while dist_10 > 1e-10:
+    while dist_10 > 1e-10 and np.min(dist_10_options) + 1e-10 < dist_10:
 #        print('dist_10', dist_10)
 #        print('dist_10_options', dist_10_options)
 
@@ -267,7 +267,7 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
         lampamA, lampamA_options, constraints)
 #    print('dist_10_options', dist_10_options)
 
-    while dist_10 > 1e-10:
+    while dist_10 > 1e-10 and np.min(dist_10_options) + 1e-10 < dist_10:
         # attempts at modifying a couple of angled plies
         ind_angle1, ind_angle2 = np.unravel_index(
             np.argmin(dist_10_options, axis=None), dist_10_options.shape)
diff --git a/src/RELAY/repair_reference_panel.py b/src/RELAY/repair_reference_panel.py
index 904939c..e24fb10 100644
--- a/src/RELAY/repair_reference_panel.py
+++ b/src/RELAY/repair_reference_panel.py
@@ -18,6 +18,7 @@ from src.RELAY.repair_10_bal import repair_10_bal
 from src.RELAY.repair_10_bal import calc_mini_10
 from src.RELAY.repair_diso_contig import repair_diso_contig_list
 from src.guidelines.one_stack import check_lay_up_rules
+from src.guidelines.ten_percent_rule_Abdalla import calc_distance_Abdalla
 
 
 def repair_reference_panel(
@@ -121,6 +122,11 @@ def repair_reference_panel(
     reduced_ss = convert_sst_to_ss(reduced_sst)
     reduced_lampam = calc_lampam(reduced_ss, constraints)
 
+    if constraints.rule_10_percent and constraints.rule_10_Abdalla \
+    and calc_distance_Abdalla(
+            reduced_lampam[ind_ref], constraints) > 1e-10:
+        return False, reduced_lampam, reduced_sst, reduced_ss
+
     check_lay_up_rules(ss_ref, constraints)
 
     if (reduced_ss[ind_ref] != ss_ref).any():
-- 
2.43.0


From d09b09d26900404803db2efc243408e573f2c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 24/46] fix: leave the parameters of the caller unchanged

---
 src/BELLA/optimiser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 4c1ed5a..fe0c7cd 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -7,6 +7,7 @@ __version__ = '1.0'
 __author__ = 'Noemie Fedon'
 
 import sys
+import copy
 import time
 import numpy as np
 
@@ -51,6 +52,9 @@ def BELLA_optimiser(
 
     delete_file(filename)
 
+    # the parameters of the user remain unchanged
+    parameters = copy.copy(parameters)
+
     multipanel.should_you_use_BELLA()
     multipanel.calc_weight_per_panel(mat.density_area)
     multipanel.filter_target_lampams(constraints, obj_func_param)
-- 
2.43.0


From 4b56983e775695c1d606de29c6c4b8af33f27917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 25/46] fix: never drop plies of a group in a panel thicker
 than one that keeps them

---
 src/BELLA/divide_panels.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/divide_panels.py b/src/BELLA/divide_panels.py
index 38a4807..6098626 100644
--- a/src/BELLA/divide_panels.py
+++ b/src/BELLA/divide_panels.py
@@ -249,7 +249,9 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
     #===================
     # Division of other panels into groups of plies
     #===================
-    for ind_panel, panel in enumerate(multipanel.reduced.panels):
+    # from the thickest to the thinnest panel
+    for ind_panel in range(len(multipanel.reduced.panels))[::-1]:
+        panel = multipanel.reduced.panels[ind_panel]
         # ----- if panel is one of the thickest panels ----- #
         if panel.n_plies == multipanel.n_plies_max:
             #--------------------------
@@ -316,6 +318,17 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
                         if missing == 0:
                             break
                 iteration += 1
+            # No group can have fewer ply drops than in the next thicker
+            # panel, otherwise plies of the panel are dropped in the thicker
+            # panel
+            n_ply_drops_thicker \
+            = multipanel.reduced.panels[ind_panel + 1].n_ply_drops
+            excess = -np.sum(n_ply_drops)
+            n_ply_drops = np.maximum(n_ply_drops, n_ply_drops_thicker)
+            excess += np.sum(n_ply_drops)
+            while excess > 0:
+                n_ply_drops[np.argmax(n_ply_drops - n_ply_drops_thicker)] -= 1
+                excess -= 1
             # Here, panel.n_ply_drops = chosen combination of ply drops
             panel.n_ply_drops = n_ply_drops
             #--------------------------
-- 
2.43.0


From d43fc33763707163be76633598becd84e29530a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 26/46] fix: discard the right option in the membrane repair
 with the 10% rule of Abdalla

---
 src/RELAY/repair_membrane_1_ipo_Abdalla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 9f07780..85fcef8 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -113,7 +113,7 @@ def repair_membrane_1_ipo_Abdalla(
         LPs = lampamA + lampamA_options[ind_pos_angle2] - lampamA_options[
             ind_pos_angle1]
         if calc_distance_Abdalla(LPs, constraints) > 1e-10:
-            objA_options[ind_angle1, ind_angle2] = 1e10
+            objA_options[ind_pos_angle1, ind_pos_angle2] = 1e10
             continue
 
 #        print('objA_options after clean', objA_options)
-- 
2.43.0


From 0902a9f243d78095b74ccd39b523d08bbd6249e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 27/46] fix: choose the outermost ply of the reference panel
 when all plies are queued

---
 src/RELAY/repair_diso_contig.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/RELAY/repair_diso_contig.py b/src/RELAY/repair_diso_contig.py
index e3203ef..6edba38 100644
--- a/src/RELAY/repair_diso_contig.py
+++ b/src/RELAY/repair_diso_contig.py
@@ -69,6 +69,13 @@ def repair_diso_contig(
 #    print('constraints.sym', constraints.sym)
 #    print('n_D1', n_D1)
 
+    # the outermost plies are fixed first: they have to be known even when all
+    # the plies are in the queue
+    if ss[0] == 666:
+        ss = np.copy(ss)
+        ss[0] = ply_queue.pop(0)
+        ss[-1] = ss[0] if constraints.sym else ply_queue.pop(0)
+
     if constraints.sym:
         ss, inward = repair_diso_contig_from_outside_sym(
             ss, ply_queue, constraints, n_D1)
-- 
2.43.0


From f1cd858e8c73878aea5fce52af6946d3610b4dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 28/46] fix: spacing penalty of two panels that both drop a
 whole group of plies

---
 src/guidelines/ply_drop_spacing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/guidelines/ply_drop_spacing.py b/src/guidelines/ply_drop_spacing.py
index d8fdd5e..d800c4c 100644
--- a/src/guidelines/ply_drop_spacing.py
+++ b/src/guidelines/ply_drop_spacing.py
@@ -131,6 +131,9 @@ def calc_penalty_spacing_1ss(ss, min_drop):
     - min_drop: minimum number of continuous plies required between two block
     of dropped plies
     """
+    # no ply covers the two panels
+    if not ss.size:
+        return 0
     penal = 0
     # indentify index of the successive -1 elements in the array
     index1 = 0
-- 
2.43.0


From 9d29a5162d6317a518d9b3a98293e138340a6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 29/46] fix: refuse fractions in initial ply-drop layouts

---
 src/BELLA/pdl_ini.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 1a81b28..1044dec 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -47,9 +47,10 @@ def read_pdls_excel(filename):
     with pd.ExcelFile(filename) as file:
         while 'pdl' + str(len(pdls) + 1) in file.sheet_names:
             pdl = pd.read_excel(
-                file, sheet_name='pdl' + str(len(pdls) + 1), dtype='int',
-                header=None)
-            pdls.append(np.array(pdl))
+                file, sheet_name='pdl' + str(len(pdls) + 1), header=None)
+            if not (pdl.astype('int') == pdl).all(axis=None):
+                raise ValueError('Ply-drop layout with a fraction')
+            pdls.append(np.array(pdl, dtype='int'))
     print('    ' + str(len(pdls)) + ' intial ply-drop layouts read.')
     return pdls
 
-- 
2.43.0


From 6f74761b82f6b9144cf3252b5f019c44aff57eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 30/46] fix: choose the two outermost plies of the reference
 panel for damage tolerance when they are queued

---
 src/RELAY/repair_diso_contig.py | 59 +++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 6 deletions(-)

diff --git a/src/RELAY/repair_diso_contig.py b/src/RELAY/repair_diso_contig.py
index 6edba38..b2534bc 100644
--- a/src/RELAY/repair_diso_contig.py
+++ b/src/RELAY/repair_diso_contig.py
@@ -7,6 +7,9 @@ repair for disorientation and contiguity
     disorientation and contiguity rules until a successful repair or exhaustion
     of the list
 
+- fix_outer_plies
+    chooses the outermost plies that are in the ply queue
+
 - repair_diso_contig
     attempts at repairing the stacking sequence to satisfy the disorientation
     and contiguity rule
@@ -69,12 +72,9 @@ def repair_diso_contig(
 #    print('constraints.sym', constraints.sym)
 #    print('n_D1', n_D1)
 
-    # the outermost plies are fixed first: they have to be known even when all
-    # the plies are in the queue
-    if ss[0] == 666:
-        ss = np.copy(ss)
-        ss[0] = ply_queue.pop(0)
-        ss[-1] = ss[0] if constraints.sym else ply_queue.pop(0)
+    ss, success = fix_outer_plies(ss, ply_queue, constraints)
+    if not success:
+        return ss, False, False
 
     if constraints.sym:
         ss, inward = repair_diso_contig_from_outside_sym(
@@ -94,6 +94,53 @@ def repair_diso_contig(
     return ss, inward, True
 
 
+def fix_outer_plies(ss, ply_queue, constraints):
+    """
+    chooses the outermost plies that are in the ply queue, because the repair
+    starts from known outermost plies
+
+    Returns the stacking sequence, and False if the ply queue has no plies for
+    the damage tolerance guideline (the stacking sequence is then completed
+    with the plies of the queue)
+    """
+    two_plies = constraints.dam_tol and (
+        constraints.dam_tol_rule in {2, 3}
+        if hasattr(constraints, 'dam_tol_rule')
+        else constraints.n_plies_dam_tol == 2)
+    indices = [0, 1] if two_plies else [0]
+    if not constraints.sym:
+        indices += [ss.size - 1, ss.size - 2] if two_plies else [ss.size - 1]
+    if (ss[indices] != 666).all():
+        return ss, True
+
+    ss = np.copy(ss)
+    for ind in indices:
+        if ss[ind] != 666:
+            continue
+        angles = list(ply_queue)
+        if constraints.dam_tol:
+            angles = [angle for angle in angles if angle in {45, -45}]
+            if two_plies and ind in {1, ss.size - 2}:
+                # preferably opposite to the outermost ply
+                opposite = - ss[0] if ind == 1 else - ss[-1]
+                angles.sort(key=lambda angle: angle != opposite)
+                if getattr(constraints, 'dam_tol_rule', 2) == 2 \
+                and angles and angles[0] != opposite:
+                    angles = []
+        if not angles:
+            for ind2 in np.where(ss == 666)[0]:
+                if ss[ind2] == 666:
+                    ss[ind2] = ply_queue.pop(0)
+                    if constraints.sym:
+                        ss[ss.size - ind2 - 1] = ss[ind2]
+            return ss, False
+        ply_queue.remove(angles[0])
+        ss[ind] = angles[0]
+        if constraints.sym:
+            ss[ss.size - ind - 1] = ss[ind]
+    return ss, True
+
+
 if __name__ == "__main__":
     print('\n*** Test for the function repair_diso_contig ***')
     constraints = Constraints(
-- 
2.43.0


From 59a215c169df1141d66b555cd6a90f7cdfc7925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 31/46] fix: reject repairs that break the contiguity rule at
 the outermost plies

---
 src/RELAY/repair_diso_contig.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/RELAY/repair_diso_contig.py b/src/RELAY/repair_diso_contig.py
index b2534bc..020163e 100644
--- a/src/RELAY/repair_diso_contig.py
+++ b/src/RELAY/repair_diso_contig.py
@@ -22,6 +22,7 @@ import numpy as np
 
 sys.path.append(r'C:\BELLA')
 from src.LAYLA_V02.constraints import Constraints
+from src.guidelines.contiguity import is_contig
 from src.RELAY.repair_from_inside_sym import repair_diso_contig_from_inside_sym
 from src.RELAY.repair_from_inside_asym import repair_diso_contig_from_inside_asym
 from src.RELAY.repair_from_outside_sym import repair_diso_contig_from_outside_sym
@@ -79,21 +80,34 @@ def repair_diso_contig(
     if constraints.sym:
         ss, inward = repair_diso_contig_from_outside_sym(
             ss, ply_queue, constraints, n_D1)
+        inward = inward and is_contig_laminate(ss, constraints)
         if not inward:
             ss, outward = repair_diso_contig_from_inside_sym(
                 ss, ply_queue, constraints, n_D1)
+            outward = outward and is_contig_laminate(ss, constraints)
             return ss, inward, outward
         return ss, inward, True
 
     ss, inward = repair_diso_contig_from_outside_asym(
         ss, ply_queue, constraints, n_D1)
+    inward = inward and is_contig_laminate(ss, constraints)
     if not inward:
         ss, outward = repair_diso_contig_from_inside_asym(
             ss, ply_queue, constraints, n_D1)
+        outward = outward and is_contig_laminate(ss, constraints)
         return ss, inward, outward
     return ss, inward, True
 
 
+def is_contig_laminate(ss, constraints):
+    """
+    returns True if the contiguity rule is satisfied by the entire laminate,
+    with the outermost plies that the damage tolerance guideline governs and
+    that the repair leaves out of consideration
+    """
+    return not constraints.contig or is_contig(ss, constraints.n_contig)
+
+
 def fix_outer_plies(ss, ply_queue, constraints):
     """
     chooses the outermost plies that are in the ply queue, because the repair
-- 
2.43.0


From 40a8d961b5f8a822ddb7a938649a2251181f4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 32/46] fix: account for the disorientation coefficient in the
 thick-to-thin repair

---
 src/RELAY/thick_to_thin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 22821b7..6befb4b 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -321,7 +321,7 @@ def repair_thick_to_thin(
                 ### calculation of penalties for the disorientation constraint
                 if constraints.diso:
                     penalty_diso = calc_n_penalty_diso_ss(
-                        child_ss, constraints)
+                        child_ss, constraints) / child_ss.size
                 else:
                     penalty_diso = 0
                 child_penalty_diso = deepcopy(mother_penalty_diso)
@@ -396,6 +396,7 @@ def repair_thick_to_thin(
                     objective=child_obj_no_constraints,
                     actual_panel_weightings=multipanel.reduced.actual_panel_weightings,
                     penalty_diso=child_penalty_diso,
+                    coeff_diso=obj_func_param.coeff_diso,
                     penalty_contig=None,
                     penalty_oopo=None,
                     penalty_10=None,
-- 
2.43.0


From 8dfc858215f8df485a14f8f536d725e5860559d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 33/46] fix: keep equal outer plies allowed by damage tolerance
 rule 3 in the search

---
 src/BELLA/pruning.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index 4fda68b..bb18d02 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -80,13 +80,6 @@ def pruning_diso_contig_damtol(
                     for ind in range(child_ss.size)[:: -1]:
                         if child_ss[ind] not in my_set:
                             child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-                            continue
-                        # diso
-                        if constraints.diso \
-                        and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_bot[0]:
-                                child_ss = np.delete(
-                                    child_ss, np.s_[ind], axis=0)
 
                 if child_ss.size == 0:
                     return None
@@ -103,13 +96,6 @@ def pruning_diso_contig_damtol(
                     for ind in range(child_ss.size)[:: -1]:
                         if child_ss[ind] not in my_set:
                             child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-                            continue
-                        # diso
-                        if constraints.diso \
-                        and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_top[-1]:
-                                child_ss = np.delete(
-                                    child_ss, np.s_[ind], axis=0)
 
                 if child_ss.size == 0:
                     return None
-- 
2.43.0


From e3364aeeb381adac6c5f2b13e38f15a47638485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 34/46] fix: save the ply percentages of panels with ply drops
 relative to their own plies

---
 src/BELLA/save_result.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index e4312ac..9d623ea 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -165,16 +165,16 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'oopo: |lampam[11]| + |lampam[12]|'] \
         = abs(lampam[ind_p, 10]) + abs(lampam[ind_p, 11])
         table_res.loc[ind + ind_p, 'percentage_0_plies'] \
-        = sum(sst[ind_p] == 0) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 0) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_90_plies'] \
-        = sum(sst[ind_p] == 90) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 90) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+45_plies'] \
-        = sum(sst[ind_p] == 45) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 45) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_-45_plies'] \
-        = sum(sst[ind_p] == -45) / (sst[ind_p].size)
+        = sum(sst[ind_p] == -45) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+-45_plies'] \
         = (sum(sst[ind_p] == 45) + sum(sst[ind_p] == -45)) \
-        / (sst[ind_p].size)
+        / (ss[ind_p].size)
 
         table_res.loc[ind + ind_p, 'penalty_diso'] = penalty_diso[ind_p]
         table_res.loc[ind + ind_p, 'penalty_contig'] = penalty_contig[ind_p]
-- 
2.43.0


From 0ae06d1441cbf7889f4fbb47a5419cd31fbe0fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 35/46] fix: run set-ups whose panels list one or no neighbour

---
 run_BELLA_from_input_file_SST_1.py     | 9 +++++++--
 run_BELLA_from_input_file_horseshoe.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/run_BELLA_from_input_file_SST_1.py b/run_BELLA_from_input_file_SST_1.py
index 02447b9..11ecfa5 100644
--- a/run_BELLA_from_input_file_SST_1.py
+++ b/run_BELLA_from_input_file_SST_1.py
@@ -211,7 +211,12 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+# the panel IDs are read as text because cells with one ID would otherwise be
+# read as numbers, and cells without ID as NaN
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={"Neighbour panel IDs": str})
+data_panels["Neighbour panel IDs"] \
+= data_panels["Neighbour panel IDs"].fillna('')
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -235,7 +240,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints))
 
 multipanel = MultiPanel(panels)
diff --git a/run_BELLA_from_input_file_horseshoe.py b/run_BELLA_from_input_file_horseshoe.py
index f94b0df..af374f7 100644
--- a/run_BELLA_from_input_file_horseshoe.py
+++ b/run_BELLA_from_input_file_horseshoe.py
@@ -211,7 +211,12 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+# the panel IDs are read as text because cells with one ID would otherwise be
+# read as numbers, and cells without ID as NaN
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={"Neighbour panel IDs": str})
+data_panels["Neighbour panel IDs"] \
+= data_panels["Neighbour panel IDs"].fillna('')
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -235,7 +240,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints,
         length_x=float(data_panels["Length_x"].iloc[ind_panel]),
         length_y=float(data_panels["Length_y"].iloc[ind_panel]),
-- 
2.43.0


From 8fe412f4ef8ba639b87f9666c83e827929e79560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 36/46] fix: select nodes and layouts whatever the size of
 their objectives and penalties

---
 src/BELLA/optimiser_with_one_pdl.py | 16 ++++++++--------
 src/BELLA/pdl_group.py              |  2 +-
 src/BELLA/pdl_ini.py                |  2 +-
 src/RELAY/thick_to_thin.py          | 14 ++++++++------
 src/RELAY/thin_to_thick.py          | 14 ++++++++------
 5 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index 271d5e6..7eb8dd9 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -313,7 +313,7 @@ def BELLA_optimiser_one_pdl(
                 to_del = []
                 for counter in range(n_excess_nodes):
                     ind_max = np.argmax(obj_constraints_tab_to_del)
-                    obj_constraints_tab_to_del[ind_max] = -6666
+                    obj_constraints_tab_to_del[ind_max] = -np.inf
                     to_del.append(
                         ind_max + obj_constraints_tab.size - n_local_nodes)
                 for ind_del in sorted(to_del, reverse=True):
@@ -350,8 +350,8 @@ beam search with no solutions !
             obj_constraints_tab_to_del = np.copy(obj_constraints_tab)
             for counter in range(node_limit):
                 ind_min = np.argmin(obj_constraints_tab_to_del)
-                obj_constraints_tab_to_del[ind_min] = 6666
-            to_keep = obj_constraints_tab_to_del == 6666
+                obj_constraints_tab_to_del[ind_min] = np.inf
+            to_keep = obj_constraints_tab_to_del == np.inf
             to_del = np.invert(to_keep).astype(int)
             to_del = [i for i, x in enumerate(to_del) if x]
             for ind_del in sorted(to_del, reverse=True):
@@ -468,7 +468,7 @@ beam search with no solutions !
 
         # calulation of the objective/estimate function values
         if not results_repair[0]:
-                obj_no_constraints = 1e10 * np.ones((
+                obj_no_constraints = np.inf * np.ones((
                     multipanel.reduced.n_panels,), float)
         else:
             obj_no_constraints = calc_obj_each_panel(
@@ -479,8 +479,8 @@ beam search with no solutions !
                 lampam_weightings=lampam_weightings[level])
         obj_no_constraints_tab[ind_angle] = obj_no_constraints
 
-        if not (obj_no_constraints != 1e10).all():
-            obj_constraints = 1e10
+        if not (obj_no_constraints != np.inf).all():
+            obj_constraints = np.inf
         else:
             obj_constraints = calc_obj_multi_panel(
                 objective=obj_no_constraints,
@@ -501,7 +501,7 @@ beam search with no solutions !
 # =============================================================================
     if parameters.save_success_rate:
         to_keep = np.array([ind for ind in range(len(obj_constraints_tab))\
-                            if obj_constraints_tab[ind] < 1e10])
+                            if obj_constraints_tab[ind] < np.inf])
         to_del = np.array([ind for ind in range(len(obj_constraints_tab))\
                            if ind not in to_keep])
         if to_keep.size:
@@ -527,7 +527,7 @@ beam search with no solutions !
         results.n_designs_repaired_unique = np.unique(
             sst_final, axis=0).shape[0]
 
-    if not (np.array(obj_constraints_tab) < 1e10).any():
+    if not (np.array(obj_constraints_tab) < np.inf).any():
         print('No laminate design solution with this initial ply drop layout')
         return None
 
diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index 015e4b7..30e1365 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -296,7 +296,7 @@ Too many ply drops between two adjacent panels.""")
         for ind in range(ind_perfect, n_pdl):
             indexx = np.argmin(p_spacing_imperfect)
             pdl_perfect[ind] = pdl_imperfect[indexx]
-            p_spacing_imperfect[indexx] = 10e6
+            p_spacing_imperfect[indexx] = np.inf
 
         return pdl_perfect
     # if enough manufacturable ply drop layouts have been found
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 1044dec..d01d8f3 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -192,7 +192,7 @@ Too many ply drops between two adjacent panels.""")
         for ind in range(ind_perfect, n_pdls):
             indexx = np.argmin(p_pdls_imperfect)
             pdls_perfect[ind] = pdls_imperfect[indexx]
-            p_pdls_imperfect[indexx] = 10e6
+            p_pdls_imperfect[indexx] = np.inf
 
         print('    ' + str(ind_perfect) \
           + ' feasible intial ply-drop layouts generated.')
diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 6befb4b..2fcf5fe 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -252,7 +252,8 @@ def repair_thick_to_thin(
 
             ### local pruning for the ply-drop layout rules
             indices_to_keep = []
-            tab_penalty_spacing_for_pruning = np.copy(tab_penalty_spacing)
+            tab_penalty_spacing_for_pruning = np.array(
+                tab_penalty_spacing, dtype=float)
             if len(tab_penalty_spacing_for_pruning) \
             > parameters.local_node_limit2:
 
@@ -263,7 +264,7 @@ def repair_thick_to_thin(
                         tab_penalty_spacing_for_pruning == min_value)[0]
                     for elem in indices_to_add:
                         indices_to_keep.append(elem)
-                        tab_penalty_spacing_for_pruning[elem] = 1000
+                        tab_penalty_spacing_for_pruning[elem] = np.inf
 
                 indices_to_keep.sort()
 #                print('indices_to_keep', indices_to_keep)
@@ -433,7 +434,7 @@ def repair_thick_to_thin(
                     index_to_add = np.where(
                     tab_child_obj_constraints_for_pruning == min_value)[0][0]
                     indices_to_keep.append(index_to_add)
-                    tab_child_obj_constraints_for_pruning[index_to_add] = 1000
+                    tab_child_obj_constraints_for_pruning[index_to_add] = np.inf
 
                 indices_to_keep.sort()
 #                print('indices_to_keep', indices_to_keep)
@@ -518,7 +519,8 @@ def repair_thick_to_thin(
 
         #### global pruning for ply-drop layout rules
         indices_to_keep = []
-        penalty_spacing_tab_for_pruning = np.copy(penalty_spacing_tab)
+        penalty_spacing_tab_for_pruning = np.array(
+            penalty_spacing_tab, dtype=float)
 
         if ind_step != n_steps - 1 \
         and len(penalty_spacing_tab_for_pruning) \
@@ -531,7 +533,7 @@ def repair_thick_to_thin(
                 penalty_spacing_tab_for_pruning == min_value)[0]
                 for elem in indices_to_add:
                     indices_to_keep.append(elem)
-                    penalty_spacing_tab_for_pruning[elem] = 1000
+                    penalty_spacing_tab_for_pruning[elem] = np.inf
 
             indices_to_keep.sort()
             pdls_tab = [pdls_tab[index] for index in indices_to_keep]
@@ -578,7 +580,7 @@ def repair_thick_to_thin(
                 index_to_add = np.where(
                 tab_child_obj_constraints_for_pruning == min_value)[0][0]
                 indices_to_keep.append(index_to_add)
-                tab_child_obj_constraints_for_pruning[index_to_add] = 1000
+                tab_child_obj_constraints_for_pruning[index_to_add] = np.inf
 
             indices_to_keep.sort()
             pdls_tab = [pdls_tab[index] for index in indices_to_keep]
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 7c97b46..82c13bd 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -303,7 +303,8 @@ def repair_thin_to_thick(
 
             ### local pruning for the ply-drop layout rules
             indices_to_keep = []
-            tab_penalty_spacing_for_pruning = np.copy(tab_penalty_spacing)
+            tab_penalty_spacing_for_pruning = np.array(
+                tab_penalty_spacing, dtype=float)
             if len(tab_penalty_spacing_for_pruning) \
             > parameters.local_node_limit2:
 
@@ -314,7 +315,7 @@ def repair_thin_to_thick(
                         tab_penalty_spacing_for_pruning == min_value)[0]
                     for elem in indices_to_add:
                         indices_to_keep.append(elem)
-                        tab_penalty_spacing_for_pruning[elem] = 1000
+                        tab_penalty_spacing_for_pruning[elem] = np.inf
 
                 indices_to_keep.sort()
 #                print('indices_to_keep', indices_to_keep)
@@ -484,7 +485,7 @@ def repair_thin_to_thick(
                     index_to_add = np.where(
                     tab_child_obj_constraints_for_pruning == min_value)[0][0]
                     indices_to_keep.append(index_to_add)
-                    tab_child_obj_constraints_for_pruning[index_to_add] = 1000
+                    tab_child_obj_constraints_for_pruning[index_to_add] = np.inf
 
                 indices_to_keep.sort()
 #                print('indices_to_keep', indices_to_keep)
@@ -561,7 +562,8 @@ def repair_thin_to_thick(
 
         #### global pruning for ply-drop layout rules
         indices_to_keep = []
-        penalty_spacing_tab_for_pruning = np.copy(penalty_spacing_tab)
+        penalty_spacing_tab_for_pruning = np.array(
+            penalty_spacing_tab, dtype=float)
         if ind_step != n_steps - 1 \
         and len(penalty_spacing_tab_for_pruning) \
         > parameters.global_node_limit2:
@@ -573,7 +575,7 @@ def repair_thin_to_thick(
                 penalty_spacing_tab_for_pruning == min_value)[0]
                 for elem in indices_to_add:
                     indices_to_keep.append(elem)
-                    penalty_spacing_tab_for_pruning[elem] = 1000
+                    penalty_spacing_tab_for_pruning[elem] = np.inf
 
             indices_to_keep.sort()
             pdls_tab = [pdls_tab[index] for index in indices_to_keep]
@@ -615,7 +617,7 @@ def repair_thin_to_thick(
                 index_to_add = np.where(
                 tab_child_obj_constraints_for_pruning == min_value)[0][0]
                 indices_to_keep.append(index_to_add)
-                tab_child_obj_constraints_for_pruning[index_to_add] = 1000
+                tab_child_obj_constraints_for_pruning[index_to_add] = np.inf
 
             indices_to_keep.sort()
             pdls_tab = [pdls_tab[index] for index in indices_to_keep]
-- 
2.43.0


From 876377660ff8817f10a07b90d1b56667e5ac81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 37/46] fix: accept sets of fibre angles without angle plies

---
 src/BELLA/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/constraints.py b/src/BELLA/constraints.py
index 1059678..fa6ae93 100644
--- a/src/BELLA/constraints.py
+++ b/src/BELLA/constraints.py
@@ -339,7 +339,7 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
             elem,
             self.ind_angles_dict[elem],
             self.ind_angles_dict[-elem]
-            ] for elem in angles_bal])
+            ] for elem in angles_bal]).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
-- 
2.43.0


From 4e64b124f30be43c6808a6698b52c2c038bc07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 38/46] fix: refine the reference panel when 0 or 90 degree
 plies are not allowed

---
 src/RELAY/repair_membrane_1_ipo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index 2bc48af..ec2da0d 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -239,6 +239,10 @@ def repair_membrane_1_ipo(
 
 #    print('objA', objA)
 
+    # no change possible if 0 deg or 90 deg plies are not allowed
+    if 0 not in constraints.pos_angles or 90 not in constraints.pos_angles:
+        return ss_list, ply_queue_list, lampamA_list, objA_list
+
     # attempt at changing a 0 deg ply into a 90 deg ply
     ind_0 = np.where(constraints.pos_angles == 0)[0][0]
     ind_90 = np.where(constraints.pos_angles == 90)[0][0]
-- 
2.43.0


From 6cd9f6f85a36a450104c82bf27e141dbe6c80b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 39/46] fix: no ply shift is tested when n_D2 is one

---
 src/RELAY/repair_flexural_2.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/RELAY/repair_flexural_2.py b/src/RELAY/repair_flexural_2.py
index 646a77b..ff9b802 100644
--- a/src/RELAY/repair_flexural_2.py
+++ b/src/RELAY/repair_flexural_2.py
@@ -36,6 +36,13 @@ def repair_flexural_2(
     n_obj_func_D_calls = 0
 
     ss = np.copy(ss_ini)
+
+    # no ply shift to be tested
+    if parameters.n_D2 < 2:
+        if count_obj:
+            return ss, n_obj_func_D_calls
+        return ss
+
     if constraints.sym:
         if constraints.dam_tol:
             if hasattr(constraints, 'dam_tol_rule') \
-- 
2.43.0


From 097a3683062d27975f9747537e05c78fbc4454cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 40/46] fix: volumic density of a material given without
 densities

---
 src/BELLA/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index a467770..e2bb789 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
-- 
2.43.0


From 6494526e01130eff69a62a13502dfde9edc3ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 41/46] fix: n_covering has no effect when the covering rule is
 off

---
 src/BELLA/constraints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BELLA/constraints.py b/src/BELLA/constraints.py
index fa6ae93..0e02c8f 100644
--- a/src/BELLA/constraints.py
+++ b/src/BELLA/constraints.py
@@ -86,6 +86,8 @@ Choose either n_covering = 0, 1 or 2""")
         self.covering = covering
         if covering:
              n_covering = max(n_covering, 1)
+        else:
+             n_covering = 0
         self.n_covering = n_covering
 
         # 10% rule
-- 
2.43.0


From 1f7f150a47b1f1e0c280d2163e32a4dff745cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 42/46] fix: report designs of structures whose panels list one
 or no neighbour

---
 FXI-results/format_restults_FXI_SST_1.py     | 9 +++++++--
 FXI-results/format_restults_FXI_horseshoe.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index f2fcbfe..33ba8b4 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -132,7 +132,12 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+# the panel IDs are read as text because cells with one ID would otherwise be
+# read as numbers, and cells without ID as NaN
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={"Neighbour panel IDs": str})
+data_panels["Neighbour panel IDs"] \
+= data_panels["Neighbour panel IDs"].fillna('')
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -157,7 +162,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints))
 
 multipanel = MultiPanel(panels)
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index 8c212ed..6af50bc 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -131,7 +131,12 @@ obj_func_param = ObjFunction(
 
 ### Multi-panel composite laminate layout -------------------------------------
 
-data_panels = pd.read_excel(filename_input, sheet_name='Panels')
+# the panel IDs are read as text because cells with one ID would otherwise be
+# read as numbers, and cells without ID as NaN
+data_panels = pd.read_excel(filename_input, sheet_name='Panels',
+                            dtype={"Neighbour panel IDs": str})
+data_panels["Neighbour panel IDs"] \
+= data_panels["Neighbour panel IDs"].fillna('')
 
 lampam_weightings_all = data_panels[[
     "lampam_weightings[1]", "lampam_weightings[2]", "lampam_weightings[3]",
@@ -155,7 +160,7 @@ for ind_panel in range(data_panels.shape[0]):
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
         neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+            "Neighbour panel IDs"].iloc[ind_panel].split(), int),
         constraints=constraints,
         length_x=float(data_panels["Length_x"].iloc[ind_panel]),
         length_y=float(data_panels["Length_y"].iloc[ind_panel]),
-- 
2.43.0


From 2aa195fe143aa6b5027f2894c900e428a2183dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 43/46] fix: ply counts of structures without blending strip

---
 src/guidelines/ten_percent_rule.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 2ad9516..dae289e 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -63,9 +63,8 @@ def calc_ply_counts(multipanel, stacks, constraints):
         laminate structure
     """
     n_plies_per_angles = np.zeros((
-        multipanel.reduced.n_panels, constraints.n_set_of_angles),
-        dtype='float16')
-    for ind_panel in range(multipanel.reduced.n_panels):
+        len(stacks), constraints.n_set_of_angles), dtype='float16')
+    for ind_panel in range(len(stacks)):
         for index in range(len(stacks[ind_panel])):
             index = constraints.ind_angles_dict[stacks[ind_panel][index]]
             n_plies_per_angles[ind_panel][index] += 1
-- 
2.43.0


From 3659ce43cf1a919cd7dd0280231298082b9489dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:34 +0000
Subject: [PATCH 44/46] fix: disorientation of complete laminates with the
 first damage tolerance rule

---
 src/guidelines/disorientation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/guidelines/disorientation.py b/src/guidelines/disorientation.py
index a2f0763..6761c3d 100644
--- a/src/guidelines/disorientation.py
+++ b/src/guidelines/disorientation.py
@@ -84,14 +84,14 @@ def is_diso_ss(ss, delta_angle, dam_tol=False,
 
     The angles are considered in degrees.
     """
-    if dam_tol:
-        if (dam_tol_rule is not None and dam_tol_rule in {2, 3})\
-        or (n_plies_dam_tol is not None and n_plies_dam_tol == 2):
-            for ind_ply in range(ss.size - 3):
-                if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
-                    return False
-        if dam_tol_rule is None and n_plies_dam_tol is None:
-            raise Exception('Not enough input arugments!')
+    if dam_tol and dam_tol_rule is None and n_plies_dam_tol is None:
+        raise Exception('Not enough input arugments!')
+    if dam_tol \
+    and ((dam_tol_rule is not None and dam_tol_rule in {2, 3})\
+         or (n_plies_dam_tol is not None and n_plies_dam_tol == 2)):
+        for ind_ply in range(ss.size - 3):
+            if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
+                return False
     else:
         for ind_ply in range(ss.size - 1):
             if not is_diso(ss[ind_ply], ss[ind_ply + 1], delta_angle):
-- 
2.43.0


From 0f37c7e4a9fd771a335f2e5515636391ac56713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:11 +0000
Subject: [PATCH 45/46] fix: check the 10% rule on lamination parameters of
 complete laminates

---
 src/guidelines/one_stack.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/one_stack.py b/src/guidelines/one_stack.py
index 789876a..4ad7203 100644
--- a/src/guidelines/one_stack.py
+++ b/src/guidelines/one_stack.py
@@ -66,8 +66,11 @@ def check_lay_up_rules(
             raise Exception("Contiguity constraint not satisfied")
 
     if constraints.rule_10_percent:
+        LPs = None
+        if constraints.rule_10_Abdalla:
+            LPs = calc_lampamA(ss, constraints)
         if not is_ten_percent_rule(
-                constraints, stack=ss,
+                constraints, stack=ss, LPs=LPs,
                 equality_45_135=equality_45_135,
                 equality_0_90=equality_0_90):
             raise Exception("10% rule not satisfied")
-- 
2.43.0


From 140939901a4699c3638c8c2838504a265dc708e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:03 +0000
Subject: [PATCH 46/46] fix: check_ply_drop_rules checks all outer plies that
 have to cover

---
 src/guidelines/one_stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/one_stack.py b/src/guidelines/one_stack.py
index 4ad7203..1efda8e 100644
--- a/src/guidelines/one_stack.py
+++ b/src/guidelines/one_stack.py
@@ -84,7 +84,9 @@ def check_ply_drop_rules(reduced_sst, multipanel, constraints, reduced=True):
     reduced = True if the function is applied to the blending strip
     """
     if constraints.covering:
-        if (reduced_sst[:, 0] == -1).any() or (reduced_sst[:, -1] == -1).any():
+        n_covering = max(1, constraints.n_covering)
+        if (reduced_sst[:, :n_covering] == -1).any() \
+        or (reduced_sst[:, -n_covering:] == -1).any():
             raise Exception("Covering constraint not satisfied")
 
     if  constraints.pdl_spacing:
-- 
2.43.0

