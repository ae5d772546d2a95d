From 9b4d9dd7ce8d9492e1614c12935bf291e9e462b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 1/8] fix: save design and result files atomically and close
 them on failure

create_input_file and js_dump truncated the target in place, so a failed,
interrupted or crashed save destroyed the previous content and left a torn
file; a concurrent reader could see it too. The handles of create_input_file
and read_input_file stayed open when pickling failed.
---
 ghedt/utilities.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 8433034..26a302d 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -1,8 +1,11 @@
+import contextlib
 import copy
 import numpy as np
 import json
 from matplotlib.ticker import Locator
+import os
 import pickle
+import uuid
 import warnings
 
 # utilities.py - this module contains general utility functions. The functions
@@ -120,8 +123,29 @@ def check_bracket(sign_xL, sign_xR, disp=None) -> bool:
 
 # File input/output or file path handling functions.
 # --------------------------------------------------
+@contextlib.contextmanager
+def _atomic_write(path, mode):
+    # Write a file so that `path` always holds either its previous content or
+    # the complete new content, even if the write fails, the process stops or
+    # another process saves to the same path. The content goes to a uniquely
+    # named temporary file in the same directory, is flushed to the disk, and
+    # then takes the place of `path` in one step.
+    path = os.path.realpath(path)
+    tmp_path = path + '.' + uuid.uuid4().hex + '.tmp'
+    try:
+        with open(tmp_path, mode) as file_handler:
+            yield file_handler
+            file_handler.flush()
+            os.fsync(file_handler.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(tmp_path)
+        raise
+
+
 def js_dump(file_name, d, indent=4):
-    with open(file_name + '.json', 'w') as fp:
+    with _atomic_write(file_name + '.json', 'w') as fp:
         json.dump(d, fp, indent=indent)
 
 
@@ -138,18 +162,16 @@ def create_if_not(directory):
 
 def create_input_file(self, file_name='ghedt_input'):
     # Store an object in a file using pickle.
-    file_handler = open(file_name + '.obj', 'wb')
-    pickle.dump(self, file_handler)
-    file_handler.close()
+    with _atomic_write(file_name + '.obj', 'wb') as file_handler:
+        pickle.dump(self, file_handler)
 
     return
 
 
 def read_input_file(path_to_file):
     # Open a .obj file and return the ghedt object.
-    file = open(path_to_file, 'rb')
-    object_file = pickle.load(file)
-    file.close()
+    with open(path_to_file, 'rb') as file:
+        object_file = pickle.load(file)
 
     return object_file
 
-- 
2.43.0


From eec50ec79ae612879892371ecf56220248a8e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 2/8] fix: tolerate another caller creating the output
 directory first

The directory could appear between the existence check and makedirs, which
then failed with FileExistsError.
---
 ghedt/domains.py   | 3 +--
 ghedt/utilities.py | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index f9018f6..908f334 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -424,8 +424,7 @@ def reorder_domain(domain):
 
 def visualize_domain(domain, output_folder_name):
     import os
-    if not os.path.exists(output_folder_name):
-        os.makedirs(output_folder_name)
+    os.makedirs(output_folder_name, exist_ok=True)
 
     for i in range(len(domain)):
         fig = gt.utilities._initialize_figure()
diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 26a302d..90d68b4 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -155,9 +155,7 @@ def js_load(filename: str):
 
 
 def create_if_not(directory):
-    import os
-    if not os.path.exists(directory):
-        os.makedirs(directory)
+    os.makedirs(directory, exist_ok=True)
 
 
 def create_input_file(self, file_name='ghedt_input'):
-- 
2.43.0


From 5c9f9e831887e9b072f8ca0ce3e56811c8d1256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 3/8] fix: do not change the borehole handed in by the caller

A GHE kept and resized the caller's borehole, so sizing or searching one
design silently changed the height of every other design built from the same
borehole.
---
 ghedt/ground_heat_exchangers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index d0dc134..7530ae5 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -28,8 +28,10 @@ class BaseGHE:
 
         # Borehole Heat Exchanger
         self.bhe_object = bhe_function
+        # Sizing and searching change the height of the borehole, so keep a copy
+        # which is not tied to the caller's (or another GHE's) borehole
         self.bhe = bhe_function(
-            m_flow_borehole, fluid, borehole, pipe, grout, soil)
+            m_flow_borehole, fluid, copy.deepcopy(borehole), pipe, grout, soil)
         # Equivalent borehole Heat Exchanger
         self.bhe_eq = plat.equivalance.compute_equivalent(self.bhe)
 
-- 
2.43.0


From bd02a4808e484242358016cdb4cbbae3b77cff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 4/8] fix: make g-function interpolation independent of earlier
 queries

The interpolation table was filled in place and kept whatever kind and fill
value the first query had: a later query of another kind or range got the
wrong interpolation, and a query after an interrupted one (or from another
thread) used a half-built table. Bare excepts also swallowed KeyboardInterrupt
and MemoryError and went on with a wrong burial depth.
---
 ghedt/gfunction.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 99f1e5b..fb1cea6 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -118,8 +118,8 @@ class GFunction:
         self.bore_locations: list = bore_locations
         # self.time: dict = {}  # the time values in years
 
-        # an interpolation table for B/H ratios, D, r_b (used in the method
-        # g_function_interpolation)
+        # interpolation tables for B/H ratios, D, r_b (used in the method
+        # g_function_interpolation), keyed by the kind and the fill value
         self.interpolation_table: dict = {}
 
     def g_function_interpolation(self, B_over_H: float, kind='default'):
@@ -206,11 +206,13 @@ class GFunction:
                 kind = curves_by_kind[len(height_values)]
 
         # if the interpolation table is not yet know, build it
-        if len(self.interpolation_table) == 0:
+        table_key = (kind, fill_value)
+        table = self.interpolation_table.get(table_key)
+        if table is None:
             # create an interpolation for the g-function which takes the height
             # (or equivilant height) as an input the g-function needs to be
             # interpolated at each point in dimensionless time
-            self.interpolation_table['g'] = []
+            table = {'g': []}
             for i, lntts in enumerate(self.log_time):
                 x = []
                 y = []
@@ -223,7 +225,7 @@ class GFunction:
                     f = lagrange(x, y)
                 else:
                     f = interp1d(x, y, kind=kind, fill_value=fill_value)
-                self.interpolation_table['g'].append(f)
+                table['g'].append(f)
             # create interpolation tables for 'D' and 'r_b' by height
             keys = list(self.r_b_values.keys())
             height_values: list = []
@@ -234,7 +236,7 @@ class GFunction:
                 rb_values.append(self.r_b_values[h])
                 try:
                     D_values.append(self.D_values[h])
-                except:
+                except KeyError:
                     pass
             if kind == 'lagrange':
                 rb_f = lagrange(height_values, rb_values)
@@ -242,26 +244,27 @@ class GFunction:
                 # interpolation function for rb values by H equivalent
                 rb_f = interp1d(height_values, rb_values, kind=kind,
                                 fill_value=fill_value)
-            self.interpolation_table['rb'] = rb_f
-            try:
+            table['rb'] = rb_f
+            # there may not be a D value for every height
+            if len(D_values) == len(height_values):
                 if kind == 'lagrange':
                     D_f = lagrange(height_values, D_values)
                 else:
                     D_f = interp1d(height_values, D_values, kind=kind,
                                    fill_value=fill_value)
-                self.interpolation_table['D'] = D_f
-            except:
-                pass
+                table['D'] = D_f
+            # store the table only once it is complete
+            self.interpolation_table[table_key] = table
 
         # create the g-function by interpolating at each ln(t/ts) value
-        rb_value = self.interpolation_table['rb'](H_eq)
+        rb_value = table['rb'](H_eq)
         try:
-            D_value = self.interpolation_table['D'](H_eq)
-        except:
+            D_value = table['D'](H_eq)
+        except KeyError:
             D_value = None
         g_function: list = []
         for i in range(len(self.log_time)):
-            f = self.interpolation_table['g'][i]
+            f = table['g'][i]
             g = f(H_eq).tolist()
             g_function.append(g)
         return g_function, rb_value, D_value, H_eq
@@ -459,7 +462,7 @@ class GFunction:
             try:
                 D = float(key_split[3])
                 Ds_tmp[height] = D
-            except:
+            except (IndexError, ValueError):
                 pass
 
             # do the time dictionary
@@ -479,7 +482,7 @@ class GFunction:
         # fill the burial depth dictionary with sorted heights
         try:
             Ds = {key: Ds_tmp[key] for key in keys}
-        except:
+        except KeyError:
             # if there's no D provided, make it 2
             Ds = {key: 2. for key in keys}
         r_bs = {key: r_bs_tmp[key] for key in keys}
-- 
2.43.0


From 82b7f09e93a3bb58e2a78dba4700e2c9326b9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 5/8] fix: apply a new flow rate or fluid to the pipe
 resistances too

update_thermal_resistance kept the old pipe flow rate, so the convection
resistance of a U-tube exchanger stayed that of the flow rate it was built
with, and compute_effective_borehole_resistance stored a new flow rate or
fluid without updating any resistance.
---
 .../borehole_heat_exchangers.py               | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 1a90f24..9ab4a44 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -91,17 +91,13 @@ class BasePipe(object):
             self, m_flow_borehole=None, fluid=None):
         # Compute the effective borehole thermal resistance
 
-        # if the mass flow rate has changed, then update it and use new value
-        if m_flow_borehole is None:
-            m_flow_borehole = self.m_flow_borehole
-        else:
-            self.m_flow_borehole = m_flow_borehole
+        # if the mass flow rate or the fluid has changed, then update it, and the
+        # resistances that depend on it, and use the new value
+        if m_flow_borehole is not None or fluid is not None:
+            return self.update_thermal_resistance(m_flow_borehole, fluid)
 
-        # if the mass flow rate has changed, then update it and use new value
-        if fluid is None:
-            fluid = self.fluid
-        else:
-            self.fluid = fluid
+        m_flow_borehole = self.m_flow_borehole
+        fluid = self.fluid
 
         R_b_star = self.effective_borehole_thermal_resistance(
             m_flow_borehole, fluid.cp)
@@ -144,6 +140,8 @@ class SingleUTube(BasePipe, gt.pipes.SingleUTube):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = \
+                self.compute_mass_flow_rate_pipe(m_flow_borehole, None)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
@@ -197,6 +195,8 @@ class MultipleUTube(BasePipe, gt.pipes.MultipleUTube):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = \
+                self.compute_mass_flow_rate_pipe(m_flow_borehole, self.config)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
@@ -401,6 +401,7 @@ class CoaxialPipe(CoaxialBase, gt.pipes.Coaxial, BasePipe):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = m_flow_borehole
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
-- 
2.43.0


From 6dc2328bdd3d51b8a747a6768c9a60895bd2a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 6/8] fix: do not hide failed evaluations in the successive
 zoned search

The search over successive domains stopped at any ValueError, so a failing
evaluation (numpy's LinAlgError among them) silently cut the search short and
a larger design than necessary was returned. Only a domain that does not
bracket a solution ends it now.
---
 ghedt/search_routines.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index f6d259a..0966b01 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -7,6 +7,11 @@ import copy
 from sys import stderr
 
 
+class DomainNotBracketedError(ValueError):
+    # The excess temperatures at the ends of a domain do not bracket a solution
+    pass
+
+
 class Bisection1D:
     def __init__(self, coordinates_domain: list, V_flow: float,
                  borehole: gt.boreholes.Borehole,
@@ -153,7 +158,7 @@ class Bisection1D:
                       'below 0. This means that the loads are "miniscule" or ' \
                       'that the lower end of the domain needs to contain ' \
                       'less boreholes.'.format()
-                raise ValueError(msg)
+                raise DomainNotBracketedError(msg)
             if T_0_upper > 0.0 and T_m1 > 0.0:
                 msg = 'Based on the loads provided, the excess temperatures ' \
                       'for the minimum and maximum number of boreholes falls ' \
@@ -162,7 +167,7 @@ class Bisection1D:
                       'more boreholes. Consider increasing the available land' \
                       ' area, or decreasing the minimum allowable borehole ' \
                       'spacing.'
-                raise ValueError(msg)
+                raise DomainNotBracketedError(msg)
             return None, None
 
         if self.disp:
@@ -315,7 +320,7 @@ class BisectionZD(Bisection1D):
             self.calculated_temperatures = {}
             try:
                 selection_key, selected_coordinates = self.search()
-            except ValueError:
+            except DomainNotBracketedError:
                 break
             self.calculated_temperatures_nested[i] = \
                 copy.deepcopy(self.calculated_temperatures)
-- 
2.43.0


From 803f8978ed1b4454ccd211528326cf3eb68b62a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:06 +0000
Subject: [PATCH 7/8] fix: derive the pipe flow rate on every resistance update

---
 .../borehole_heat_exchangers.py                        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 9ab4a44..e0b9b20 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -140,8 +140,8 @@ class SingleUTube(BasePipe, gt.pipes.SingleUTube):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
-            self.m_flow_pipe = \
-                self.compute_mass_flow_rate_pipe(m_flow_borehole, None)
+        self.m_flow_pipe = \
+            self.compute_mass_flow_rate_pipe(m_flow_borehole, None)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
@@ -195,8 +195,8 @@ class MultipleUTube(BasePipe, gt.pipes.MultipleUTube):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
-            self.m_flow_pipe = \
-                self.compute_mass_flow_rate_pipe(m_flow_borehole, self.config)
+        self.m_flow_pipe = \
+            self.compute_mass_flow_rate_pipe(m_flow_borehole, self.config)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
@@ -401,7 +401,7 @@ class CoaxialPipe(CoaxialBase, gt.pipes.Coaxial, BasePipe):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
-            self.m_flow_pipe = m_flow_borehole
+        self.m_flow_pipe = m_flow_borehole
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
-- 
2.43.0


From 028451069a841b0e5c2f6a9fc7beda5cc98ad998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 8/8] fix: nested search falls into the last domain when the
 first field suffices

Bisection2D subtracted one from the selection key of the outer search even when
the tacked on field (key 0) was selected, so the inner search ran over the last
list and could raise although the first field brackets the solution.
---
 ghedt/search_routines.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 0966b01..e54dd9d 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -256,8 +256,11 @@ class Bisection2D(Bisection1D):
             copy.deepcopy(self.calculated_temperatures))
 
         # We tacked on one borehole to the beginning, so we need to subtract 1
-        # on the index
-        inner_domain = coordinates_domain_nested[selection_key-1]
+        # on the index (the tacked on borehole itself belongs to the first
+        # domain)
+        if selection_key > 0:
+            selection_key -= 1
+        inner_domain = coordinates_domain_nested[selection_key]
         self.coordinates_domain = inner_domain
 
         # Reset calculated temperatures
-- 
2.43.0

