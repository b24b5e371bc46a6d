From 3d2ab160e945dade0589746ce5542972ce599d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 01/89] fix: Survey.pos_nev no longer counts the start position
 twice

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 454a7f1..a6359b9 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -859,7 +859,7 @@ class Survey:
         self.dls = mc.dls
         self.pos_xyz = mc.poss
         self.pos_nev = (
-            get_nev(self.pos_xyz)
+            get_nev(self.pos_xyz, start_xyz=self.start_xyz)
             * np.full_like(
                 self.pos_xyz,
                 np.array([
-- 
2.43.0


From 2b14affbcd2765e8763bb2cbc5b0380c84411385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 02/89] fix: vertical section handles intervals across north
 and leaves the survey azimuths alone

---
 welleng/survey.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a6359b9..dfd5a1f 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1304,16 +1304,20 @@ class Survey:
             vertical_section_azimuth if not deg
             else math.radians(vertical_section_azimuth)
         )
-        azi_temp = getattr(
-            self,
-            f"azi_{self.azi_ref_lookup[self.header.azi_reference]}_rad"
+        azi_temp = np.where(
+            self.inc_rad == 0.0,
+            vertical_section_azimuth,
+            getattr(
+                self,
+                f"azi_{self.azi_ref_lookup[self.header.azi_reference]}_rad"
+            )
         )
-        azi_temp[np.where(self.inc_rad == 0.0)] = (
-            vertical_section_azimuth
+        # mean azimuth of each interval, turning the shortest way round
+        delta_azi = (
+            (azi_temp[1:] - azi_temp[:-1] + np.pi) % (2 * np.pi) - np.pi
         )
         result = np.cos(
-            vertical_section_azimuth
-            - (azi_temp[1:] + azi_temp[:-1]) / 2
+            vertical_section_azimuth - (azi_temp[:-1] + delta_azi / 2)
         ) * self.hypot
 
         result = np.cumsum(np.hstack(([0.0], result)))
-- 
2.43.0


From 9bbfe2ac834037c87583bafdf2f3fbfc6d66dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 03/89] fix: set_vertical_section stores the header azimuth in
 radians

---
 welleng/survey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index dfd5a1f..a3ebb3a 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1340,7 +1340,10 @@ class Survey:
             Indicates whether the vertical section azimuth parameter is in
             degrees or radians (True or False respectively).
         """
-        self.header.vertical_section_azimuth = vertical_section_azimuth
+        self.header.vertical_section_azimuth = (
+            math.radians(vertical_section_azimuth) if deg
+            else vertical_section_azimuth
+        )
         self.vertical_section = self.get_vertical_section(
             vertical_section_azimuth, deg
         )
-- 
2.43.0


From 37576104b104bb91a3d8aea81ce12b258865041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 04/89] fix: interpolation and maximum curvature leave the
 caller's survey header unchanged

---
 welleng/survey.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a3ebb3a..15f049c 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1504,7 +1504,7 @@ class Survey:
         survey_new[-1] = self.survey_deg[-1]
 
         # Update the new survey header as the new azimuth reference is 'grid'.
-        sh = self.header
+        sh = copy(self.header)
         sh.azi_reference = 'grid'
 
         # Create a new Survey instance
@@ -1896,7 +1896,7 @@ def _interpolate_survey(survey, x=0, index=0):
         )
     ).reshape(3, 3)
 
-    sh = survey.header
+    sh = copy(survey.header)
     sh.azi_reference = 'grid'
 
     s = Survey(
@@ -2912,13 +2912,17 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         for n in nodes
     ]).T
 
+    # the nodes' azimuths are relative to grid north
+    sh = copy(survey.header)
+    sh.azi_reference = 'grid'
+
     s_interp = Survey(
         md=md,
         inc=inc,
         azi=azi,
         interpolated=interpolated,
         deg=False,
-        header=survey.header
+        header=sh
     )
 
     return s_interp
-- 
2.43.0


From 82d64597ffbbc11c1f1f8f275ff4486d54ebf08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 05/89] fix: surveys derived from a survey in feet keep its
 unit

---
 welleng/survey.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 15f049c..372bf9f 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1514,7 +1514,8 @@ class Survey:
             azi=survey_new[:, 2],
             header=sh,
             start_xyz=self.start_xyz,
-            start_nev=self.start_nev
+            start_nev=self.start_nev,
+            unit=self.unit
         )
 
         # Update the interpolated property to keep track of the original survey
@@ -2601,7 +2602,8 @@ def func(x0, survey, dls_cont, tolerance):
         inc=inc,
         azi=azi,
         start_nev=nev[0],
-        header=survey.header
+        header=survey.header,
+        unit=survey.unit
     )
 
     s_nev = np.column_stack([s.n, s.e, s.tvd])
@@ -2775,7 +2777,8 @@ def interpolate_survey(survey, step=30, dls=1e-8):
         step=step,
         start_xyz=survey.start_xyz,
         survey_header=survey.header,
-        error_model=None
+        error_model=None,
+        depth_unit=survey.unit
     )
 
     survey_interpolated.interpolated = [
@@ -2922,7 +2925,8 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         azi=azi,
         interpolated=interpolated,
         deg=False,
-        header=sh
+        header=sh,
+        unit=survey.unit
     )
 
     return s_interp
@@ -3159,7 +3163,8 @@ class SurveyData:
             cov_nev=self.cov_nev,
             cov_hla=self.cov_hla,
             radius= self.radius,
-            header=self.header
+            header=self.header,
+            unit=self.header.depth_unit
         )
         return survey
 
-- 
2.43.0


From 796f268d118ff144a09068d39c7301b396c2d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 06/89] fix: interpolate_survey_tvd keeps the start position of
 the survey

---
 welleng/survey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 372bf9f..1682bc4 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2924,6 +2924,8 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         inc=inc,
         azi=azi,
         interpolated=interpolated,
+        start_nev=survey.start_nev,
+        start_xyz=survey.start_xyz,
         deg=False,
         header=sh,
         unit=survey.unit
-- 
2.43.0


From 4d87ef800fa3de6da228d9acc3c1e0a5bc51bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 07/89] fix: surveys with a magnetic azimuth reference can be
 spliced

---
 welleng/survey.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 1682bc4..d7275ee 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3104,15 +3104,18 @@ class SurveyData:
         self.header = survey.header
         self.md = survey.md
         self.inc = survey.inc_rad
-        self.azi = getattr(
-            survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
-        )
+        self.azi = self._get_azi(survey)
         self.start_nev = survey.start_nev
         self.start_xyz = survey.start_xyz
         self.cov_nev = survey.cov_nev
         self.cov_hla = survey.cov_hla
         self.radius = survey.radius
 
+    def _get_azi(self, survey):
+        # azimuths in the reference of the (first) survey's header
+        ref = survey.azi_ref_lookup[self.header.azi_reference]
+        return getattr(survey, f"azi_{ref}_rad")
+
     def append_survey(self, survey):
         """
         Method to extract data from a survey and append it to
@@ -3127,9 +3130,7 @@ class SurveyData:
         self.azi = np.hstack(
             (
                 self.azi,
-                getattr(
-                    survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
-                )[1:]
+                self._get_azi(survey)[1:]
             )
         )
         self.cov_nev = np.hstack(
-- 
2.43.0


From 58ad5a24670d76b083f721b246cf53b6be28318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 08/89] fix: sliced and control point surveys are told their
 azimuths are grid azimuths

---
 welleng/survey.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index d7275ee..5223b7c 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2104,6 +2104,10 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
     cov_hla = None if survey.cov_hla is None else survey.cov_hla[start:stop]
     cov_nev = None if survey.cov_nev is None else survey.cov_nev[start:stop]
 
+    # survey_rad holds grid azimuths
+    sh = copy(survey.header)
+    sh.azi_reference = 'grid'
+
     s = Survey(
         md=md,
         inc=inc,
@@ -2111,7 +2115,7 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
         n=n,
         e=e,
         tvd=tvd,
-        header=survey.header,
+        header=sh,
         radius=survey.radius[start:stop],
         cov_hla=cov_hla,
         cov_nev=cov_nev,
@@ -2597,12 +2601,16 @@ def func(x0, survey, dls_cont, tolerance):
     md, inc, azi, n, e, tvd, dls, tf, br, tr = data.T
     nev = np.column_stack([survey.n, survey.e, survey.tvd])
 
+    # control point azimuths are grid azimuths
+    sh = copy(survey.header)
+    sh.azi_reference = 'grid'
+
     s = Survey(
         md=md,
         inc=inc,
         azi=azi,
         start_nev=nev[0],
-        header=survey.header,
+        header=sh,
         unit=survey.unit
     )
 
-- 
2.43.0


From 56beee1f73e2361748f9808489c222a9fc7d7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 09/89] fix: slice_survey keeps the x, y, z position of the
 slice

---
 welleng/survey.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 5223b7c..187ede2 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2120,6 +2120,7 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
         cov_hla=cov_hla,
         cov_nev=cov_nev,
         start_nev=[n[0], e[0], tvd[0]],
+        start_xyz=[survey.x[start], survey.y[start], survey.z[start]],
         deg=False,
         unit=survey.unit,
     )
-- 
2.43.0


From fb57f58618531fafac56b2026f47119cf1dcae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 10/89] fix: adding the start covariance does not modify the
 caller's array

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 187ede2..e53b9d2 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -970,7 +970,7 @@ class Survey:
             self.start_cov_nev is not None
             and self.cov_nev is not None
         ):
-            self.cov_nev += self.start_cov_nev
+            self.cov_nev = self.cov_nev + self.start_cov_nev
             self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
 
     def _curvature_to_rate(self, curvature):
-- 
2.43.0


From 00e41e20640b7d41d84bd257a977386f04e4a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 11/89] fix: Survey.tortuosity_index honours dls_tol

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index e53b9d2..7fcc2de 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1434,7 +1434,7 @@ class Survey:
         """
 
         return tortuosity_index(
-            self, rtol=rtol, dls_tol=None, data=data, **kwargs
+            self, rtol=rtol, dls_tol=dls_tol, data=data, **kwargs
         )
 
     def directional_difficulty_index(self, **kwargs):
-- 
2.43.0


From 7254f09a049bdfc4411c3b94e8aa992ff0f8fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 12/89] fix: from_connections honours decimals

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 7fcc2de..2649cf4 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2689,7 +2689,7 @@ def from_connections(
     ]).T
 
     # remove duplicates
-    md, inc, azi = _remove_duplicates(md, inc, azi)
+    md, inc, azi = _remove_duplicates(md, inc, azi, decimals)
 
     if survey_header is None:
         survey_header = SurveyHeader(
-- 
2.43.0


From 1163171e2045b0421e843379705b0320f6b2b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 13/89] fix: nodes taken from a survey carry its covariance

---
 welleng/survey.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 2649cf4..7a9cd35 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1809,6 +1809,7 @@ def get_node(survey, idx, interpolated=False):
         md=survey.md[idx],
         unit=survey.unit,
         nev=True,
+        cov_nev=None if survey.cov_nev is None else survey.cov_nev[[idx]],
         interpolated=interpolated
     )
     return node
-- 
2.43.0


From e4a8038575f804031e88ddba02ca04e99e8c9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 14/89] fix: clearance surveys built from grid azimuths say so

---
 welleng/clearance.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 8de993c..875c5d0 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -1,6 +1,6 @@
 import numpy as np
 from numpy.linalg import norm
-from copy import deepcopy
+from copy import copy, deepcopy
 
 try:
     import trimesh
@@ -188,6 +188,9 @@ class Clearance:
                 )
             except (IndexError, AttributeError):
                 cov_nev, cov_hla = (None, None)
+            # grid azimuths are passed on
+            sh = copy(self.reference.header)
+            sh.azi_reference = 'grid'
             self.ref = Survey(
                 md=self.reference.md[self.kop_index:],
                 inc=self.reference.inc_rad[self.kop_index:],
@@ -197,7 +200,7 @@ class Clearance:
                 tvd=self.reference.tvd[self.kop_index:],
                 vec=self.reference.vec_nev[self.kop_index:],
                 radius=self.reference.radius[self.kop_index:],
-                header=self.reference.header,
+                header=sh,
                 cov_nev=cov_nev,
                 cov_hla=cov_hla,
                 error_model=None,
@@ -693,6 +696,10 @@ class IscwsaClearance(Clearance):
             for r in self.closest
         ])
 
+        # grid azimuths are passed on
+        sh = copy(self.offset.header)
+        sh.azi_reference = 'grid'
+
         self.off = Survey(
             md=md,
             inc=inc,
@@ -700,7 +707,7 @@ class IscwsaClearance(Clearance):
             n=n,
             e=e,
             tvd=tvd,
-            header=self.offset.header,
+            header=sh,
             error_model=None,
             cov_hla=cov_hla,
             cov_nev=cov_nev,
-- 
2.43.0


From f84438e2529ca0e70d998d24022e639477c0986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 15/89] fix: get_sf_mins works in feet and leaves the reference
 survey header unchanged

---
 welleng/clearance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 875c5d0..470a688 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -534,7 +534,7 @@ class IscwsaClearance(Clearance):
 
                 node = self.ref.interpolate_md(md)
 
-                sh = self.ref.header
+                sh = copy(self.ref.header)
                 sh.azi_reference = 'grid'
 
                 survey = Survey(
@@ -559,7 +559,8 @@ class IscwsaClearance(Clearance):
                     radius=np.insert(
                         self.ref.radius, i, self.ref.radius[i]
                     ),
-                    header=sh
+                    header=sh,
+                    unit=self.ref.unit
                 )
 
                 self.ref = survey
-- 
2.43.0


From 8cc80f1b03ab03092454d30acf4254d7a945c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 16/89] fix: MeshClearance passes sigma_pa to the well meshes

---
 welleng/clearance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 470a688..dccdacb 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -956,6 +956,7 @@ class MeshClearance(Clearance):
             survey=survey,
             n_verts=self.n_verts,
             sigma=self.sigma,
+            sigma_pa=self.sigma_pa,
             Sm=Sm,
         )
 
-- 
2.43.0


From 3136d08c032afa0fe705b30b6e54901e0df865e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 17/89] fix: a node without direction has azi_deg None

---
 welleng/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/node.py b/welleng/node.py
index cc1c9cb..6142367 100644
--- a/welleng/node.py
+++ b/welleng/node.py
@@ -97,7 +97,7 @@ class Node:
             self.inc_rad = None
             self.inc_deg = None
             self.azi_rad = None
-            self.azi_rad = None
+            self.azi_deg = None
             return
         elif vec is None:
             assert inc is not None and azi is not None, (
-- 
2.43.0


From ff47119b81b2ac5737300246087085f6bf35f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 18/89] fix: Arc.transform does not reverse the caller's vector

---
 welleng/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index ef36bdc..9ac032c 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -592,7 +592,7 @@ class Arc:
         if vec is None:
             vec = np.array([0., 0., 1.])
         if target:
-            vec *= -1
+            vec = np.array(vec) * -1
         inc, azi = get_angles(vec, nev=True).reshape(2)
         angles = [
             toolface,
-- 
2.43.0


From d545bf805d392b740ae225bb18744f85d6e9ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 19/89] fix: sliced_mesh default method is one WellMesh accepts

---
 welleng/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index 0d5080e..44a17ba 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -431,7 +431,7 @@ def sliced_mesh(
     start=0,
     stop=-1,
     step=1,
-    method="mesh_ellipse",
+    method="ellipse",
 ):
     """
     Generates a list of mesh objects of a user defined length.
-- 
2.43.0


From b0e6637a7c015e24552391482e30df3683e1c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 20/89] fix: torque and drag reads the string sections, not
 their keys

---
 welleng/torque_drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 6524a19..305e33b 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -196,7 +196,7 @@ class TorqueDrag:
     def get_weight_buoyed_and_radius(self):
         """Calculate buoyed weight and contact radius for each survey interval."""
         sections = self.string.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         delta_mds = self.survey.delta_md[1:]
         mask = mds <= self.string.bottom
@@ -212,7 +212,7 @@ class TorqueDrag:
     def get_coeff_friction_sliding(self):
         """Build an array of sliding friction coefficients mapped to survey stations."""
         sections = self.wellbore.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         mask = mds <= self.wellbore.bottom
         mds = mds[mask]
-- 
2.43.0


From 47b0a9ef27b14aa4851eff9c4d339e86c4bd0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 21/89] fix: torque uses the contact radius of the interval it
 is computed for

---
 welleng/torque_drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 305e33b..3b8a018 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -255,7 +255,7 @@ class TorqueDrag:
             self.azi_delta[:self.index][::-1],
             self.weight_buoyed[::-1],
             self.coeff_friction_sliding[:self.index][::-1],
-            self.radius
+            self.radius[::-1]
         ):
             (
                 inc_average, inc_delta, azi_delta, weight_buoyed,
-- 
2.43.0


From afc056fa8ff159aa80131d3f91343295cb97135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 22/89] fix: the torque and drag survey keeps unit and start
 position and leaves the original header unchanged

---
 welleng/torque_drag.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 3b8a018..d3d0932 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -1,6 +1,6 @@
 """Wellbore torque and drag calculations based on Johancsik et al. (SPE 11380-PA)."""
 
-from copy import deepcopy
+from copy import copy, deepcopy
 import numpy as np
 
 try:
@@ -136,11 +136,14 @@ class TorqueDrag:
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-        sh = self.survey_original.header
+        sh = copy(self.survey_original.header)
         sh.azi_reference = 'grid'
 
         self.survey = Survey(
-            md=md, inc=inc, azi=azi, header=sh, deg=False
+            md=md, inc=inc, azi=azi, header=sh, deg=False,
+            start_nev=self.survey_original.start_nev,
+            start_xyz=self.survey_original.start_xyz,
+            unit=self.survey_original.unit
         )
 
     def get_buoyancy_factors(self):
-- 
2.43.0


From 888eb45a91b9a3dd227c6cc7f6c5f262aab7fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 23/89] fix: sections can be added bottom up by top depth or up
 to the string top

---
 welleng/architecture.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index f626079..0e590d7 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -141,12 +141,10 @@ class String:
             top = bottom - kwargs.get('length')
             if top < self.top:
                 top = self.top
-                length = bottom - top
         elif bool(kwargs.get('top')):
-            length = bottom - kwargs.get('top')
+            top = kwargs.get('top')
         else:
             top = self.top
-            length = self.sections[0]['top']
 
         self.sections[temp] = {}
         self.sections[temp]['top'] = top
-- 
2.43.0


From f6774d13532520f8181423fd4847f8082c8de613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 24/89] fix: String.depth works for sections added without a
 length

---
 welleng/architecture.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 0e590d7..d6b3d5a 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -49,7 +49,11 @@ class String:
                     if k not in ['top', 'bottom', 'length', 'buoyancy_factor']
             }
             string_new.add_section(
-                length=self.sections[section]['length'], **params
+                length=(
+                    self.sections[section]['bottom']
+                    - self.sections[section]['top']
+                ),
+                **params
             )
             if string_new.sections[0]['top'] == self.top:
                 reached_top = True
-- 
2.43.0


From d21aadabc4f643f6df4d100c19036dba2f33eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 25/89] fix: dls_from_radius gives an infinite dls for zero
 radii in arrays too

---
 welleng/utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 9ac032c..ae30af2 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -448,17 +448,18 @@ def dls_from_radius(radius):
     Returns the dls in degrees from a radius.
     """
     if isinstance(radius, np.ndarray):
-        circumference = np.full_like(radius, np.inf)
-        circumference = np.where(
-            radius != 0,
-            2 * np.pi * radius,
-            circumference
-        )
+        circumference = 2 * np.pi * radius
+        with np.errstate(divide='ignore'):
+            dls = np.where(
+                radius != 0,
+                360 / circumference * 30,
+                np.inf
+            )
     else:
         if radius == 0:
             return np.inf
         circumference = 2 * np.pi * radius
-    dls = 360 / circumference * 30
+        dls = 360 / circumference * 30
 
     return dls
 
-- 
2.43.0


From 9b02004a250d2e23f8d7d96da89a6feed3769645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 26/89] fix: maximum_curvature uses deg/100ft for surveys in
 feet

---
 welleng/survey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 7a9cd35..db9cac7 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1471,6 +1471,9 @@ class Survey:
 
         dls_effective = self.dls + dls_noise
         radius_effective = radius_from_dls(dls_effective)
+        if self.unit != 'meters':
+            # the dls is in deg/100ft
+            radius_effective = radius_effective * 100 / 30
 
         dogleg1 = (
             (self.delta_md / radius_effective) / 2
-- 
2.43.0


From e9cf7b6fa8dce8beaaff59da70284c547b4861b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 27/89] fix: project_ahead and project_to_target use deg/100ft
 for surveys in feet

---
 welleng/survey.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index db9cac7..dc75b1b 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1215,7 +1215,8 @@ class Survey:
             delta_md=delta_md,
             dls=dls,
             toolface=toolface,
-            md=self.md[-1]
+            md=self.md[-1],
+            unit=self.unit
         )
 
         return node
@@ -2947,7 +2948,9 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
     return s_interp
 
 
-def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
+def project_ahead(
+    pos, vec, delta_md, dls, toolface, md=0.0, unit='meters'
+):
     """
     Apply a simple arc or hold from a current position and vector.
 
@@ -2966,14 +2969,18 @@ def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
         The desired toolface for the projection.
     md: float (optional)
         The current md if applicable.
+    unit: str (default: 'meters')
+        The length unit, either 'meters' (dls in deg/30m) or 'feet' (dls in
+        deg/100ft).
 
     Returns
     -------
     node: welleng.node.Node object
     """
     if dls > 0:
-        radius = radius_from_dls(dls)
-        dogleg = np.radians(delta_md / 30 * dls)
+        denominator = 30 if unit == 'meters' else 100
+        radius = radius_from_dls(dls) * denominator / 30
+        dogleg = np.radians(delta_md / denominator * dls)
 
         pos_temp = np.array([
             np.cos(dogleg),
@@ -3010,6 +3017,7 @@ def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
         pos=pos_new,
         vec=vec_new,
         md=md + delta_md,
+        unit=unit,
     )
 
     return node
@@ -3070,11 +3078,14 @@ def project_to_target(
             delta_md,
             dls,
             toolface,
-            survey.md[-1]
+            survey.md[-1],
+            survey.unit
         )
         node_bit.pos_nev, node_bit.pos_xyz = None, None
         connectors.append(
-            Connector(node_start, node_bit, dls_design=dls_design)
+            Connector(
+                node_start, node_bit, dls_design=dls_design, unit=survey.unit
+            )
         )
         node_bit = connectors[-1].node_end
     else:
@@ -3082,7 +3093,7 @@ def project_to_target(
 
     connectors.append(
         Connector(
-            node_bit, node_target, dls_design
+            node_bit, node_target, dls_design, unit=survey.unit
         )
     )
     survey_to_target = from_connections(
-- 
2.43.0


From 77c4cb0e5b6d2900474d316be4ec885e3b192f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 28/89] fix: project_to_target passes grid azimuths as grid and
 starts from the last x, y, z

---
 welleng/survey.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index dc75b1b..a8e6b82 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3096,10 +3096,15 @@ def project_to_target(
             node_bit, node_target, dls_design, unit=survey.unit
         )
     )
+    # the projected azimuths are relative to grid north
+    sh = copy(survey.header)
+    sh.azi_reference = 'grid'
+
     survey_to_target = from_connections(
         connectors,
         step=step,
-        survey_header=survey.header,
+        survey_header=sh,
+        start_xyz=survey.pos_xyz[-1],
         start_cov_nev=cov_nev,
         radius=survey.radius[-1], deg=False, error_model=survey.error_model,
         depth_unit=survey.header.depth_unit,
-- 
2.43.0


From 85a15a566e7d9f8f18d84d5c2e95e81c5fe7b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 29/89] fix: project_to_target passes dls_design by name (it
 landed in pos1)

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a8e6b82..5ace88f 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3093,7 +3093,7 @@ def project_to_target(
 
     connectors.append(
         Connector(
-            node_bit, node_target, dls_design, unit=survey.unit
+            node_bit, node_target, dls_design=dls_design, unit=survey.unit
         )
     )
     # the projected azimuths are relative to grid north
-- 
2.43.0


From f3985263d517da0866e2d464be33186a905f3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 30/89] fix: Connector.dls uses deg/100ft for connectors in
 feet

---
 welleng/connector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index ff4bb2c..2cca67a 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -453,7 +453,7 @@ class Connector:
         self.md2 = self.md1 + abs(self.dist_curve)
         self.md_target = self.md2 + self.tangent_length
         self.vec2 = self.vec_target
-        self.dls = np.degrees(self.dogleg) / abs(self.dist_curve) * 30
+        self.dls = np.degrees(self.dogleg) / abs(self.dist_curve) * self.denom
 
     def _min_curve_to_target(self):
         (
@@ -475,7 +475,7 @@ class Connector:
         )
         self._get_angles_target()
         self._get_md_target()
-        self.dls = np.degrees(self.dogleg) / self.dist_curve * 30
+        self.dls = np.degrees(self.dogleg) / self.dist_curve * self.denom
 
     def _use_method(self):
         if self.method == 'hold':
-- 
2.43.0


From 901f6620fe611219fe8c33b6b2943e938c55692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 31/89] fix: connector nodes keep the connector unit

---
 welleng/connector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 2cca67a..0cbcd90 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -418,12 +418,14 @@ class Connector:
         self.node_start = Node(
             pos=self.pos1.reshape(3),
             vec=self.vec1.reshape(3),
-            md=self.md1
+            md=self.md1,
+            unit=self.unit
         )
         self.node_end = Node(
             pos=self.pos_target.reshape(3),
             vec=self.vec_target.reshape(3),
-            md=self.md_target
+            md=self.md_target,
+            unit=self.unit
         )
 
     def _min_dist_to_target(self):
-- 
2.43.0


From 7c422285d211f3d650394acec276a778a08d4a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 32/89] fix: connect_points accepts an integer dls_design (it
 returned no connections)

---
 welleng/connector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 0cbcd90..9e278a7 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2393,7 +2393,7 @@ def connect_points(
         vec_nev = np.zeros_like(pos_nev)
         vec_nev[0] = get_nev(vec_start)
 
-    if type(dls_design) is float:
+    if np.ndim(dls_design) == 0:
         dls = np.full(len(pos_nev), dls_design)
     else:
         dls = np.array(dls_design).reshape(-1, 1)
-- 
2.43.0


From 237b423ba826bb4bcabb448b69706bb6bfd88117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 33/89] fix: survey_to_plan builds its trial survey with
 from_connections (Connector has no survey method)

---
 welleng/connector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 9e278a7..d8c7e34 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2483,6 +2483,8 @@ def survey_to_plan(survey, tolerance=0.2, dls_design=1., step=30.):
 def _get_section(
     survey, start, tolerance, dls_design=1., md=0., node=None
 ):
+    from .survey import from_connections
+
     idx = start + 2
     nev = survey.get_nev_arr()
 
@@ -2512,7 +2514,7 @@ def _get_section(
             node2=node_2,
             dls_design=dls_design
         )
-        s = c.survey(step=1.)
+        s = from_connections(c, step=1.)
         if c_old is None:
             c_old = deepcopy(c)
         nev_new = s.get_nev_arr()
-- 
2.43.0


From 03905a318c29f994dff0568f34cae7fe4205624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 34/89] fix: drop_off and extend_to_tvd leave the caller's node
 alone

---
 welleng/connector.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index d8c7e34..15edf27 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2595,7 +2595,7 @@ def drop_off(
             )
             return abs(inc - target_inc)
 
-    node = Node() if node is None else node
+    node = Node() if node is None else copy(node)
     node.md = 0 if node.md is None else node.md
     radius = radius_from_dls(dls)
     if isinstance(delta_md, np.ndarray):
@@ -2675,8 +2675,7 @@ def extend_to_tvd(
     ...     target_tvd=3200, node=node, target_inc=0, dls=3
     ... )
     """
-    if node is None:
-        node = Node()
+    node = Node() if node is None else copy(node)
     node.md = 0 if node.md is None else node.md  # default value is None which complicates things
     _delta_md = 1e-8 if delta_md is None else delta_md
     connections = []
-- 
2.43.0


From fdc42166956b4959ba578b49ddf2ff08846842e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 35/89] fix: connector perturbation is reproducible

---
 welleng/connector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 15edf27..4940675 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1276,7 +1276,8 @@ class Connector:
         return tangent_temp
 
     def _mod_pos(self, pos):
-        pos_rand = np.random.random(3)  # * self.delta_radius
+        # seeded, so that the same inputs always give the same path
+        pos_rand = np.random.default_rng(0).random(3)  # * self.delta_radius
         pos += pos_rand
 
     def _get_distances(self, pos1, vec1, pos_target):
-- 
2.43.0


From f858308fb7e9c41068ef4bb7598c8c7860a8b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 36/89] fix: ABIZ azimuth weight divides by G instead of
 multiplying by it

---
 welleng/errors/tool_errors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index ea036c2..907a874 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -479,8 +479,9 @@ def DST(
 def ABIZ(
     code, error, mag=0.0040, propagation='systematic', NEV=True, **kwargs
 ):
-    denom = _funky_denominator(error) / error.survey.header.G
+    denom = _funky_denominator(error)
     denom = np.where(denom > ACCURACY, denom, ACCURACY)
+    denom = denom * error.survey.header.G
 
     dpde = np.zeros((len(error.survey_rad), 3))
     dpde[:, 1] = -sin(error.survey.inc_rad) / error.survey.header.G
-- 
2.43.0


From ade718d8b8bf07839bb7e079083d6cdccb743f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 37/89] fix: JSON terms with Well propagation are propagated as
 within_pad (their model raised AttributeError)

---
 welleng/errors/conformance.py | 2 +-
 welleng/errors/tool_errors.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/conformance.py b/welleng/errors/conformance.py
index ddc9147..cc6bd2d 100644
--- a/welleng/errors/conformance.py
+++ b/welleng/errors/conformance.py
@@ -31,7 +31,7 @@ PROP_MODE_REVERSE = {
     "Random": "random",
     "Systematic": "systematic",
     "Global": "global",
-    "Well": "well",
+    "Well": "within_pad",
 }
 
 
diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 907a874..bf95a72 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -18,7 +18,7 @@ _JSON_PROP_TO_LEGACY = {
     "Random": "random",
     "Systematic": "systematic",
     "Global": "global",
-    "Well": "well",
+    "Well": "within_pad",
 }
 
 
-- 
2.43.0


From 5a47434b3c00c82d7233813f3dc0299f3079843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 38/89] fix: convert deg.nT and deg/sqr(hr) magnitudes of JSON
 models to radians

---
 welleng/errors/conformance.py | 2 ++
 welleng/errors/tool_errors.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/welleng/errors/conformance.py b/welleng/errors/conformance.py
index cc6bd2d..fe612f9 100644
--- a/welleng/errors/conformance.py
+++ b/welleng/errors/conformance.py
@@ -46,6 +46,8 @@ _MAG_UNIT_TO_BASE = {
     "deg": np.pi / 180.0,
     "deg/hr": np.pi / 180.0,
     "deg/nT": np.pi / 180.0,
+    "deg.nT": np.pi / 180.0,
+    "deg/sqr(hr)": np.pi / 180.0,
     "-": 1.0, "": 1.0,
 }
 
diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index bf95a72..59fd283 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -36,6 +36,8 @@ _MAG_UNIT_TO_BASE = {
     "deg":     np.pi / 180.0,  # angle: degrees -> radians
     "deg/hr":  np.pi / 180.0,  # gyro rate: deg/hr -> rad/hr
     "deg/nT":  np.pi / 180.0,  # B-field-coupled angle gradient
+    "deg.nT":  np.pi / 180.0,  # as spelled by the shipped models
+    "deg/sqr(hr)": np.pi / 180.0,  # gyro random walk
     "-":       1.0,            # dimensionless (scale factors)
     "":        1.0,            # missing unit treated as dimensionless
 }
-- 
2.43.0


From a5ce9dce35557b141fb2edfb814b111da6a247e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 39/89] fix: bind both spellings of the field strengths used by
 the shipped formulas (MFI and ABIXY terms were dropped)

---
 welleng/errors/conformance.py | 2 ++
 welleng/errors/tool_errors.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/welleng/errors/conformance.py b/welleng/errors/conformance.py
index fe612f9..be806fd 100644
--- a/welleng/errors/conformance.py
+++ b/welleng/errors/conformance.py
@@ -75,8 +75,10 @@ def _bindings_from_survey(survey) -> dict[str, Any]:
         "Az": np.asarray(survey.azi_grid_rad, dtype=float),
         "TVD": np.asarray(survey.tvd, dtype=float),
         "Gfield": float(survey.header.G),
+        "GField": float(survey.header.G),
         "Dip": float(survey.header.dip),
         "BField": float(survey.header.b_total or 50000.0),
+        "Bfield": float(survey.header.b_total or 50000.0),
         "EarthRate": 0.262516,            # rad/hr (~ 15.041 deg/hr)
         "Latitude": np.radians(float(survey.header.latitude or 0.0)),
         "RAD": np.pi / 180.0,             # used in some singularity formulas
diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 59fd283..10f62cc 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -314,8 +314,10 @@ class ToolError:
             "Az": np.asarray(survey.azi_grid_rad, dtype=float),
             "TVD": np.asarray(survey.tvd, dtype=float),
             "Gfield": float(survey.header.G),
+            "GField": float(survey.header.G),
             "Dip": float(survey.header.dip),
             "BField": float(survey.header.b_total or 50000.0),
+            "Bfield": float(survey.header.b_total or 50000.0),
             # EarthRate is needed by gyro-azimuth terms; standard value
             # in rad/hr (15.041 deg/hr).
             "EarthRate": 0.262516,
-- 
2.43.0


From 5ed38ca8d5dfa3ddf21da95dc0fc042d2a805053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 40/89] fix: CNA near vertical uses the same azimuth as the
 Jacobian (magnetic-reference surveys raised AttributeError)

---
 welleng/errors/tool_errors.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 10f62cc..6d879f1 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -942,16 +942,12 @@ def CNA(
         e_NEV = error._e_NEV(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * -sin(error.drdp_sing['azi2'])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * cos(error.drdp_sing['azi2'])
             * mag
         )
         v = np.zeros_like(n)
@@ -967,16 +963,12 @@ def CNA(
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * -sin(error.drdp_sing['azi2'])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * cos(error.drdp_sing['azi2'])
             * mag
         )
         e_NEV_star_sing = np.vstack(
-- 
2.43.0


From 937e4d3c6d10dde8876052dda8bad8ec9022a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 41/89] fix: XYM3E inclination weight keeps the sign of
 cos(azimuth), as XYM3 and XYM3L do

---
 welleng/errors/tool_errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 6d879f1..d0db7f5 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1437,8 +1437,8 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     ), axis=-1), axis=-1)
 
     dpde = np.zeros((len(error.survey.md), 3))
-    dpde[1:, 1] = np.absolute(
-        cos(error.survey.inc_rad[1:])
+    dpde[1:, 1] = (
+        np.absolute(cos(error.survey.inc_rad[1:]))
         * cos(error.survey.azi_true_rad[1:])
         * coeff[1:]
     )
-- 
2.43.0


From 8c632d5b3465b521ec7c96c7d4e8f59d82419d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 42/89] fix: XYM3E/XYM4E near vertical use the north/east
 singularity weights (they vanished at azimuth 90)

---
 welleng/errors/tool_errors.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index d0db7f5..e071453 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1467,13 +1467,17 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
         return error._generate_error(code, e_DIA, propagation, NEV)
     else:
         e_NEV = error._e_NEV(e_DIA)
+        delta_md = np.diff(error.survey.md)
         e_NEV_sing = np.zeros_like(e_NEV)
-        e_NEV_sing[:, 0] = e_NEV[:, 0]
-        e_NEV[sing] = e_NEV_sing[sing]
-
+        e_NEV_sing[1:, 0] = coeff[1:] * delta_md / 2 * mag
+        e_NEV_sing[1:-1, 0] += coeff[1:-1] * delta_md[1:] / 2 * mag
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV_star)
-        e_NEV_star_sing[:, 0] = e_NEV_star[:, 0]
+        e_NEV_star_sing[1:, 0] = coeff[1:] * delta_md / 2 * mag
+        # full first interval at station 1, as for the other terms
+        e_NEV_sing[1, 0] += coeff[1] * delta_md[0] / 2 * mag
+        e_NEV_star_sing[1, 0] *= 2
+        e_NEV[sing] = e_NEV_sing[sing]
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
-- 
2.43.0


From 82445b69f462d7b3fa3bd841cd4825f08551c780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 43/89] fix: XYM3L uses station 1's own coefficient for its
 near-vertical error

---
 welleng/errors/tool_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index e071453..4ff5262 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1784,7 +1784,7 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
             * mag
         )
         e_NEV_sing[1, 0] = (
-            coeff[1]
+            coeff[0]
             * (
                 error.survey.md[2] + error.survey.md[1]
                 - 2 * error.survey.md[0]
-- 
2.43.0


From dad5f3e310f734f64307a098ff2e43f07ca3f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 44/89] fix: XYM3L/XYM4L near-vertical end-station errors carry
 the short-interval coefficient like the interval errors

---
 welleng/errors/tool_errors.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 4ff5262..fc8ec48 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1805,7 +1805,8 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
         e_NEV_star_sing[1:, 0] = (
-            (
+            coeff
+            * (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
@@ -1814,7 +1815,8 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         # Rev 5.11 "funny stuff": at SING station 1 the workbook uses the full
         # first interval, not the halved value (see ABXY precedent at line ~409).
         e_NEV_star_sing[1, 0] = (
-            (error.survey.md[1] - error.survey.md[0])
+            coeff[0]
+            * (error.survey.md[1] - error.survey.md[0])
             * mag
         )
 
@@ -1898,14 +1900,16 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
         e_NEV_star_sing[1:, 1] = (
-            (
+            coeff[1:]
+            * (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
             * mag
         )
         e_NEV_star_sing[1, 1] = (
-            (
+            coeff[1]
+            * (
                 error.survey.md[1]
                 - error.survey.md[0]
             )
-- 
2.43.0


From 6fb85b0108e4e942a600ec162355b2818d14f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 45/89] fix: resolve JSON models by Short Name (floating-rig
 gyro models were not found, and fixed-rig ones depended on directory order)

---
 welleng/errors/tool_errors.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index fc8ec48..a234483 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -58,18 +58,18 @@ def _resolve_json_model(model_name: str) -> str | None:
     if not os.path.isdir(json_root):
         return None
     # Cheap path: filename matches model name directly.
-    for sub in os.listdir(json_root):
+    for sub in sorted(os.listdir(json_root)):
         sub_p = os.path.join(json_root, sub)
         if os.path.isdir(sub_p):
             cand = os.path.join(sub_p, f"{model_name}.json")
             if os.path.isfile(cand):
                 return cand
     # Fallback: walk every JSON, peek metadata for matching id / short_name.
-    for sub in os.listdir(json_root):
+    for sub in sorted(os.listdir(json_root)):
         sub_p = os.path.join(json_root, sub)
         if not os.path.isdir(sub_p):
             continue
-        for fn in os.listdir(sub_p):
+        for fn in sorted(os.listdir(sub_p)):
             if not fn.endswith(".json"):
                 continue
             path = os.path.join(sub_p, fn)
@@ -175,7 +175,12 @@ class ToolError:
         # default), so we walk the iscwsa_json/ tree looking at both
         # the OWSG prefix and the metadata.short_name of each JSON.
         yaml_filename = os.path.join(PATH, 'tool_codes', f"{model}.yaml")
-        json_filename = _resolve_json_model(model)
+        # The Short Name identifies one file; the OWSG prefix is shared by a
+        # model and its floating-rig variant.
+        json_filename = (
+            _resolve_json_model(error.error_model)
+            or _resolve_json_model(model)
+        )
 
         self._json_path = None
         if os.path.isfile(yaml_filename):
-- 
2.43.0


From 8dc07a81c8fc69c42f87d245258cd90159b57e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 46/89] fix: models without a tortuosity in their header use
 the default (INC-ONLY models raised TypeError)

---
 welleng/errors/tool_errors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index a234483..cfbce60 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -212,7 +212,8 @@ class ToolError:
             # TODO use pint to handle this string inputs
             self.tortuosity = (np.radians(1.) / 100) * 3.281
         else:
-            self.tortuosity = None
+            # same default as the JSON models (1 deg / 100 ft)
+            self.tortuosity = 0.000572615
 
         # if model == "iscwsa_mwd_rev5":
         # if model == "ISCWSA MWD Rev5":
-- 
2.43.0


From d8c8b19a67a659fdc2962a6cf96bd6b041579efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 47/89] fix: near-vertical errors include the last half
 interval at the last station

---
 welleng/errors/tool_errors.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index cfbce60..244e347 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -626,6 +626,13 @@ def ABIXY_TI2(
                 np.zeros((1, 3))
             )
         )
+        half_delta_md = 0.5 * (error.survey.md[-1] - error.survey.md[-2])
+        e_NEV_star_sing[-1, 0] = (
+            half_delta_md * -sin(error.survey.azi_true_rad[-1]) * mag / error.survey.header.G
+        )
+        e_NEV_star_sing[-1, 1] = (
+            half_delta_md * cos(error.survey.azi_true_rad[-1]) * mag / error.survey.header.G
+        )
 
         e_NEV_star_sing[1, 1] = (
             (error.survey.md[1] - error.survey.md[0])
@@ -712,6 +719,13 @@ def ABXY_TI2(
                 np.zeros((1, 3))
             )
         )
+        half_delta_md = 0.5 * (error.survey.md[-1] - error.survey.md[-2])
+        e_NEV_star_sing[-1, 0] = (
+            half_delta_md * -sin(error.survey.azi_true_rad[-1]) * mag / error.survey.header.G
+        )
+        e_NEV_star_sing[-1, 1] = (
+            half_delta_md * cos(error.survey.azi_true_rad[-1]) * mag / error.survey.header.G
+        )
         if error.error_model.lower().split(' ')[-1] != 'rev4':
             e_NEV_star_sing[1, 1] = (
                 (error.survey.md[1] - error.survey.md[0])
@@ -984,6 +998,13 @@ def CNA(
                 np.zeros((1, 3))
             )
         )
+        half_delta_md = 0.5 * (error.survey.md[-1] - error.survey.md[-2])
+        e_NEV_star_sing[-1, 0] = (
+            half_delta_md * -sin(error.survey.azi_true_rad[-1]) * mag
+        )
+        e_NEV_star_sing[-1, 1] = (
+            half_delta_md * cos(error.survey.azi_true_rad[-1]) * mag
+        )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
@@ -1420,6 +1441,10 @@ def XYM3(
                 np.zeros((1, 3))
             )
         )
+        half_delta_md = 0.5 * (error.survey.md[-1] - error.survey.md[-2])
+        e_NEV_star_sing[-1, 0] = (
+            half_delta_md * mag
+        )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
@@ -1542,6 +1567,10 @@ def XYM4(
                 np.zeros((1, 3))
             )
         )
+        half_delta_md = 0.5 * (error.survey.md[-1] - error.survey.md[-2])
+        e_NEV_star_sing[-1, 1] = (
+            half_delta_md * mag
+        )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
-- 
2.43.0


From 7e57ff447d9ddc0113e5522b5fab223dcee374c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 48/89] fix: two-station vertical surveys raised IndexError in
 the near-vertical branch of ABXY_TI2, ABIXY_TI2, XYM3L and XYM4L

---
 welleng/errors/tool_errors.py | 58 +++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 244e347..8b17712 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -598,15 +598,16 @@ def ABIXY_TI2(
             )
         )
 
-        e_NEV_sing[1, 1] = (
-            (
-                error.survey.md[2]
-                + error.survey.md[1]
-                - 2 * error.survey.md[0]
-            ) / 2
-            * mag * cos(error.survey.azi_true_rad[1])
-            / error.survey.header.G
-        )
+        if len(error.survey.md) > 2:
+            e_NEV_sing[1, 1] = (
+                (
+                    error.survey.md[2]
+                    + error.survey.md[1]
+                    - 2 * error.survey.md[0]
+                ) / 2
+                * mag * cos(error.survey.azi_true_rad[1])
+                / error.survey.header.G
+            )
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
@@ -690,7 +691,10 @@ def ABXY_TI2(
                 np.zeros((1, 3))
             )
         )
-        if error.error_model.lower().split(' ')[-1] != 'rev4':
+        if (
+            error.error_model.lower().split(' ')[-1] != 'rev4'
+            and len(error.survey.md) > 2
+        ):
             e_NEV_sing[1, 1] = (
                 (
                     error.survey.md[2]
@@ -1818,14 +1822,15 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
             ) / 2
             * mag
         )
-        e_NEV_sing[1, 0] = (
-            coeff[0]
-            * (
-                error.survey.md[2] + error.survey.md[1]
-                - 2 * error.survey.md[0]
-            ) / 2
-            * mag
-        )
+        if len(error.survey.md) > 2:
+            e_NEV_sing[1, 0] = (
+                coeff[0]
+                * (
+                    error.survey.md[2] + error.survey.md[1]
+                    - 2 * error.survey.md[0]
+                ) / 2
+                * mag
+            )
         e_NEV_sing[-1, 0] = (
             coeff[-1]
             * (
@@ -1913,14 +1918,15 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
             ) / 2
             * mag
         )
-        e_NEV_sing[1, 1] = (
-            coeff[1]
-            * (
-                error.survey.md[2] + error.survey.md[1]
-                - 2 * error.survey.md[0]
-            ) / 2
-            * mag
-        )
+        if len(error.survey.md) > 2:
+            e_NEV_sing[1, 1] = (
+                coeff[1]
+                * (
+                    error.survey.md[2] + error.survey.md[1]
+                    - 2 * error.survey.md[0]
+                ) / 2
+                * mag
+            )
         e_NEV_sing[-1, 1] = (
             coeff[-1]
             * (
-- 
2.43.0


From 495d8a3d869edf0f19173d2804e28b53c81f5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 49/89] fix: JSON models use their near-vertical expressions
 (gyro film models gave NaN covariances in vertical hole)

---
 welleng/errors/tool_errors.py | 37 ++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 8b17712..678ee35 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -312,6 +312,8 @@ class ToolError:
         """
         survey = self.e.survey
         n = len(survey.md)
+        sing = survey.inc_rad < survey.header.vertical_inc_limit
+        weights_sing = None
         bindings = {
             "MD": np.asarray(survey.md, dtype=float),
             "Inc": np.asarray(survey.inc_rad, dtype=float),
@@ -334,6 +336,18 @@ class ToolError:
             d = evaluate_formula(term["depth_formula"], bindings)
             i = evaluate_formula(term["inclination_formula"], bindings)
             a = evaluate_formula(term["azimuth_formula"], bindings)
+            expressions = [
+                term.get(f"{axis}_singularity")
+                for axis in ("north", "east", "vertical")
+            ]
+            if np.any(sing) and any(x is not None for x in expressions):
+                weights_sing = np.column_stack([
+                    np.broadcast_to(np.asarray(evaluate_formula(
+                        0 if x is None else x,
+                        {**bindings, "Az": self.e.survey_rad[:, 2]}
+                    ), dtype=float), (n,))
+                    for x in expressions
+                ])
         except Exception as exc:
             # Term references variables the interpreter doesn't know how
             # to bind -- typically cross-station refs (MDPrev/AzPrev/
@@ -367,8 +381,29 @@ class ToolError:
         # values, so this conversion only fires for JSON-driven tools.
         unit = term.get("units") or term.get("unit") or "-"
         scale = _MAG_UNIT_TO_BASE.get(unit, 1.0)
+        if weights_sing is None:
+            e_DIA = dpde * (mag * scale)
+            return self.e._generate_error(code, e_DIA, propagation, NEV=True)
+
+        # The azimuth sensitivity is singular in vertical hole: use the
+        # term's north, east and vertical expressions for those stations.
+        dpde[sing] = 0.
         e_DIA = dpde * (mag * scale)
-        return self.e._generate_error(code, e_DIA, propagation, NEV=True)
+        half_above = np.zeros((n, 1))
+        half_above[1:, 0] = np.diff(survey.md) / 2
+        half_below = np.zeros((n, 1))
+        half_below[:-1] = half_above[1:]
+        e_NEV = self.e._e_NEV(e_DIA)
+        e_NEV[sing] = (
+            weights_sing * mag * scale * (half_above + half_below)
+        )[sing]
+        e_NEV[0] = 0.
+        e_NEV_star = self.e._e_NEV_star(e_DIA)
+        e_NEV_star[sing] = (weights_sing * mag * scale * half_above)[sing]
+        return self.e._generate_error(
+            code, e_DIA, propagation, NEV=True, e_NEV=e_NEV,
+            e_NEV_star=e_NEV_star
+        )
 
     def _initiate_func_dict(self):
         """
-- 
2.43.0


From 4e8a700e91d8726d0768c42d8ea0cf3ad2d99148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 50/89] fix: fluid volumes reproduce the given density
 (weighting material displaces fluid, not base fluid)

---
 welleng/fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index b33ae53..1bca6fb 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -130,7 +130,7 @@ class Fluid:
         volume_weighting_material = (
             self.density_fluid_reference
             - self.base_fluid_density_reference
-        ) / self.density_weighting_material
+        ) / (self.density_weighting_material - self.density_fluid_reference)
 
         volume_total = 1 + volume_weighting_material
 
-- 
2.43.0


From e939564b2ab285e3185100a03a082c21e07c4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:34 +0000
Subject: [PATCH 51/89] fix: get_density_profile accepts a list of temperatures
 as documented

---
 welleng/fluid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index 1bca6fb..c9c0238 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -238,6 +238,7 @@ class Fluid:
 
         # Convert to (n) array to manage single float or list/array
         depth = np.array([depth]).reshape(-1)
+        temperature = np.array([temperature]).reshape(-1)
         with np.errstate(invalid='ignore'):
             temperature_thermal_gradient = np.nan_to_num((
                 temperature - self.temp_reference
-- 
2.43.0


From 47a449e1e3942f4d98a0e925ddaf9cc1bb1a0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 52/89] fix: azimuth change across north taken the short way in
 torque and drag

---
 welleng/torque_drag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index d3d0932..adf5b24 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -172,9 +172,9 @@ class TorqueDrag:
     def get_azi_delta(self):
         """Calculate the azimuth change between consecutive survey stations."""
         self.azi_delta = np.zeros_like(self.survey.azi_grid_rad)
-        self.azi_delta[1:] = (
-            self.survey.azi_grid_rad[1:] - self.survey.azi_grid_rad[:-1]
-        )
+        delta = self.survey.azi_grid_rad[1:] - self.survey.azi_grid_rad[:-1]
+        # the short way round when the well crosses north
+        self.azi_delta[1:] = (delta + np.pi) % (2 * np.pi) - np.pi
 
     def get_characteristic_od(self, section):
         """Return the effective outer diameter for a string section.
-- 
2.43.0


From 4bd9f7ea986a4d86d9b068a2ab5c8e4119f25af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 53/89] fix: a rejected section is not left in the string

---
 welleng/architecture.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index d6b3d5a..9c1e6a4 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -87,24 +87,26 @@ class String:
             temp = len(self.sections)
             top = self.sections[temp - 1]['bottom']
 
-        self.sections[temp] = {}
-        self.sections[temp]['top'] = top
+        # work on a copy so that a rejected section isn't left in the string
+        sections = dict(self.sections)
+        sections[temp] = {}
+        sections[temp]['top'] = top
 
         # add the section to the sections dict
         for k, v in kwargs.items():
-            self.sections[temp][k] = v
+            sections[temp][k] = v
 
         # sort the dict on depth of tops
-        self.sections = {
+        sections = {
             k: v
             for k, v in sorted(
-                self.sections.items(), key=lambda item: item[1]['top']
+                sections.items(), key=lambda item: item[1]['top']
             )
         }
 
         # re-index the keys
         temp = {}
-        for i, (k, v) in enumerate(self.sections.items()):
+        for i, (k, v) in enumerate(sections.items()):
             temp[i] = v
 
         # check inputs
@@ -150,25 +152,27 @@ class String:
         else:
             top = self.top
 
-        self.sections[temp] = {}
-        self.sections[temp]['top'] = top
-        self.sections[temp]['bottom'] = bottom
+        # work on a copy so that a rejected section isn't left in the string
+        sections = dict(self.sections)
+        sections[temp] = {}
+        sections[temp]['top'] = top
+        sections[temp]['bottom'] = bottom
 
         # add the section to the sections dict
         for k, v in kwargs.items():
-            self.sections[temp][k] = v
+            sections[temp][k] = v
 
         # sort the dict on depth of tops
-        self.sections = {
+        sections = {
             k: v
             for k, v in sorted(
-                self.sections.items(), key=lambda item: item[1]['bottom']
+                sections.items(), key=lambda item: item[1]['bottom']
             )
         }
 
         # re-index the keys
         temp = {}
-        for i, (k, v) in enumerate(self.sections.items()):
+        for i, (k, v) in enumerate(sections.items()):
             temp[i] = v
 
         # check inputs
-- 
2.43.0


From 08ce27bb1a3c06e4a7e14a29e0d2144ccca9dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 54/89] fix: a section whose bottom is above its top is
 rejected

---
 welleng/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 9c1e6a4..a6b2e60 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -115,7 +115,7 @@ class String:
                 assert v['top'] == self.top
             else:
                 assert v['top'] == temp[k - 1]['bottom']
-            assert v['bottom'] <= self.bottom
+            assert v['top'] <= v['bottom'] <= self.bottom
 
         if temp[len(temp) - 1]['bottom'] == self.bottom:
             self.complete = True
@@ -182,7 +182,7 @@ class String:
                 assert v['bottom'] == self.bottom
             else:
                 assert v['bottom'] == temp[k + 1]['top']
-            assert v['top'] >= self.top
+            assert self.top <= v['top'] <= v['bottom']
 
         if temp[0]['top'] == self.top:
             self.complete = True
-- 
2.43.0


From 4dfa5b602a0c6fe01043624972ba1fbeb8bc39f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 55/89] fix: each wbp target has its own geometry (they all
 shared the default one)

---
 welleng/exchange/wbp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 0a781e4..01f96f3 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -1,4 +1,5 @@
 import os
+from copy import copy, deepcopy
 import yaml
 from ..survey import (
     TurnPoint,
@@ -55,7 +56,7 @@ class Target:
     ):
         self.name = name
         self.location = location
-        self.geometry = geometry
+        self.geometry = deepcopy(geometry)
 
 
 class SurveyPoint:
-- 
2.43.0


From 7d4a6af8fe904ef8d3e64e9227b0103402acd169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 56/89] fix: a well plan keeps its own list of targets

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 01f96f3..cbcf825 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -177,7 +177,7 @@ class WellPlan:
 
         self.depth_unit = depth_unit
         self.surface_unit = surface_unit
-        self.targets = targets
+        self.targets = list(targets)
         if line is None:
             self.lines = 0
         else:
-- 
2.43.0


From 3c6753acd37d659d1f537be6b601beafa7182a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 57/89] fix: a loaded well plan without sidetrack id can be
 exported

---
 welleng/exchange/wbp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index cbcf825..a64581e 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -479,6 +479,7 @@ def add_header(doc, data):
     d = data.wbp_dict['LOCATION']
     ignored_integer_1 = "   0"
     ignored_integer_2 = " 123"
+    sidetrack_id = "" if data.sidetrack_id is None else data.sidetrack_id
     plan_name = "" if data.plan_name is None else data.plan_name
     parent_name = "" if data.parent_name is None else data.parent_name
     doc.append((
@@ -489,7 +490,7 @@ def add_header(doc, data):
         f"{get_key(d['dirty_flag'], data.dirty_flag)}"
         f"{ignored_integer_1}"
         f"{ignored_integer_2}"
-        f" {data.sidetrack_id:>7}"
+        f" {sidetrack_id:>7}"
         f" {plan_name:<60}"
         f" {parent_name:<60}"
         f" {data.dls:>6.2f}"
-- 
2.43.0


From bb36477dc6cf695e8f14af62f759fa92c1e13f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 58/89] fix: well plans with a parent file read its surface
 location (np.float is gone)

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index a64581e..1538b61 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -224,7 +224,7 @@ class WellPlan:
             for line in self.parent_data:
                 if "L:" in line:
                     code, e, n, v = line.split()
-                    self.surface_datum = np.array([e, n, v]).astype(np.float)
+                    self.surface_datum = np.array([e, n, v]).astype(float)
                     break
         else:
             self.surface_datum = np.array([
-- 
2.43.0


From 34281e94dc64c0d08fd03fd2bc03e486e1cd73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 59/89] fix: strip_duplicates leaves the header of the survey
 alone

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 1538b61..619a076 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -781,7 +781,7 @@ def strip_duplicates(survey):
         else:
             temp.append(s)
 
-    sh = survey.header
+    sh = copy(survey.header)
     sh.azi_reference = 'grid'
 
     md, inc, azi, radius = np.array(temp).reshape(-1, 4).T
-- 
2.43.0


From 4595fd9bdb0de77cd8304f04dcce4fd4050baf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 60/89] fix: strip_duplicates keeps unit and x, y, z start of
 the survey

---
 welleng/exchange/wbp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 619a076..5942f4b 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -792,8 +792,10 @@ def strip_duplicates(survey):
         azi=azi,
         deg=False,
         start_nev=survey.start_nev,
+        start_xyz=survey.start_xyz,
         radius=radius,
         header=sh,
+        unit=survey.unit,
     )
 
     return survey_stripped
-- 
2.43.0


From 2cfad84e5116e1782953b1aebaee06dcfce10362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 61/89] fix: strip_duplicates keeps stations that differ in
 depth or azimuth only

---
 welleng/exchange/wbp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 5942f4b..d010e8e 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -775,8 +775,7 @@ def strip_duplicates(survey):
         if i == 0:
             temp.append(s)
             continue
-        # if s == temp[-1]:
-        if s[1] == temp[-1][1]:
+        if np.allclose(s[:3], temp[-1][:3]):
             continue
         else:
             temp.append(s)
-- 
2.43.0


From 55527b72fe6a8714a175372bd7c4225c5a3a8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 62/89] fix: wbp_to_survey builds its survey from the
 connections (it raised AttributeError)

---
 welleng/exchange/wbp.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index d010e8e..df4b9ed 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -718,11 +718,6 @@ def wbp_to_survey(
 
     start_nev = np.array(pos[0])
 
-    survey_data = from_connections(
-        connections,
-        step=step
-    )
-
     lat, lon = utm.to_latlon(
         start_nev[1],
         start_nev[0],
@@ -738,10 +733,11 @@ def wbp_to_survey(
         convergence=convergence,
     )
 
+    # the connections are positioned already, so no start_nev is added
     survey = from_connections(
-        survey_data,
+        connections,
+        step=step,
         survey_header=sh,
-        start_nev=start_nev,
         radius=radius,
         deg=False
     )
-- 
2.43.0


From 1aaa7c3020d14742ce0f7916cef797ccee3602a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 63/89] fix: the geometry record of a wbp target can be read
 (it raised AttributeError)

---
 welleng/exchange/wbp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index df4b9ed..f3b136f 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -297,9 +297,9 @@ class WellPlan:
 
     def _add_target_geometry(self, data):
         tg = self.targets[-1].geometry
-        tg.type = self.wbp_dict['TARGETS']['type'][data[2]]
-        tg.locked = data[3]
-        tg.offset = [float(data[4:13], float(data[13:23]))]
+        tg['type'] = self.wbp_dict['TARGETS']['type'][data[2]]
+        tg['locked'] = data[3]
+        tg['offset'] = [float(data[4:13]), float(data[13:23])]
 
     def _add_target_color(self, data):
         tgc = self.targets[-1].geometry['color']
-- 
2.43.0


From 7f3c8404aaaf0ca7c8fb858e9d43b1c5059fe212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 64/89] fix: a target without color is exported without color
 record (C:None cannot be loaded)

---
 welleng/exchange/wbp.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index f3b136f..d25aad6 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -457,10 +457,9 @@ def add_targets(doc, targets):
     for t in targets:
         doc.append(f"T:{t.name}")
         doc = add_location(doc, t.location)
-        doc.append((
-            f"C:"
-            f"{str(t.geometry['color']['color']).rjust(3)}"
-        ))
+        color = t.geometry['color']['color']
+        if color is not None:
+            doc.append(f"C:{str(color).rjust(3)}")
     return doc
 
 
-- 
2.43.0


From e31c61b01d174366d25b293c273a03ff732f00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 65/89] fix: a well plan in feet becomes a survey in feet
 (wbp_to_survey took it for meters)

---
 welleng/exchange/wbp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index d25aad6..f1cc31b 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -703,6 +703,7 @@ def wbp_to_survey(
             inc2=s.inc,
             azi2=s.azi,
             dls_design=dls_design,
+            unit=data.depth_unit,
         )
         if isinstance(s, TurnPoint):
             dls.append(s.dls)
@@ -730,6 +731,8 @@ def wbp_to_survey(
         altitude=start_nev[-1] * -1,
         azi_reference=azi_reference,
         convergence=convergence,
+        depth_unit=data.depth_unit,
+        surface_unit=data.surface_unit,
     )
 
     # the connections are positioned already, so no start_nev is added
@@ -738,7 +741,9 @@ def wbp_to_survey(
         step=step,
         survey_header=sh,
         radius=radius,
-        deg=False
+        deg=False,
+        depth_unit=data.depth_unit,
+        surface_unit=data.surface_unit,
     )
 
     # Because of the way the imported file is processed, there will likely
-- 
2.43.0


From 158cdc414d562c87a83a2d8aaf6ebdc3278c1a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 66/89] fix: a turn point keeps the whole name of its target
 when read from a wbp file

---
 welleng/exchange/wbp.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index f1cc31b..83feeb3 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -339,10 +339,7 @@ class WellPlan:
             to.tie_on = True
         else:
             to.method = string_strip(data[7])
-            try:
-                to.target = string_strip(data[8])
-            except:
-                to.target = None
+            to.target = string_strip(" ".join(data[8:]))
         self.steps.append(to)
 
     def _add_extended_survey_point(self, data):
-- 
2.43.0


From 5903a1ff6fcdae499da143e968118773b1b7a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 67/89] fix: an EDM record is tested once all the requested
 attributes were compared (it was returned early or repeatedly)

---
 welleng/exchange/edm.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index fe17ccf..af1dadc 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -63,15 +63,14 @@ class EDM:
                             booleans.append(True)
                         else:
                             booleans.append(False)
-                        if bool(booleans):
-                            if (
-                                logic == 'AND' and all(booleans)
-                                or logic == 'OR' and any(booleans)
-                            ):
-                                try:
-                                    data[child.tag].append(child.attrib)
-                                except KeyError:
-                                    data[child.tag] = [child.attrib]
+                    if (
+                        logic == 'AND' and all(booleans)
+                        or logic == 'OR' and any(booleans)
+                    ):
+                        try:
+                            data[child.tag].append(child.attrib)
+                        except KeyError:
+                            data[child.tag] = [child.attrib]
                 else:
                     try:
                         data[child.tag].append(child.attrib)
-- 
2.43.0


From 604e5bc2b5917faab4b43c12cf4f490b68b11c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 68/89] fix: the ancestors of an EDM wellbore or survey do not
 depend on earlier queries

---
 welleng/exchange/edm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index af1dadc..e198830 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -173,7 +173,9 @@ class EDM:
 
         return attributes
 
-    def get_parents(self, wellbore_id, predecessors=[]):
+    def get_parents(self, wellbore_id, predecessors=None):
+        if predecessors is None:
+            predecessors = []
         for child in self.root:
             if (
                 child.tag == "CD_WELLBORE"
@@ -398,7 +400,9 @@ class Well:
                 survey[item[0]] = sorted(survey[item[0]], key=lambda k: float(k['md']))
         case.survey = survey
 
-    def get_parent_surveys(self, survey_header_id, data=OrderedDict()):
+    def get_parent_surveys(self, survey_header_id, data=None):
+        if data is None:
+            data = OrderedDict()
         for sh in self.well_data['CD_SURVEY_HEADER']:
             if (
                 sh['survey_header_id'] == survey_header_id
-- 
2.43.0


From 3d8e2771249d3b54e3ab79b6d16175d1423073ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 69/89] fix: well and datum records are added once for an EDM
 wellbore without parents

---
 welleng/exchange/edm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index e198830..4966cf0 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -169,7 +169,7 @@ class EDM:
             additional = self.get_attributes(
                 tags=tags, attributes={'wellbore_id': predecessors}
             )
-        attributes = self.add_attributes(attributes, additional)
+            attributes = self.add_attributes(attributes, additional)
 
         return attributes
 
-- 
2.43.0


From fec7581e6a4c7004cf624d5b1498b38699eee030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 70/89] fix: every EDM wellbore is found by its id, also where
 two have the same name

---
 welleng/exchange/edm.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 4966cf0..7dbdf88 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -86,9 +86,11 @@ class EDM:
         """
         self.wellbore_id_to_name = {}
         self.wellbore_name_to_id = {}
-        for _, v in self.get_wellbore_ids().items():
-            self.wellbore_id_to_name[v['wellbore_id']] = v['wellbore_name']
-            self.wellbore_name_to_id[v['wellbore_name']] = v['wellbore_id']
+        for child in self.root:
+            if child.tag == 'CD_WELLBORE':
+                v = child.attrib
+                self.wellbore_id_to_name[v['wellbore_id']] = v['wellbore_name']
+                self.wellbore_name_to_id[v['wellbore_name']] = v['wellbore_id']
 
     def get_wells(self):
         return {
@@ -131,7 +133,10 @@ class EDM:
         # get nodes
         G = nx.Graph()
 
-        for _, v in self.get_wellbore_ids().items():
+        for child in self.root:
+            if child.tag != 'CD_WELLBORE':
+                continue
+            v = child.attrib
             if 'parent_wellbore_id' in v:
                 G.add_edge(v['parent_wellbore_id'], v['wellbore_id'])
             else:
-- 
2.43.0


From aecbf18e5aaf015e05373c75b9cec2b0d611887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 71/89] fix: an EDM case without surveys can be made (survey
 was unbound) and an unknown case gives None

---
 welleng/exchange/edm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 7dbdf88..474d7d6 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -311,8 +311,8 @@ class Well:
                 case = self._set_attribute(
                     case, **k
                 )
-        self._get_surveys(case)
-        self._get_ppfpt(case)
+            self._get_surveys(case)
+            self._get_ppfpt(case)
 
         return case
 
@@ -358,6 +358,7 @@ class Well:
 
     def _get_surveys(self, case):
         # get the surveys... turns out to be a bit of a PITA
+        survey = {}
         if hasattr(case, "survey_header"):
             survey_header_ids = [
                 h['survey_header_id']
@@ -379,7 +380,6 @@ class Well:
                     sh,
                     data=OrderedDict({sh: md[sh]})
                 )
-            survey = {}
             for item in survey_lists.items():
                 is_first = True
                 for k, v in item[1].items():
-- 
2.43.0


From bb08a17d6c6e5f0f034e154227ffa997ada8ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 72/89] fix: the vedo-based cube axes need vedo as well as vtk

---
 welleng/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/visual.py b/welleng/visual.py
index 17b45ca..27f8583 100644
--- a/welleng/visual.py
+++ b/welleng/visual.py
@@ -227,7 +227,7 @@ if VEDO:
             )
 
 
-if VTK:
+if VTK and VEDO:
     class CubeAxes(vtkCubeAxesActor):
         """VTK cube axes actor configured for NEV (North, East, TVD) labels."""
 
-- 
2.43.0


From 8c6edabdb3eb897f5383209ca521426796f990ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 73/89] fix: EDM tags and hole section groups come in file
 order, not in the order of string hashes

---
 welleng/exchange/edm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 474d7d6..195e02a 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -122,7 +122,7 @@ class EDM:
                 )
 
     def get_tags(self, sort=True):
-        tags = list(set([child.tag for child in self.root]))
+        tags = list(dict.fromkeys([child.tag for child in self.root]))
         if sort:
             return sorted(tags)
         else:
@@ -444,7 +444,7 @@ class Well:
                     if t == "hole_sect_group_id"
                 ]
             )
-        return list(set(hole_sect_group_ids))
+        return list(dict.fromkeys(hole_sect_group_ids))
 
     def _get_hole_section_data(self, group_id):
         hole_section_data = {}
-- 
2.43.0


From cae5ccdb03825500ffab0eef2c509a92c7586ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 74/89] fix: setting a survey's vertical section leaves the
 header it shares with other surveys alone

---
 welleng/survey.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 5ace88f..45050da 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1341,6 +1341,7 @@ class Survey:
             Indicates whether the vertical section azimuth parameter is in
             degrees or radians (True or False respectively).
         """
+        self.header = copy(self.header)
         self.header.vertical_section_azimuth = (
             math.radians(vertical_section_azimuth) if deg
             else vertical_section_azimuth
-- 
2.43.0


From ee3f25298236d014b66eb0b4c8cbed892f0c6fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 75/89] fix: get_node_tvd works on a copy of the end node
 instead of clearing the caller's position

---
 welleng/survey.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 45050da..cd3c69b 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2862,6 +2862,7 @@ def get_node_tvd(survey, node1, node2, tvd, node_origin):
     Node
         A Node at the target TVD between the two input nodes.
     """
+    node2 = copy(node2)
     node2.pos_nev, node2.pos_xyz = None, None
     c = Connector(node1=node1, node2=node2, dls_design=1e-8)
     s = from_connections(c, step=None)
-- 
2.43.0


From e63d571c563be646fc5ed95bee43bb8abde5c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 76/89] fix: torque and drag adds its buoyancy factors to its
 own copy of the string

---
 welleng/torque_drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index adf5b24..1dc1270 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -82,7 +82,7 @@ class TorqueDrag:
 
         self.survey_original = survey
         self.wellbore = wellbore
-        self.string = string
+        self.string = deepcopy(string)
         self.fluid_density = fluid_density
         self.name = name
         self.add_survey_points_from_strings()
-- 
2.43.0


From 5dd37b039abe4e30750a9e8011e71d35f1ca2552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 77/89] fix: the plotter keeps its rendering on its own copy of
 a well mesh, so two plots of one mesh do not clash

---
 welleng/visual.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/welleng/visual.py b/welleng/visual.py
index 27f8583..d1bc4df 100644
--- a/welleng/visual.py
+++ b/welleng/visual.py
@@ -11,6 +11,8 @@ try:
 except ImportError:
     VEDO = False
 
+from copy import copy
+
 import numpy as np
 from types import SimpleNamespace
 from scipy.spatial import KDTree
@@ -78,6 +80,7 @@ if VEDO:
             if isinstance(obj, mesh.WellMesh):
                 vedo_mesh = Mesh([obj.mesh.vertices, obj.mesh.faces],
                                  *args, **kwargs)
+                obj = copy(obj)
                 setattr(obj, 'vedo_mesh', vedo_mesh)
                 self.wells.append(obj)
                 super().add(obj.vedo_mesh)
-- 
2.43.0


From 745e52c00f4dc2f5c2c5d615401abb88127f7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 78/89] fix: a connector whose target direction is already met
 gives an empty hold instead of failing on a missing depth

---
 welleng/connector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index 4940675..bc84bc3 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -673,6 +673,9 @@ class Connector:
                 ).reshape(3)
 
     def _hold(self):
+        if self.pos_target is None and self.md_target is None:
+            # already pointing in the target direction: nothing to drill
+            self.md_target = self.md1
         if self.pos_target is None:
             self.pos_target = (
                 self.pos1 + self.vec1 * (self.md_target - self.md1)
-- 
2.43.0


From 020596bcf1d8d323622844e2bbc2d788037ec0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 79/89] fix: seeding the curve-hold-curve solver no longer
 moves the start or the target

---
 welleng/connector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index bc84bc3..cd064ad 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1359,9 +1359,12 @@ def minimize_target_pos_and_vec_defined(
 
     # Initialise the intermediate tangent point
     if pos3 is None:
-        pos2_init = c._get_pos2(c.pos1, c.vec1, c.pos_target, radius1)
+        # copies, since a position directly ahead is shifted in place
+        pos2_init = c._get_pos2(
+            c.pos1, c.vec1, c.pos_target.copy(), radius1
+        )
         pos3_init = c._get_pos2(
-            c.pos_target, c.vec_target * -1, c.pos1, radius2
+            c.pos_target, c.vec_target * -1, c.pos1.copy(), radius2
         )
         pos3_mid = pos2_init + (pos3_init - pos2_init) / 2
 
-- 
2.43.0


From e59843f092f20f33e02d091de3ce484a6513281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 80/89] fix: closest approach puts the centre of the design
 circle in the plane of the start direction and the target

---
 welleng/connector.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index cd064ad..3615432 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -574,17 +574,16 @@ class Connector:
 
     def _closest_approach(self):
         vec_pos1_pos_target = self.pos_target - self.pos1
-        vec_pos1_pos_target /= np.linalg.norm(vec_pos1_pos_target)
 
-        cross_product = np.cross(vec_pos1_pos_target, self.vec1)
-        cross_product /= np.linalg.norm(cross_product)
-
-        factor = cross_product / vec_pos1_pos_target
-        factor /= abs(factor)
-
-        cc = (
-            self.pos1 + cross_product * factor * self.radius_design
+        # the part of the direction to the target that is normal to vec1
+        vec_normal = (
+            vec_pos1_pos_target
+            - np.dot(vec_pos1_pos_target, self.vec1) * self.vec1
         )
+        vec_normal /= np.linalg.norm(vec_normal)
+
+        # the centre of the design circle, on the side of the target
+        cc = self.pos1 + vec_normal * self.radius_design
 
         cc_pos_target = self.pos_target - cc
         cc_pos_target /= np.linalg.norm(cc_pos_target)
-- 
2.43.0


From d241b0fefcfe56470818539d5fea1de57b41bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 81/89] fix: from_connections builds its survey from radians
 whatever deg (deg=True took the radians for degrees)

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index cd3c69b..1cf13ce 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2713,7 +2713,7 @@ def from_connections(
         start_nev=section_data[0].pos1 + start_nev,
         start_xyz=start_xyz,
         start_cov_nev=start_cov_nev,
-        deg=deg,
+        deg=False,  # the sections are interpolated in radians
         radius=radius,
         header=survey_header,
         error_model=error_model,
-- 
2.43.0


From b5fe92540fb9a4a3f6f2695d086fb94012048dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 82/89] fix: get_node_tvd gives nodes in the unit of the survey
 (a survey in feet gave nodes in meters)

---
 welleng/survey.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 1cf13ce..c86d503 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2864,8 +2864,10 @@ def get_node_tvd(survey, node1, node2, tvd, node_origin):
     """
     node2 = copy(node2)
     node2.pos_nev, node2.pos_xyz = None, None
-    c = Connector(node1=node1, node2=node2, dls_design=1e-8)
-    s = from_connections(c, step=None)
+    c = Connector(
+        node1=node1, node2=node2, dls_design=1e-8, unit=survey.unit
+    )
+    s = from_connections(c, step=None, depth_unit=survey.unit)
     node_new = interpolate_tvd(s, tvd, node_origin=node_origin)
 
     return node_new
-- 
2.43.0


From e7be48dd6fcfdc0a8ec879b11ac4ef9a44762402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 83/89] fix: survey_to_plan plans a survey in feet in feet (its
 sections were labelled meters with dls_design per 30 ft)

---
 welleng/connector.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 3615432..016c5f3 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2501,7 +2501,8 @@ def _get_section(
         node_1 = Node(
             pos=nev[start],
             vec=survey.vec_nev[start],
-            md=md
+            md=md,
+            unit=survey.unit
         )
     else:
         node_1 = node
@@ -2514,13 +2515,15 @@ def _get_section(
         node_2 = Node(
             pos=p,
             vec=v,
+            unit=survey.unit
         )
         c = Connector(
             node1=node_1,
             node2=node_2,
-            dls_design=dls_design
+            dls_design=dls_design,
+            unit=survey.unit
         )
-        s = from_connections(c, step=1.)
+        s = from_connections(c, step=1., depth_unit=survey.unit)
         if c_old is None:
             c_old = deepcopy(c)
         nev_new = s.get_nev_arr()
-- 
2.43.0


From ff52cddc858b98daf4eba4e6c9d229e6a420fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:07 +0000
Subject: [PATCH 84/89] fix: MeshClearance.get_lines says that it needs
 return_data (it failed on an attribute that was never set)

---
 welleng/clearance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index dccdacb..46020ec 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -928,6 +928,7 @@ class MeshClearance(Clearance):
         """
         Extracts the closest points between wells for each survey section.
         """
+        assert self.return_data, "get_lines() requires return_data=True"
         points = [
             list(d[2]._points.values())
             for d in self.distance
-- 
2.43.0


From 6c16b7c4a7a8f3205e9f8d4a452e4bd10ae511c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 85/89] fix: compute the directional difficulty index in the
 survey's own length unit

---
 welleng/survey.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index c86d503..fe7a9fd 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1664,18 +1664,20 @@ def directional_difficulty_index(survey, **kwargs):
     data: (n) array of floats
         The ddi for each survey station.
     """
+    unit = ureg(survey.unit)
+
     with np.errstate(divide='ignore', invalid='ignore'):
         ddi = np.nan_to_num(np.log10(
             (
-                (survey.md * ureg.meters).to('ft').m
+                (survey.md * unit).to('ft').m
                 * (
                     np.linalg.norm(
                         (survey.n, survey.e), axis=0
-                    ) * ureg.meters
+                    ) * unit
                 ).to('ft').m
                 * np.cumsum(np.degrees(survey.dogleg))
             )
-            / (survey.tvd * ureg.meters).to('ft').m
+            / (survey.tvd * unit).to('ft').m
         ), nan=0.0, posinf=0.0, neginf=0.0)
 
     return ddi
-- 
2.43.0


From 9b73b3c9de05d1eb9bbd0ccc9bfa4ee5ddbb0aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 86/89] fix: centre each interval's arc with the interval's own
 radius

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index fe7a9fd..e2278ff 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2194,7 +2194,7 @@ def get_circle_radius(survey, **targets):
     cc1 = (
         nev[:-1] - b1
         / np.linalg.norm(b1, axis=1).reshape(-1, 1)
-        * survey.curve_radius[:-1].reshape(-1, 1)
+        * survey.curve_radius[1:].reshape(-1, 1)
     )
     cc2 = (
         nev[1:] - b2
-- 
2.43.0


From 1e058dc1196b036cd583ff46ef80336c571a267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:19 +0000
Subject: [PATCH 87/89] fix: decimal2dms lost the sign of angles between -1 and
 0 degrees

---
 welleng/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index ae30af2..a311332 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -710,13 +710,15 @@ def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
     _decimal = float(_decimal)
     minutes, seconds = divmod(abs(_decimal) * 3600, 60)
     _, minutes = divmod(minutes, 60)
+    # a zero keeps the sign, or else angles between -1 and 0 would lose it
+    degrees = -0. if -1 < _decimal < 0 else int(_decimal)
 
     return np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
         seconds if ndigits is None else round(seconds, ndigits)
     ]) if direction is None else np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
         seconds if ndigits is None else round(seconds, ndigits),
         direction
-- 
2.43.0


From 40e8dc3793c5437d0b3d905cd87dd1d58162848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:19 +0000
Subject: [PATCH 88/89] fix: dms_from_string misread the text pprint_dms prints
 for negative, float or unlabelled angles

---
 welleng/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index a311332..045ed19 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -870,18 +870,19 @@ def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
 def dms_from_string(text):
     """Extracts the values from a string dms x or y or northing or easting.
     """
-    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
+    pattern = re.compile(r'(-?\d+)(?:\.0*)?\s*(?:°|deg)?,\s*(\d+)(?:\.0*)?\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?(?:e[+-]?\d+)?)\s*(sec|")?\s*.*?(\S+)?$', re.IGNORECASE)
     matches = pattern.findall(text)
 
     if matches:
         deg, min, sec_str = matches[0][:3]
+        deg = -0. if deg == '-0' else int(deg)
         sec = float(sec_str)
         final_data = matches[0][-1] if matches[0][-1] else None
 
         if final_data:
-            return (int(deg), int(min), sec, final_data)
+            return (deg, int(min), sec, final_data)
         else:
-            return (int(deg), int(min), sec)
+            return (deg, int(min), sec)
 
     else:
         return
-- 
2.43.0


From 7c5eaa4dab68007b6b1b814d0196db2711ce98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:25 +0000
Subject: [PATCH 89/89] fix: a depth where a bore section and a string section
 both end was added as two survey stations, shifting the string's weights by
 one station

---
 welleng/torque_drag.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 1dc1270..be588e0 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -106,23 +106,25 @@ class TorqueDrag:
         the string sections to ensure that the torque and drag is
         calculated for these key locations.
         """
-        q = []
+        # keyed on depth, since a string is often run to the bottom of a
+        # wellbore section and a station must not be added twice
+        q = {}
 
         for k, v in self.wellbore.sections.items():
-            if v['bottom'] in self.survey_original.md:
+            if v['bottom'] in self.survey_original.md or v['bottom'] in q:
                 continue
             else:
-                q.append(interpolate_md(
+                q[v['bottom']] = interpolate_md(
                     self.survey_original, v['bottom']
-                ))
+                )
 
         for k, v in self.string.sections.items():
-            if v['bottom'] in self.survey_original.md:
+            if v['bottom'] in self.survey_original.md or v['bottom'] in q:
                 continue
             else:
-                q.append(interpolate_md(
+                q[v['bottom']] = interpolate_md(
                     self.survey_original, v['bottom']
-                ))
+                )
 
         md, inc, azi = (
             self.survey_original.md.tolist(),
@@ -130,9 +132,9 @@ class TorqueDrag:
             self.survey_original.azi_grid_rad.tolist()
         )
 
-        md.extend([station.md[-1] for station in q])
-        inc.extend([station.inc_rad[-1] for station in q])
-        azi.extend([station.azi_grid_rad[-1] for station in q])
+        md.extend(q.keys())
+        inc.extend([station.inc_rad[-1] for station in q.values()])
+        azi.extend([station.azi_grid_rad[-1] for station in q.values()])
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-- 
2.43.0

