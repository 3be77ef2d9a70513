From f5c4fce9b5ab84208ca3a4d92ed720a7531a19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 01/21] fix: keep C_ee and C_qqql flavour-symmetric in SMEFT
 running

The beta functions of these two coefficients do not respect the Fierz/flavour
relations that the coefficient arrays are assumed to satisfy, so reading off a
single representative on output gave e.g. C_ee_1122 = 2 C_ee_1111 from phie_11.
---
 wilson/run/smeft/rge.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index bd0fb7e..f4d4aaf 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -9,12 +9,33 @@ from wilson.util import smeftutil
 import numpy as np
 
 
+def _project_flavor_symmetry(b):
+    """Project the beta functions `b` of the Wilson coefficients `ee` and `qqql`
+    onto the flavour symmetries of the corresponding operators.
+
+    The beta functions of these two coefficients are given in a form that does
+    not manifestly respect the flavour relations of the operators (the Fierz
+    identity of Q_ee and C_prst + C_rpst = C_sprt + C_srpt for Q_qqql). The
+    Wilson coefficient arrays on the other hand are always assumed to satisfy
+    these relations. The pieces removed multiply vanishing combinations of
+    operators."""
+    b = dict(b)
+    C = b['ee']
+    b['ee'] = (C + C.transpose(2, 1, 0, 3)
+               + C.transpose(0, 3, 2, 1) + C.transpose(2, 3, 0, 1)) / 4
+    C = b['qqql']
+    b['qqql'] = (4 * C - C.transpose(0, 2, 1, 3) - C.transpose(1, 0, 2, 3)
+                 + C.transpose(1, 2, 0, 3) + C.transpose(2, 0, 1, 3)
+                 + 2 * C.transpose(2, 1, 0, 3)) / 6
+    return b
+
+
 def smeft_evolve_leadinglog(C_in, scale_in, scale_out, newphys=True):
     """Solve the SMEFT RGEs in the leading log approximation.
 
     Input C_in and output C_out are dictionaries of arrays."""
     C_out = deepcopy(C_in)
-    b = beta.beta(C_out, newphys=newphys)
+    b = _project_flavor_symmetry(beta.beta(C_out, newphys=newphys))
     for k, C in C_out.items():
         C_out[k] = C + b[k] / (16 * pi**2) * log(scale_out / scale_in)
     return C_out
@@ -23,8 +44,10 @@ def smeft_evolve_leadinglog(C_in, scale_in, scale_out, newphys=True):
 def _smeft_evolve(C_in, scale_in, scale_out, newphys=True, **kwargs):
     """Axuliary function used in `smeft_evolve` and `smeft_evolve_continuous`"""
     def fun(t0, y):
-        return beta.beta_array(C=smeftutil.C_array2dict(y.view(complex)),
-                               newphys=newphys).view(float) / (16 * pi**2)
+        b = beta.beta(C=smeftutil.C_array2dict(y.view(complex)),
+                      newphys=newphys)
+        b = smeftutil.C_dict2array(_project_flavor_symmetry(b))
+        return b.view(float) / (16 * pi**2)
     y0 = smeftutil.C_dict2array(C_in).view(float)
     sol = solve_ivp(fun=fun,
                     t_span=(log(scale_in), log(scale_out)),
-- 
2.43.0


From 1cf4fc91be95d1f8ddbf84a6a0ade308b9fa6ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 02/21] fix: do not register a basis whose parent is missing

---
 wilson/wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index db63400..f7f584e 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -219,7 +219,6 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
@@ -231,6 +230,8 @@ class Basis(WCxf, NamedInstanceClass):
         else:
             self.sectors = sectors
         self._all_wcs = None
+        # register the instance only once it is known to be valid
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
-- 
2.43.0


From b990ba5eb80e734a22009f1a72aaa6257a4c7586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 03/21] fix: keep the sign of flavour-diagonal coefficients in
 SMEFTsim cards

---
 wilson/wcxf/converters/smeftsim.py | 86 +++++++++++++++---------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/wilson/wcxf/converters/smeftsim.py b/wilson/wcxf/converters/smeftsim.py
index e9de49e..863656b 100644
--- a/wilson/wcxf/converters/smeftsim.py
+++ b/wilson/wcxf/converters/smeftsim.py
@@ -748,48 +748,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(scaled_wc('phiBtilde') * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(scaled_wc('phiWB') * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(scaled_wc('phiWtildeB') * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(scaled_wc('phil1_11')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(scaled_wc('phil1_11').real * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(scaled_wc('phil1_12')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(scaled_wc('phil1_13')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(scaled_wc('phil1_22')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(scaled_wc('phil1_22').real * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(scaled_wc('phil1_23')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(scaled_wc('phil1_33')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(scaled_wc('phil3_11')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(scaled_wc('phil1_33').real * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(scaled_wc('phil3_11').real * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(scaled_wc('phil3_12')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(scaled_wc('phil3_13')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(scaled_wc('phil3_22')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(scaled_wc('phil3_22').real * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(scaled_wc('phil3_23')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(scaled_wc('phil3_33')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(scaled_wc('phiq1_11')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(scaled_wc('phil3_33').real * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(scaled_wc('phiq1_11').real * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(scaled_wc('phiq1_12')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(scaled_wc('phiq1_13')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(scaled_wc('phiq1_22')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(scaled_wc('phiq1_22').real * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(scaled_wc('phiq1_23')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(scaled_wc('phiq1_33')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(scaled_wc('phiq3_11')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(scaled_wc('phiq1_33').real * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(scaled_wc('phiq3_11').real * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(scaled_wc('phiq3_12')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(scaled_wc('phiq3_13')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(scaled_wc('phiq3_22')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(scaled_wc('phiq3_22').real * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(scaled_wc('phiq3_23')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(scaled_wc('phiq3_33')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(scaled_wc('phie_11')) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(scaled_wc('phiq3_33').real * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(scaled_wc('phie_11').real * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(scaled_wc('phie_12')) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(scaled_wc('phie_13')) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(scaled_wc('phie_22')) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(scaled_wc('phie_22').real * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(scaled_wc('phie_23')) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(scaled_wc('phie_33')) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(scaled_wc('phiu_11')) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(scaled_wc('phie_33').real * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(scaled_wc('phiu_11').real * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(scaled_wc('phiu_12')) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(scaled_wc('phiu_13')) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(scaled_wc('phiu_22')) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(scaled_wc('phiu_22').real * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(scaled_wc('phiu_23')) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(scaled_wc('phiu_33')) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(scaled_wc('phid_11')) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(scaled_wc('phiu_33').real * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(scaled_wc('phid_11').real * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(scaled_wc('phid_12')) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(scaled_wc('phid_13')) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(scaled_wc('phid_22')) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(scaled_wc('phid_22').real * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(scaled_wc('phid_23')) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(scaled_wc('phid_33')) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(scaled_wc('phid_33').real * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(scaled_wc('ll_1111') * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(scaled_wc('ll_1122') * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(scaled_wc('ll_1221') * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -967,7 +967,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(scaled_wc('ee_2222') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'],
           [864, format(scaled_wc('ee_2233') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'],
           [865, format(abs(scaled_wc('ee_1112')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'],
-          [866, format(abs(scaled_wc('ee_3333')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
+          [866, format(scaled_wc('ee_3333').real * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
           [867, format(abs(scaled_wc('ee_1123')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'],
           [868, format(abs(scaled_wc('ee_1113')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'],
           [869, format(abs(scaled_wc('ee_1213')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'],
@@ -2712,66 +2712,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
 
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(scaled_wc('phil1_11')* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(scaled_wc('phil1_11').real* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(scaled_wc('phil1_12')* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(scaled_wc('phil1_13')* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(scaled_wc('phil1_22')* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(scaled_wc('phil1_22').real* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(scaled_wc('phil1_23')* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(scaled_wc('phil1_33')* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(scaled_wc('phil1_33').real* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(scaled_wc('phil1_12')), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(scaled_wc('phil1_13')), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(scaled_wc('phil1_23')), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(scaled_wc('phil3_11')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'],
+	[10, format(scaled_wc('phil3_11').real* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'],
 	[11, format(abs(scaled_wc('phil3_12')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'],
 	[12, format(abs(scaled_wc('phil3_13')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'],
-	[13, format(abs(scaled_wc('phil3_22')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'],
+	[13, format(scaled_wc('phil3_22').real* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'],
 	[14, format(abs(scaled_wc('phil3_23')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'],
-	[15, format(abs(scaled_wc('phil3_33')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'],
+	[15, format(scaled_wc('phil3_33').real* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'],
 	[16, format(angle(scaled_wc('phil3_12')), '.6e') ,'# cHL3Ph12'],
 	[17, format(angle(scaled_wc('phil3_13')), '.6e') ,'# cHL3Ph13'],
 	[18, format(angle(scaled_wc('phil3_23')), '.6e') ,'# cHL3Ph23'],
-	[19, format(abs(scaled_wc('phiq1_11')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'],
+	[19, format(scaled_wc('phiq1_11').real* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'],
 	[20, format(abs(scaled_wc('phiq1_12')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'],
 	[21, format(abs(scaled_wc('phiq1_13')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'],
-	[22, format(abs(scaled_wc('phiq1_22')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'],
+	[22, format(scaled_wc('phiq1_22').real* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'],
 	[23, format(abs(scaled_wc('phiq1_23')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'],
-	[24, format(abs(scaled_wc('phiq1_33')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'],
+	[24, format(scaled_wc('phiq1_33').real* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'],
 	[25, format(angle(scaled_wc('phiq1_12')), '.6e') ,'# cHq1Ph12'],
 	[26, format(angle(scaled_wc('phiq1_13')), '.6e') ,'# cHq1Ph13'],
 	[27, format(angle(scaled_wc('phiq1_23')), '.6e') ,'# cHq1Ph23'],
-	[28, format(abs(scaled_wc('phiq3_11')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'],
+	[28, format(scaled_wc('phiq3_11').real* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'],
 	[29, format(abs(scaled_wc('phiq3_12')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'],
 	[30, format(abs(scaled_wc('phiq3_13')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'],
-	[31, format(abs(scaled_wc('phiq3_22')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'],
+	[31, format(scaled_wc('phiq3_22').real* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'],
 	[32, format(abs(scaled_wc('phiq3_23')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'],
-	[33, format(abs(scaled_wc('phiq3_33')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'],
+	[33, format(scaled_wc('phiq3_33').real* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'],
 	[34, format(angle(scaled_wc('phiq3_12')), '.6e') ,'# cHQ3Ph12'],
 	[35, format(angle(scaled_wc('phiq3_13')), '.6e') ,'# cHQ3Ph13'],
 	[36, format(angle(scaled_wc('phiq3_23')), '.6e') ,'# cHQ3Ph23'],
-	[37, format(abs(scaled_wc('phiu_11')* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'],
+	[37, format(scaled_wc('phiu_11').real* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'],
 	[38, format(abs(scaled_wc('phiu_12')* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'],
 	[39, format(abs(scaled_wc('phiu_13')* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'],
-	[40, format(abs(scaled_wc('phiu_22')* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'],
+	[40, format(scaled_wc('phiu_22').real* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'],
 	[41, format(abs(scaled_wc('phiu_23')* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'],
-	[42, format(abs(scaled_wc('phiu_33')* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'],
+	[42, format(scaled_wc('phiu_33').real* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'],
 	[43, format(angle(scaled_wc('phiu_12')), '.6e') ,'# cHuPh12'],
 	[44, format(angle(scaled_wc('phiu_13')), '.6e') ,'# cHuPh13'],
 	[45, format(angle(scaled_wc('phiu_23')), '.6e') ,'# cHuPh23'],
-	[46, format(abs(scaled_wc('phid_11')* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'],
+	[46, format(scaled_wc('phid_11').real* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'],
 	[47, format(abs(scaled_wc('phid_12')* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'],
 	[48, format(abs(scaled_wc('phid_13')* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'],
-	[49, format(abs(scaled_wc('phid_22')* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'],
+	[49, format(scaled_wc('phid_22').real* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'],
 	[50, format(abs(scaled_wc('phid_23')* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'],
-	[51, format(abs(scaled_wc('phid_33')* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'],
+	[51, format(scaled_wc('phid_33').real* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'],
 	[52, format(angle(scaled_wc('phid_12')), '.6e') ,'# cHdPh12'],
 	[53, format(angle(scaled_wc('phid_13')), '.6e') ,'# cHdPh13'],
 	[54, format(angle(scaled_wc('phid_23')), '.6e') ,'# cHdPh23'],
-	[55, format(abs(scaled_wc('phie_11')* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'],
+	[55, format(scaled_wc('phie_11').real* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'],
 	[56, format(abs(scaled_wc('phie_12')* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'],
 	[57, format(abs(scaled_wc('phie_13')* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'],
-	[58, format(abs(scaled_wc('phie_22')* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'],
+	[58, format(scaled_wc('phie_22').real* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'],
 	[59, format(abs(scaled_wc('phie_23')* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'],
-	[60, format(abs(scaled_wc('phie_33')* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'],
+	[60, format(scaled_wc('phie_33').real* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'],
 	[61, format(angle(scaled_wc('phie_12')), '.6e') ,'# cHePh12'],
 	[62, format(angle(scaled_wc('phie_13')), '.6e') ,'# cHePh13'],
 	[63, format(angle(scaled_wc('phie_23')), '.6e') ,'# cHePh23'],
-- 
2.43.0


From 64e6eb3bf222dd89022b39410f9643bda73143be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 04/21] fix: near-degenerate eigenvalues in the WET QED
 evolution

---
 wilson/run/wet/rge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 0a32b8e..207d725 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -74,7 +74,7 @@ def getUe(classname, eta_s, f, alpha_s, alpha_e, m_u, m_d, m_s, m_c, m_b, m_e, m
     K = np.linalg.inv(v) @ A.T @ v
     for i in range(K.shape[0]):
         for j in range(K.shape[1]):
-            if a[i] - a[j] != 1:
+            if abs(a[i] - a[j] - 1) > 1e-8:  # numerically different from 1
                 K[i, j] *= (eta_s**(a[j] + 1) - eta_s**a[i]) / (a[i] - a[j] - 1)
             else:
                 K[i, j] *= eta_s**a[i] * log(1 / eta_s)
-- 
2.43.0


From 6503aff61e2bb07433555941b9b10479dc9449d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 05/21] fix: flavio_to_Bern drops lepton flavour violating ds
 coefficients

---
 wilson/translate/wet.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 6acf24c..2b8bd06 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1954,11 +1954,10 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
                                         'db'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
                                         'db'+'l_'+l+'nu_'+lp))
-            if l == lp:  # l+l- only for l=l'
-                d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
-                                            'ds'+'l_'+l+'nu_'+lp, p,
-                                            norm_gf=True),
-                                            'ds'+'l_'+l+'nu_'+lp))
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p,
+                                        norm_gf=True),
+                                        'ds'+'l_'+l+'nu_'+lp))
             d.update(Fierz_to_Bern_nunu(Flavio_to_Fierz_nunu(C,
                                         'sb'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
-- 
2.43.0


From 98c8dd8ef721d754cda5c0c57bba825eee3a5d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 06/21] fix: JMS to Bern, EOS and FormFlavor translation
 crashes when sectors are given

---
 wilson/translate/wet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 2b8bd06..8aa1b1c 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1726,7 +1726,7 @@ def get_parameters(scale, f=5, input_parameters=None):
 
 def JMS_to_EOS(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
@@ -1990,7 +1990,7 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
 
 def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
@@ -2009,7 +2009,7 @@ def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
 
 def JMS_to_Bern(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
-- 
2.43.0


From 42fc4a14788ed366efa06cddfb3cb0b56bcf67cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 07/21] fix: EOS coefficient b->s::c5 is an array

---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 8aa1b1c..7085fd2 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1026,7 +1026,7 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbdd['Fsbdd4'] / 180 + Fsbss['Fsbss1'] / 54
         - Fsbss['Fsbss3'] / 60 - Fsbss['Fsbss4'] / 180
         + 5 * Fsbuu['Fsbuu1'] / 216 - Fsbuu['Fsbuu2'] / 216
-        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180,
+        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180
     )
     c6 = (
         + Fsbbb['Fsbbb1'] / 36 - Fsbbb['Fsbbb4'] / 30
-- 
2.43.0


From 240be067f63ef6855323a6cfff4211651d54f31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 08/21] fix: FormFlavor coefficients CVLL_sdnn, CVRL_sdnn are
 overwritten by b->d coefficients

---
 wilson/translate/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 7085fd2..b260c69 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1424,12 +1424,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLL"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLL"][2, 2, 0, 1],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLR"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLR"][2, 2, 0, 1]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From 6f97fd899cd26cb6be1021da83e7ea60268ef7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 09/21] fix: FormFlavor lepton dipole CAL is normalised with
 the wrong coupling

---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index b260c69..18b19d1 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1628,7 +1628,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From e55fe596e6c62a02c556e5b964aadd98662e9123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 10/21] fix: missing complex conjugation in FormFlavor
 coefficients CSLL_cucu, CTRR_cucu

---
 wilson/translate/wet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 18b19d1..8ed75cd 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -166,12 +166,12 @@ def _BernI_to_FormFlavor_I(C, qq):
     elif qq == 'cu':
         return {
             'CVLL_' + 2*qq: C["1" + 2*qq].conjugate(),
-            'CSLL_' + 2*qq: C["2" + 2*qq] + 1 / 2 * C["3" + 2*qq].conjugate(),
+            'CSLL_' + 2*qq: C["2" + 2*qq].conjugate() + 1 / 2 * C["3" + 2*qq].conjugate(),
             'CTLL_' + 2*qq: -1 / 8 * C["3" + 2*qq].conjugate(),
             'CVLR_' + 2*qq: -1 / 2 * C["5" + 2*qq].conjugate(),
             'CVRR_' + 2*qq: C["1p" + 2*qq].conjugate(),
             'CSRR_' + 2*qq: C["2p" + 2*qq].conjugate() + 1 / 2 * C["3p" + 2*qq].conjugate(),
-            'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq],
+            'CTRR_' + 2*qq: -1 / 8 * C["3p" + 2*qq].conjugate(),
             'CSLR_' + 2*qq: C["4" + 2*qq].conjugate()
             }
     else:
-- 
2.43.0


From a204627a639cdb57e43d9f4bc20405f84f5fb1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 11/21] fix: real and imaginary parts of EOS coefficients are
 taken before normalisation with the CKM elements

---
 wilson/translate/wet.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 8ed75cd..b65cab9 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1037,15 +1037,15 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbuu['Fsbuu4'] / 30
     )
     dic = {
-        'b->s::c1' : np.real(c1),
-        'b->s::c2' : np.real(c2),
-        'b->s::c3' : np.real(c3),
-        'b->s::c4' : np.real(c4),
-        'b->s::c5' : np.real(c5),
-        'b->s::c6' : np.real(c6)
+        'b->s::c1' : c1,
+        'b->s::c2' : c2,
+        'b->s::c3' : c3,
+        'b->s::c4' : c4,
+        'b->s::c5' : c5,
+        'b->s::c6' : c6
     }
     prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
+    return {k: np.real(prefactor * v) for k,v in dic.items()}
 
 
 # semileptonic operators
@@ -1382,7 +1382,9 @@ def Fierz_to_EOS_lep(C, ddll, parameters):
     ind = ddll.replace('l_','').replace('nu_','')
     ind2 = ddll.replace('l_','').replace('nu_','')[2::]
     e = sqrt(4* pi * parameters['alpha_e'])
-    dic = {
+    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
+    C = {k: prefactor * v for k,v in C.items()}
+    return {
         'b->s' + ind2 + '::Re{c9}'   : np.real((16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
         'b->s' + ind2 + '::Im{c9}'   : np.imag((16 * pi**2) / e**2 * C['F' + ind + '9'  ]),
         'b->s' + ind2 + "::Re{c9'}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + '9p' ]),
@@ -1404,8 +1406,6 @@ def Fierz_to_EOS_lep(C, ddll, parameters):
         'b->s' + ind2 + "::Re{cT5}"  : np.real((16 * pi**2) / e**2 * C['F' + ind + 'T5' ]),
         'b->s' + ind2 + "::Im{cT5}"  : np.imag((16 * pi**2) / e**2 * C['F' + ind + 'T5' ])
     }
-    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
 
 def JMS_to_FormFlavor_lep(C, dd):
     """From JMS to semileptonic Fierz basis for Classes V.
@@ -1597,7 +1597,9 @@ def Fierz_to_EOS_chrom(C, dd, parameters):
     e = sqrt(4 * pi * parameters['alpha_e'])
     gs = sqrt(4 * pi * parameters['alpha_s'])
     mb = parameters['m_b']
-    dic = {
+    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
+    C = {k: prefactor * v for k,v in C.items()}
+    return {
         "b->s::Re{c7}"  : np.real(16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
         "b->s::Im{c7}"  : np.imag(16 * pi**2 / mb / e  * C["F7gamma"  + dd]),
         "b->s::Re{c7'}" : np.real(16 * pi**2 / mb / e  * C["F7pgamma" + dd]),
@@ -1605,8 +1607,6 @@ def Fierz_to_EOS_chrom(C, dd, parameters):
         "b->s::c8"      : np.real(16 * pi**2 / mb / gs * C["F8g"      + dd]),
         "b->s::c8'"     : np.real(16 * pi**2 / mb / gs * C["F8pg"     + dd])
     }
-    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
-    return {k: prefactor * v for k,v in dic.items()}
 
 
 def JMS_to_FormFlavor_chrom(C, qq, parameters):
-- 
2.43.0


From 4e16893125f2e843270af257efa4103018508a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 12/21] fix: use the parameters option when translating after
 running in SMEFT

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 379d3dd..e43e1a1 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -236,7 +236,7 @@ class Wilson(ConfigurableClass):
             if eft == 'SMEFT':
                 smeft = SMEFT(self.wc.translate('Warsaw', sectors=translate_sectors, parameters=self.parameters))
                 # if input and output EFT ist SMEFT, just run.
-                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis)
+                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis, parameters=self.parameters)
                 self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out)
                 return wc_out
             else:
-- 
2.43.0


From d83114822dc610e9a7555c402a52bbb26690a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 13/21] fix: use the parameters option in the WET running

---
 wilson/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index e43e1a1..c87b3dc 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -195,7 +195,8 @@ class Wilson(ConfigurableClass):
     def _wetrun_opt(self):
         """Return a dictionary of options to pass to a `run.wet.WETrunner`
         instance."""
-        return {'qed_order': self.get_option('qed_order'),
+        return {'parameters': self.parameters,
+                'qed_order': self.get_option('qed_order'),
                 'qcd_order': self.get_option('qcd_order')}
 
     def match_run(self, scale, eft, basis, sectors='all'):
-- 
2.43.0


From c47d0571966672af80a8952c62326bb153e77f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 14/21] fix: match at the EW scale from any SMEFT basis, as is
 done after running

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index c87b3dc..f6c9fbb 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -245,7 +245,7 @@ class Wilson(ConfigurableClass):
                 wc_ew = self._get_from_cache(sector='all', scale=scale_ew, eft='WET', basis='JMS')
                 if wc_ew is None:
                     if self.wc.scale == scale_ew:
-                        wc_ew = self.wc.match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
+                        wc_ew = self.wc.translate('Warsaw', parameters=self.parameters).match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
                     else:
                         smeft = SMEFT(self.wc.translate('Warsaw', parameters=self.parameters))
                         wc_ew = smeft.run(scale_ew, accuracy=smeft_accuracy).match('WET', 'JMS', parameters=self.matching_parameters)
-- 
2.43.0


From 09ddd593ea86a6fad8757698cd58f5f37c1cde8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 15/21] fix: limit the output of match_run to the requested
 sectors also where no running is needed

---
 wilson/classes.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index f6c9fbb..01efd93 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -227,9 +227,10 @@ class Wilson(ConfigurableClass):
         mb = self.get_option('mb_matchingscale')
         mc = self.get_option('mc_matchingscale')
         if self.wc.basis == basis and self.wc.eft == eft and scale == self.wc.scale:
-            return self.wc  # nothing to do
+            return self._select_sectors(self.wc, sectors)  # nothing else to do
         if self.wc.eft == eft and scale == self.wc.scale:
             wc_out = self.wc.translate(basis, sectors=translate_sectors, parameters=self.parameters)  # only translation necessary
+            wc_out = self._select_sectors(wc_out, sectors)
             self._set_cache(sectors, scale, eft, basis, wc_out)
             return wc_out
         if self.wc.eft == 'SMEFT':
@@ -282,6 +283,17 @@ class Wilson(ConfigurableClass):
         else:
             raise ValueError(f"Running from {wet.eft} to {eft} not implemented")
 
+    @staticmethod
+    def _select_sectors(wc, sectors):
+        """Limit a `wcxf.WC` instance in WET (or WET-4 or WET-3) to the Wilson
+        coefficients of the given sectors."""
+        if sectors == 'all' or wc.eft == 'SMEFT':
+            return wc
+        basis_sectors = wcxf.Basis[wc.eft, wc.basis].sectors
+        names = {name for sector in sectors for name in basis_sectors.get(sector, {})}
+        return wcxf.WC(wc.eft, wc.basis, wc.scale,
+                       values={k: v for k, v in wc.values.items() if k in names})
+
     def clear_cache(self):
         self._cache = {}
 
-- 
2.43.0


From fbecf720b8e0f3e98f8bdad7c00b93424ead6f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 16/21] fix: do not modify the parameters dictionary of the
 caller when renaming 'delta' to 'gamma'

---
 wilson/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 01efd93..fa17651 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -56,8 +56,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = dict(value)
+            value['gamma'] = value.pop('delta')
         ####################################################################
         cls._default_options.update(cls._option_schema({key: value}))
 
@@ -75,8 +75,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = dict(value)
+            value['gamma'] = value.pop('delta')
         ####################################################################
         self._options.update(self._option_schema({key: value}))
         self.clear_cache()
-- 
2.43.0


From d7af5f33e6a74e29169d1bb103bdc4bda0eb6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 17/21] fix: the hash of a Wilson instance depends on the
 values of the options

---
 wilson/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index fa17651..dcd78f0 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -153,7 +153,9 @@ class Wilson(ConfigurableClass):
         """Return a hash of the `Wilson` instance.
         The hash changes when Wilson coefficient values or options are modified.
         It assumes that `wcxf.WC` instances are not modified after instantiation."""
-        return hash((self.wc, frozenset(self._options)))
+        options = frozenset((k, frozenset(v.items()) if isinstance(v, dict) else v)
+                            for k, v in self._options.items())
+        return hash((self.wc, options))
 
     @classmethod
     def from_wc(cls, wc):
-- 
2.43.0


From 72238a08c4098bda650f795b07b4460e37514141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 18/21] fix: continuous SMEFT solution contains the
 coefficients that vanish at some scale and the SM parameters

---
 wilson/run/smeft/rge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index f4d4aaf..57f6a7a 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -74,7 +74,11 @@ def smeft_evolve_continuous(C_in, scale_in, scale_out, newphys=True, **kwargs):
         t = log(scale)
         y = sol.sol(t).view(complex)
         yd = smeftutil.C_array2dict(y)
-        yw = smeftutil.arrays2wcxf_nonred(yd)
+        # keep the coefficients that vanish at this scale ...
+        yw = {k: 0j for k in smeftutil.all_wcs}
+        yw.update(smeftutil.arrays2wcxf_nonred(yd))
+        # ... and the SM parameters
+        yw.update(smeftutil.arrays2wcxf({k: yd[k] for k in smeftutil.dim4_keys}))
         return yw
     def rge_solution(scale):
         # this is to return a scalar if the input is scalar
-- 
2.43.0


From e9ec7f51dd7fd566626e6bda217b2a504194a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 19/21] fix: rotate the continuous SMEFT solution to the Warsaw
 basis like the result of `run`

---
 wilson/run/smeft/classes.py | 3 ++-
 wilson/run/smeft/rge.py     | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/wilson/run/smeft/classes.py b/wilson/run/smeft/classes.py
index 6387c9d..c1fc269 100644
--- a/wilson/run/smeft/classes.py
+++ b/wilson/run/smeft/classes.py
@@ -288,5 +288,6 @@ class SMEFT:
             scale_min = self.scale_in
         fun = rge.smeft_evolve_continuous(C_in=self.C_in,
                                           scale_in=self.scale_in,
-                                          scale_out=scale)
+                                          scale_out=scale,
+                                          rotate=self._rotate_defaultbasis)
         return wilson.classes.RGsolution(fun, scale_min, scale_max)
diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index 57f6a7a..06d10db 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -63,10 +63,13 @@ def smeft_evolve(C_in, scale_in, scale_out, newphys=True, **kwargs):
     return smeftutil.C_array2dict(sol.y[:, -1].view(complex))
 
 
-def smeft_evolve_continuous(C_in, scale_in, scale_out, newphys=True, **kwargs):
+def smeft_evolve_continuous(C_in, scale_in, scale_out, newphys=True, rotate=None, **kwargs):
     """Solve the SMEFT RGEs by numeric integration, returning a function that
     allows to compute an interpolated solution at arbitrary intermediate
-    scales."""
+    scales.
+
+    `rotate` is an optional function that is applied to the dictionary of arrays
+    at each scale, e.g. to rotate the coefficients to the Warsaw basis."""
     sol = _smeft_evolve(C_in, scale_in, scale_out, newphys=newphys,
                         dense_output=True, **kwargs)
     @np.vectorize
@@ -74,6 +77,8 @@ def smeft_evolve_continuous(C_in, scale_in, scale_out, newphys=True, **kwargs):
         t = log(scale)
         y = sol.sol(t).view(complex)
         yd = smeftutil.C_array2dict(y)
+        if rotate is not None:
+            yd = rotate(yd)
         # keep the coefficients that vanish at this scale ...
         yw = {k: 0j for k in smeftutil.all_wcs}
         yw.update(smeftutil.arrays2wcxf_nonred(yd))
-- 
2.43.0


From 709836ff916174d80f11141a1b7c6ac40ab0e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 20/21] fix: m_c at the scale m_c in theories with three and
 five flavours includes the flavour threshold

---
 wilson/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/util/qcd.py b/wilson/util/qcd.py
index e540bd2..a1ff878 100644
--- a/wilson/util/qcd.py
+++ b/wilson/util/qcd.py
@@ -95,7 +95,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185, loop=3):
 def m_c(mcmc, scale, f, alphasMZ=0.1185, loop=3):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     crd = rundec.CRunDec()
-- 
2.43.0


From b9c2efbbb2d543c52cf25e03cfd7d4bd499e20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 21/21] fix: get_gpbar raised AttributeError instead of
 ValueError when no hypercharge coupling solves the relation
 (scipy.optimize.nonlin is gone)

---
 wilson/run/smeft/smpar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/smeft/smpar.py b/wilson/run/smeft/smpar.py
index fe387f1..9082bbd 100644
--- a/wilson/run/smeft/smpar.py
+++ b/wilson/run/smeft/smpar.py
@@ -92,7 +92,7 @@ def get_gpbar(ebar, gbar, v, C):
             return (ebar_calc - ebar).real
         try:
             gpbar = scipy.optimize.brentq(f0, 0, 3)
-        except (scipy.optimize.nonlin.NoConvergence, ValueError) as e:
+        except (RuntimeError, ValueError):
             raise ValueError("No solution for gp found. This problem can be caused by very large values for one or several Wilson coefficients.")
     return gpbar * (1 - C['phiB'].real * (v**2))
 
-- 
2.43.0

