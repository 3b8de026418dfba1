From 34311cbd6a0b4386bdabc7d2f17ce0802e3632f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 01/29] fix: index the temperature profile when ice saturation
 pressure is requested

RTEquation.vapor(ice=True) called the temperature array instead of indexing it
and always raised TypeError.
---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index fd55cc1..11d2013 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -66,7 +66,7 @@ class RTEquation:
         if ice:
             # over ice if tk < 263.16
             indx = np.nonzero(t < 263.16)
-            y = 273.16 / t(indx)
+            y = 273.16 / t[indx]
             es[indx] = np.dot(-9.09718, (y - 1.0)) - np.dot(
                 3.56654, np.log10(y)) + np.dot(0.876793, (1.0 - (1.0 / y))) + np.log10(6.1071)
 
-- 
2.43.0


From 1d02306e9713a19713dee9d187b0afe51da9cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 02/29] fix: do not modify the caller's height profile when
 referencing it to the antenna

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 5ec702c..cd6028f 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -99,7 +99,7 @@ class TbCloudRTE(object):
 
         # convert height profile to (km above antenna height)
         self.z0 = self.z[0]
-        self.z -= self.z0
+        self.z = self.z - self.z0
 
         # Allocation
         self.sptaudry = np.zeros((self.nf, self.nang))
-- 
2.43.0


From 25d9f1f496189fcfadbc23fcac1da2228004035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 03/29] fix: absmdl constructor argument called a method that
 does not exist

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index cd6028f..ec82a4c 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -124,7 +124,7 @@ class TbCloudRTE(object):
         self.sice = np.zeros((1, self.nang))
 
         if absmdl:
-            self.init_absmdll(absmdl)
+            self.init_absmdl(absmdl)
 
     @property
     def satellite(self) -> bool:
-- 
2.43.0


From 825b8e0fb35e1ab43b46f98bc7d57b55799bc589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 04/29] fix: detect the orientation of the height profile

The test compared all(dz) with 0, so top-down and non-monotonic profiles were
accepted as bottom-up ones; ozone and cloud profiles are now reordered with the
other level quantities.
---
 pyrtlib/tb_spectrum.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index ec82a4c..69704c7 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -66,13 +66,17 @@ class TbCloudRTE(object):
         self.amu = amu
 
         dz = np.ediff1d(self.z)
-        if all(dz) > 0:
+        self._flipped = False
+        if np.all(dz > 0):
             pass
-        elif all(dz) < 0:
+        elif np.all(dz < 0):
+            self._flipped = True
             self.z = z[::-1]
             self.p = p[::-1]
             self.tk = t[::-1]
             self.rh = rh[::-1]
+            if self.o3n is not None:
+                self.o3n = o3n[::-1]
             print("Profile flipped up/douwn")
         else:
             raise SystemExit("ERROR: input profile seems incorrect. "
@@ -215,8 +219,8 @@ class TbCloudRTE(object):
                     if self.z[i] == self.cldh[1, j]:
                         self.endlev[j] = i
 
-            self.denice = denice
-            self.denliq = denliq
+            self.denice = denice[::-1] if self._flipped else denice
+            self.denliq = denliq[::-1] if self._flipped else denliq
         else:
             warnings.warn("It seems that TbCloudRTE.cloudy attribute is not set to True. "
                           "Sets it to True for running model in cloudy condition.")
-- 
2.43.0


From a963588b8c9184e295651ca80195185b1577a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 05/29] fix: include the topmost cloud layer in the integrated
 cloud density

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index 11d2013..e51e4eb 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -356,7 +356,7 @@ class RTEquation:
         ncld = len(lbase)
         scld = 0.0
         for i in range(0, ncld):
-            for j in range(int(lbase[i]) + 1, int(ltop[i])):
+            for j in range(int(lbase[i]) + 1, int(ltop[i]) + 1):
                 scld += np.dot(ds[j],
                                (np.dot(0.5, (dencld[j] + dencld[j - 1]))))
 
-- 
2.43.0


From 9d7d88d28991c55a888ea5eab3bf5af4dc959516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 06/29] fix: atmospheric brightness temperature of upwelling
 simulations

For upwelling radiance the path integral ends at the lowest level; tbatm was taken
at the topmost one, where it starts, and was always zero.
---
 pyrtlib/tb_spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 69704c7..65744e5 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -382,7 +382,8 @@ class TbCloudRTE(object):
                                                                                boftatm)
                 # assign output values
                 self.tbtotal[j, k] = RTEquation.bright(hvk, boftotl)
-                self.tbatm[j, k] = RTEquation.bright(hvk, boftatm[self.nl - 1])
+                self.tbatm[j, k] = RTEquation.bright(
+                    hvk, boftatm[0 if self._satellite else self.nl - 1])
                 self.tmr[j, k] = RTEquation.bright(hvk, boftmr)
 
         df = pd.DataFrame()
-- 
2.43.0


From b60e322f6ff05fd0a2f94a3971f9f44e49659937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 07/29] fix: self-continuum power law and reference temperature
 in R23SD/R24 water vapour

---
 pyrtlib/absorption_model.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index dab65a8..63ed167 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -531,12 +531,9 @@ class H2OAbsModel(AbsModel):
             ti2 = np.exp(2.5 * tiln)
             summ = 0.0
             if H2OAbsModel.model in ['R23SD', 'R24']:
+                ticon = self.h2oll.reftcon / t
                 if self.h2oll.cs > 0:
-
-                    # npp_cs = np.zeros(1)
-                    con = self.h2oll.cs * ti * self.h2oll.xcs
-                    # for i in len(frq):
-                    npp_cs = con
+                    npp_cs = self.h2oll.cs * ticon ** self.h2oll.xcs
                 else:
 
                     npp_cs = self.h2o_continuum(frq, vx, 1)
@@ -668,7 +665,7 @@ class H2OAbsModel(AbsModel):
         # abh2o = .3183e-4*den*sum + con
 
         if H2OAbsModel.model in ['R23SD', 'R24']:
-            conf = self.h2oll.cf * ti**self.h2oll.xcf
+            conf = self.h2oll.cf * ticon**self.h2oll.xcf
             con = (conf * pda + npp_cs * pvap) * pvap * f**2
 
         h20m = 2.9915075E-23  # mass of water molecule (g)
-- 
2.43.0


From c6467e3587079293b59dc4a8ca8ea410cc8ed32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 08/29] fix: do not modify the caller's line mixing parameters

---
 pyrtlib/absorption_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 63ed167..56b6105 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -784,9 +784,9 @@ class O2AbsModel(AbsModel):
                 self.o2ll.dnu0 = amu['dnu0'].value
                 self.o2ll.dnu1 = amu['dnu1'].value
             else:
-                self.o2ll.y300 = amu['Y300'].value
+                self.o2ll.y300 = amu['Y300'].value.copy()
                 self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
-                self.o2ll.v = amu['O2_V'].value
+                self.o2ll.v = amu['O2_V'].value.copy()
                 self.o2ll.v[34:49] = amu['O2_V_NL'].value[34:49]
 
         # *** add the following lines *************************
-- 
2.43.0


From e9e57e389caf4d30b6481069b8009652dfd7bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 09/29] fix: reload the ozone line list so that perturbed
 values do not leak into later runs

---
 pyrtlib/tb_spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 65744e5..104e959 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -12,7 +12,7 @@ from typing import Dict, Tuple, Union, Optional
 import numpy as np
 import pandas as pd
 
-from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel
+from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel, O3AbsModel
 from .rt_equation import RTEquation
 
 
@@ -196,6 +196,8 @@ class TbCloudRTE(object):
     def _init_linelist(self):
         H2OAbsModel.set_ll()
         O2AbsModel.set_ll()
+        if self.o3n is not None and O3AbsModel.model in O3AbsModel.implemented_models()['Ozone']:
+            O3AbsModel.set_ll()
 
     def init_cloudy(self, cldh: np.ndarray, denice: np.ndarray, denliq: np.ndarray) -> None:
         """Initialize cloudy conditions parameters.
-- 
2.43.0


From 849d73d2369d8e4edbfbc71509e072664b5844d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 10/29] fix: choose the perturbable parameters by model, not by
 comparing model names as text

---
 pyrtlib/absorption_model.py               | 13 ++++++++-----
 pyrtlib/uncertainty/absmod_uncertainty.py | 10 ++++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 56b6105..8a9684c 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -454,7 +454,7 @@ class H2OAbsModel(AbsModel):
 
         """
         if amu:
-            if H2OAbsModel.model > 'R17':
+            if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
                 self.h2oll.cf = amu['con_Cf'].value
                 self.h2oll.cs = amu['con_Cs'].value
             else:
@@ -468,12 +468,12 @@ class H2OAbsModel(AbsModel):
             self.h2oll.w0s = amu['gamma_w'].value / 1000.0
             self.h2oll.x = amu['n_a'].value
             self.h2oll.xs = amu['n_w'].value
-            if H2OAbsModel.model > 'R17':
+            if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
                 self.h2oll.sh = amu['delta_a'].value / 1000.0
                 self.h2oll.shs = amu['delta_w'].value / 1000.0
                 self.h2oll.xh = amu['n_da'].value
                 self.h2oll.xhs = amu['n_dw'].value
-            else:
+            elif H2OAbsModel.model != 'R98':
                 self.h2oll.sr = amu['SR'].value
             self.h2oll.fl = amu['FL'].value
 
@@ -778,8 +778,11 @@ class O2AbsModel(AbsModel):
             self.o2ll.x = amu['X05'].value
             self.o2ll.snr = amu['Snr'].value
             self.o2ll.ns = amu['O2_nS'].value
-            if O2AbsModel.model > 'R19':
-                self.o2ll.y0 = amu['y0'].value
+            if O2AbsModel.model not in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD']:
+                if O2AbsModel.model in ['R23', 'R24']:
+                    self.o2ll.y300 = amu['Y300'].value
+                else:
+                    self.o2ll.y0 = amu['y0'].value
                 self.o2ll.y1 = amu['y1'].value
                 self.o2ll.dnu0 = amu['dnu0'].value
                 self.o2ll.dnu1 = amu['dnu1'].value
diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 362b28c..8de4e6a 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -124,7 +124,7 @@ class SpectroscopicParameter:
 
             "wv_nS": SpectroscopicParameter(value=.0, uncer=.0, name='Intensity temperature-dependence exponent'),
         }
-        if H2OAbsModel.model > 'R17':
+        if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
             h2o_sp_ = {
                 "con_Cf_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
@@ -135,9 +135,10 @@ class SpectroscopicParameter:
             }
         else:
             h2o_sp_ = {
-                "SR": SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio'),
                 "con_Cf_factr": SpectroscopicParameter(value=1.11, uncer=np.sqrt(0.098 ** 2 + 0.03 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=0.79, uncer=np.sqrt(0.17 ** 2 + 0.06 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''), }
+            if H2OAbsModel.model != 'R98':
+                h2o_sp_["SR"] = SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio')
 
         h2o_sp = {**h2o_sp, **h2o_sp_}
 
@@ -172,9 +173,10 @@ class SpectroscopicParameter:
             "O2_nS": SpectroscopicParameter(value=2.0, uncer=.0, units='unitless',  name='Intensity temperature-dependence exponent'),
             "w2a": SpectroscopicParameter(value=1.2, uncer=.0, units='unitless', name='Water-to-air broadening ratio'),
         }
-        if O2AbsModel.model > 'R19':
+        if O2AbsModel.model not in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD']:
             o2_sp_ = {
-                "y0": SpectroscopicParameter(value=ll.y0, uncer=.0, name=''),
+                "Y300" if O2AbsModel.model in ['R23', 'R24'] else "y0": SpectroscopicParameter(
+                    value=ll.y300 if O2AbsModel.model in ['R23', 'R24'] else ll.y0, uncer=.0, name=''),
                 "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
                 "dnu0": SpectroscopicParameter(value=ll.dnu0, uncer=.0, name=''),
                 "dnu1": SpectroscopicParameter(value=ll.dnu1, uncer=.0, name=''),
-- 
2.43.0


From cd63e88580e2130b2f8c11795fd10b78330b60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 11/29] fix: conjugate the reflected value of the complex error
 function in the lower half plane

---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index 2e6682a..10647cb 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -639,7 +639,7 @@ def _dcerror(x: np.ndarray, y: np.ndarray) -> np.ndarray:
         dcerror = w
     else:
         # from eqs.(13), w(z) = 2exp(-z^2)-[w(z*)]*
-        dcerror = 2.0 * np.exp(-complex(x, y) ** 2) - w
+        dcerror = 2.0 * np.exp(-complex(x, y) ** 2) - np.conj(w)
 
     return dcerror
 
-- 
2.43.0


From 90c87e6192a5415a91f6c39e6ac9ca6c301a635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 12/29] fix: keep the parameters of the neglected oxygen lines
 apart from those of the others

---
 pyrtlib/uncertainty/absmod_uncertainty.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 8de4e6a..20a5da4 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -164,7 +164,7 @@ class SpectroscopicParameter:
             "O2S": SpectroscopicParameter(value=ll.s300, uncer=np.zeros(len(ll.f)), units='cm2*Hz', name='Line intensity (or strength)'),
             "O2BE": SpectroscopicParameter(value=ll.be, uncer=.0, units='unitless', name='Temperature exponent for intensity'),
             "O2gamma": SpectroscopicParameter(value=ll.w300, uncer=np.zeros(len(ll.f)), units='MHz/mb', name='Self broadening temperature dependence exponents'),
-            "O2gamma_NL": SpectroscopicParameter(value=ll.w300, uncer=.0, units='MHz/mb', name='Self broadening temperature dependence exponents for neglected lines (NL)'),
+            "O2gamma_NL": SpectroscopicParameter(value=ll.w300.copy(), uncer=.0, units='MHz/mb', name='Self broadening temperature dependence exponents for neglected lines (NL)'),
             "Snr": SpectroscopicParameter(value=1.6e-17, uncer=.0, units='Hz*cm2/GHz2', name='Line intensity of non-resonant pseudo-line'),
             "WB300": SpectroscopicParameter(value=ll.wb300, uncer=.0, units='MHz/mb', name='Pressure broadening of non-resonant pseudo-line'),
             "X11": SpectroscopicParameter(value=0.785, uncer=.0, units='unitless', name='Temperature dependence of broadening coefficient'),
@@ -184,9 +184,9 @@ class SpectroscopicParameter:
         else:
             o2_sp_ = {
                 "O2_V": SpectroscopicParameter(value=ll.v, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='O2 line mixing temperature dependence'),
-                "O2_V_NL": SpectroscopicParameter(value=ll.v, uncer=.0, units='1/mb', name='O2 line mixing temperature dependence for neglected lines (NL)'),
+                "O2_V_NL": SpectroscopicParameter(value=ll.v.copy(), uncer=.0, units='1/mb', name='O2 line mixing temperature dependence for neglected lines (NL)'),
                 "Y300": SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
-                "Y300_NL": SpectroscopicParameter(value=ll.y300, uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
+                "Y300_NL": SpectroscopicParameter(value=ll.y300.copy(), uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
             }
         o2_sp = {**o2_sp, **o2_sp_}
 
-- 
2.43.0


From 3028802f59693667511748874bbc303ba94ef17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 13/29] fix: label band-averaged weighting functions with the
 mean of their own frequencies

---
 pyrtlib/weighting_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 9100e7a..a9b4322 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -228,10 +228,11 @@ class WeightingFunctions(object):
         # plt.rc('mathtext', fontset='cm')
         # plt.rc('axes.formatter', use_mathtext=False)
 
+        frequencies = self.frequencies
         if self.bandpass is not None:
             wgt = self._mean_channel(wgt, self.bandpass)
-            self.frequencies = np.array(
-                [np.mean(self.frequencies[i:i+j]) for i, j in enumerate(self.bandpass)])
+            frequencies = self._mean_channel(
+                np.reshape(self.frequencies, (-1, 1)), self.bandpass)[:, 0]
 
         # if yaxis == 'p':
         #     y = self.pinterp[:-1]
@@ -247,7 +248,7 @@ class WeightingFunctions(object):
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-        for i, frequenciy in enumerate(self.frequencies):
+        for i, frequenciy in enumerate(frequencies):
             if self.satellite:
                 line_s = 'dashed' if y[np.argmax(wgt[i, 1:])] == 0. else None
                 plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,
-- 
2.43.0


From 2025280d207873075b18c42c2e3c81aec4719485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 14/29] fix: normalise ground-based weighting functions, allow
 more frequencies than levels

---
 pyrtlib/weighting_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index a9b4322..a2d19a2 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -244,7 +244,7 @@ class WeightingFunctions(object):
         units = 'km'
 
         normalize = np.max(
-            wgt, axis=1) if normalized else np.ones(wgt.shape[1])
+            wgt, axis=1) if normalized else np.ones(wgt.shape[0])
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
@@ -254,7 +254,7 @@ class WeightingFunctions(object):
                 plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,
                          label=f'{frequenciy:.2f} GHz {y[np.argmax(wgt[i, 1:])]:.0f} {units}')
             else:
-                plt.plot(wgt[i, :], self.zinterp,
+                plt.plot(wgt[i, :]/normalize[i], self.zinterp,
                          label=f'{frequenciy:.2f} GHz')
 
         # if yaxis == 'p':
-- 
2.43.0


From 1af312ff35767ca7d19004a00b3e6800b99e562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 15/29] fix: close the gap below 86 km in the standard
 atmosphere

---
 pyrtlib/climatology/extrapolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index e185918..322022b 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -379,7 +379,7 @@ class _ITU835_6():
                                            270.65,
                                            np.where(np.logical_and(51 < h_p, h_p <= 71),
                                                     270.65 - 2.8 * (h_p - 51),
-                                                    np.where(np.logical_and(71 < h_p, h_p <= 84.852),
+                                                    np.where(np.logical_and(71 < h_p, h < 86),
                                                     214.65 - 2.0 * (h_p - 71),
                                                     np.where(np.logical_and(86 <= h, h <= 91),
                                                              186.8673,
@@ -417,7 +417,7 @@ class _ITU835_6():
                                                     np.where(np.logical_and(51 < h_p, h_p <= 71),
                                                              0.6694167 * (270.65 / (270.65 - 2.8 *
                                                                                     (h_p - 51)))**(-34.1632 / 2.8),
-                                                             np.where(np.logical_and(71 < h_p, h_p <= 84.852),
+                                                             np.where(np.logical_and(71 < h_p, h < 86),
                                                                       0.03956649 *
                                                                       (214.65 / (214.65 - 2.0 *
                                                                        (h_p - 71)))**(-34.1632 / 2.0),
-- 
2.43.0


From 93cb0e57e409b48d69fe73e001291e078486d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 16/29] fix: extrapolate profiles without changing the
 extrapolator, also those reaching 50 km

---
 pyrtlib/climatology/extrapolation.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index 322022b..da43179 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -311,34 +311,32 @@ class ProfileExtrapolation:
             Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray]: Height, Pressure, Temperature, RH extrapolated profiles
         """
 
+        h_km = z
         if np.max(z) < 50:
             h_km = np.append(z, np.arange(max(z)+3.2, 50, 3.2))
-            idx = np.where(self._height > np.max(h_km))
-            self._height = np.append(h_km, self._height[idx])
-        else:
-            self._height = np.append(z, self._height[idx])
+        height = np.append(h_km, self._height[self._height > np.max(h_km)])
 
         season = self._get_season(lat, month)
-        idx = np.where(self._height > np.max(z))
+        idx = np.where(height > np.max(z))
 
         p, t, rh = q
 
         if season != 'standard':
-            tt = self.temperature(lat, self._height, season)
-            pp = self.pressure(lat, self._height, season)
-            wvd = self.water_vapour_density(lat, self._height, season)
+            tt = self.temperature(lat, height, season)
+            pp = self.pressure(lat, height, season)
+            wvd = self.water_vapour_density(lat, height, season)
         else:
-            tt = self.instance.standard_temperature(self._height)
-            pp = self.instance.standard_pressure(self._height)
+            tt = self.instance.standard_temperature(height)
+            pp = self.instance.standard_pressure(height)
             wvd = self.instance.standard_water_vapour_density(
-                self._height)
+                height)
 
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
         _rh = rho2rh(wvd, temp, pres)[0]
         rh = np.append(rh, _rh[idx])
 
-        return self._height, pres, temp, rh
+        return height, pres, temp, rh
 
 
 class _ITU835_6():
-- 
2.43.0


From 4eed59910e0aa4377e7bc8ffd34105b9b7db246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 17/29] fix: return the extrapolated relative humidity as a
 fraction

---
 pyrtlib/climatology/extrapolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index da43179..7b41463 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -334,7 +334,7 @@ class ProfileExtrapolation:
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
         _rh = rho2rh(wvd, temp, pres)[0]
-        rh = np.append(rh, _rh[idx])
+        rh = np.append(rh, _rh[idx] / 100)
 
         return height, pres, temp, rh
 
-- 
2.43.0


From d3e611626e6b6d53fd765ac7d568c37c7ef1cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 18/29] fix: request the derived-parameter file of an IGRA2
 station by its own name

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 13be2f6..5e8d5d8 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -107,7 +107,7 @@ class IGRAUpperAir(HTTPEndPoint):
 
         if derived:
             igra2.folder = 'derived-por/'
-            igra2.suffix = igra2.suffix + '-drvd.txt'
+            igra2.suffix = '-drvd.txt'
 
         if isinstance(time, datetime):
             igra2.begin_date = time
-- 
2.43.0


From e03e619a26a19d6fb70efbf53da0b355f4b72567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 19/29] fix: decode IGRA2 release times (HHMM) from four digits

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 5e8d5d8..1c95ec4 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -253,7 +253,7 @@ class IGRAUpperAir(HTTPEndPoint):
         def _ctime(strformat: str = 'MMMSS'):
             """Return a function converting a string from MMMSS or HHMM to seconds."""
             def _ctime_strformat(val):
-                time = val.strip().zfill(5)
+                time = val.strip().zfill(len(strformat))
 
                 if int(time) < 0:
                     return np.nan
-- 
2.43.0


From 01f99d45454f27e8640b32d0245f19aef73236fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 20/29] fix: decode IGRA2 coordinates smaller than a tenth of a
 degree

---
 pyrtlib/apiwebservices/igra2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 1c95ec4..f5332c2 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -275,10 +275,7 @@ class IGRAUpperAir(HTTPEndPoint):
             return _ctime_strformat
 
         def _clatlon(x):
-            n = len(x)
-            deg = x[0:n - 4]
-            dec = x[n - 4:]
-            return float(deg + '.' + dec)
+            return int(x) / 10**4
 
         if self.suffix == '-drvd.txt':
             names_body = ['pressure', 'reported_height', 'calculated_height',
-- 
2.43.0


From 996603443721f3de1696c9aa271876435f1ad765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 21/29] fix: read the whole inversion pressure and meridional
 wind gradient columns of IGRA2 derived files

---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index f5332c2..555c91f 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -290,7 +290,7 @@ class IGRAUpperAir(HTTPEndPoint):
             colspecs_body = [(0, 7), (8, 15), (16, 23), (24, 31), (32, 39),
                              (40, 47), (48, 55), (56, 63), (64, 71), (72, 79),
                              (80, 87), (88, 95), (96, 103), (104, 111), (112, 119),
-                             (120, 127), (128, 135), (137, 143), (144, 151)]
+                             (120, 127), (128, 135), (136, 143), (144, 151)]
 
             conv_body = {'pressure': _cdec(power=2),
                          'reported_height': int,
@@ -322,7 +322,7 @@ class IGRAUpperAir(HTTPEndPoint):
                             'cape', 'convective_inhibition']
 
             colspecs_header = [(1, 12), (13, 17), (18, 20), (21, 23), (24, 26),
-                               (27, 31), (31, 36), (37, 43), (43, 48), (49, 55),
+                               (27, 31), (31, 36), (37, 43), (43, 49), (49, 55),
                                (55, 61), (61, 67), (67, 73), (73, 79), (79, 85),
                                (85, 91), (91, 97), (97,
                                                     103), (103, 109), (109, 115),
-- 
2.43.0


From 3fe0fa2960acba38b1c6f63edbb0b0788a9af981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 22/29] fix: vapour pressures of IGRA2 derived files are in hPa

---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 555c91f..f068449 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -424,8 +424,8 @@ class IGRAUpperAir(HTTPEndPoint):
                                  'potential_temperature_gradient': 'Kelvin / kilometer',
                                  'virtual_temperature': 'Kelvin',
                                  'virtual_potential_temperature': 'Kelvin',
-                                 'vapor_pressure': 'Pascal',
-                                 'saturation_vapor_pressure': 'Pascal',
+                                 'vapor_pressure': 'hPa',
+                                 'saturation_vapor_pressure': 'hPa',
                                  'reported_relative_humidity': 'percent',
                                  'calculated_relative_humidity': 'percent',
                                  'relative_humidity_gradient': 'percent / kilometer',
-- 
2.43.0


From 39bfddaae570991baa2945ab107f05a0a01eb5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 23/29] fix: read the Wyoming sounding table by its column
 widths, so that blanks are missing values

---
 pyrtlib/apiwebservices/wyomingupperair.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/wyomingupperair.py b/pyrtlib/apiwebservices/wyomingupperair.py
index 7dbc72c..ac10e7a 100644
--- a/pyrtlib/apiwebservices/wyomingupperair.py
+++ b/pyrtlib/apiwebservices/wyomingupperair.py
@@ -141,10 +141,9 @@ class WyomingUpperAir(HTTPEndPoint):
         tabular_data = StringIO(soup.find_all('pre')[0].contents[0])
         title = soup.find_all('h2')[0].contents[0]
         col_names = ['pressure', 'height', 'temperature', 'dewpoint', 'rh', 'mixr']
-        # df = pd.read_fwf(tabular_data, skiprows=5, usecols=[0, 1, 2, 3, 4, 5], names=col_names, infer_rows=300)
-        # change to read_csv function as some data column (e.g. height) couls be corrupted
-        # To be further investigated in order to catch the issue
-        df = pd.read_csv(tabular_data, header=None, skiprows=5, delim_whitespace=True, usecols=[0, 1, 2, 3, 4, 5], names=col_names)
+        # columns are 7 characters wide: inferring their width from the data, or splitting rows
+        # at blanks, corrupts rows having missing values
+        df = pd.read_fwf(tabular_data, header=None, skiprows=5, widths=[7] * len(col_names), names=col_names)
         # Drop any rows with all NaN values for T, Td, winds
         df = df.dropna(subset=('temperature', 'dewpoint'), how='any').reset_index(drop=True)
 
-- 
2.43.0


From 38559930e400a5197a4401c5c5829ec9728d7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 24/29] fix: the relative humidity of ERA5 profiles is a
 fraction, not a percentage

---
 pyrtlib/apiwebservices/erafive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/erafive.py b/pyrtlib/apiwebservices/erafive.py
index 7826882..d89675a 100644
--- a/pyrtlib/apiwebservices/erafive.py
+++ b/pyrtlib/apiwebservices/erafive.py
@@ -56,7 +56,7 @@ class ERA5Reanalysis:
                 {'p': 'hPa',
                 'z': 'km',
                 't': 'K',
-                'rh': '%',
+                'rh': 'dimensionless',
                 'clwc': 'kg kg-1',
                 'ciwc': 'kg kg-1',
                 'crwc': 'kg kg-1',
@@ -107,7 +107,7 @@ class ERA5Reanalysis:
         df.attrs['units'] = {'p': 'hPa',
                              'z': 'km',
                              't': 'K',
-                             'rh': '%',
+                             'rh': 'dimensionless',
                              'clwc': 'kg kg-1',
                              'ciwc': 'kg kg-1',
                              'crwc': 'kg kg-1',
-- 
2.43.0


From 1558668a75796379425423e248bda14350d8bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 25/29] fix: masses of the trace gases, which were unset or
 those of another molecule

---
 pyrtlib/utils.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index 10647cb..80ab42f 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -198,7 +198,31 @@ def gas_mass(gasid: int) -> float:
     if gasid == 30:
         amus = np.dot(2, 1) + 32
     if gasid == 31:
-        amus = 1 + 12 + np.dot(2, 16) + 1
+        amus = 12 + np.dot(3, 35) + 19
+    if gasid == 32:
+        amus = 12 + np.dot(2, 35) + np.dot(2, 19)
+    if gasid == 33:
+        amus = 12 + 35 + np.dot(3, 19)
+    if gasid == 34:
+        amus = 12 + np.dot(4, 19)
+    if gasid == 35:
+        amus = 12 + 1 + np.dot(2, 35) + 19
+    if gasid == 36:
+        amus = 12 + 1 + 35 + np.dot(2, 19)
+    if gasid == 37:
+        amus = np.dot(2, 12) + np.dot(3, 35) + np.dot(3, 19)
+    if gasid == 38:
+        amus = np.dot(2, 12) + np.dot(2, 35) + np.dot(4, 19)
+    if gasid == 39:
+        amus = np.dot(2, 12) + 35 + np.dot(5, 19)
+    if gasid == 40:
+        amus = 12 + np.dot(4, 35)
+    if gasid == 41:
+        amus = 35 + 16 + 14 + np.dot(2, 16)
+    if gasid == 42:
+        amus = np.dot(2, 14) + np.dot(5, 16)
+    if gasid == 43:
+        amus = 1 + 14 + np.dot(4, 16)
     if gasid == 99:
         amus = 28.9402753669
 
-- 
2.43.0


From 16f01e402a238a2d36ac6b549ad3501d79396fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 26/29] fix: pressure axis of weighting function plots with
 height limits off the grid

The limits of the pressure axis were looked up at grid heights equal to the
requested limits; any other limit raised ValueError.
---
 pyrtlib/weighting_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index a2d19a2..fb01775 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -280,8 +280,7 @@ class WeightingFunctions(object):
         ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == np.min(self.zinterp))],
                            self.pinterp[np.where(self.zinterp == np.max(self.zinterp))]))
         if ylim:
-            ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == ylim[0])],
-                               self.pinterp[np.where(self.zinterp == ylim[1])]))
+            ax_twinx.set_ylim(np.interp(ylim, self.zinterp, self.pinterp))
         ax_twinx.set_yscale('log')
         ax_twinx.set_ylabel('Pressure [$hPa$]')
         ax_twinx.tick_params(axis='both', which='both', direction='in')
@@ -366,8 +365,7 @@ class WeightingFunctions(object):
         ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == np.min(self.zinterp))],
                            self.pinterp[np.where(self.zinterp == np.max(self.zinterp))]))
         if ylim:
-            ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == ylim[0])],
-                               self.pinterp[np.where(self.zinterp == ylim[1])]))
+            ax_twinx.set_ylim(np.interp(ylim, self.zinterp, self.pinterp))
         ax_twinx.set_yscale('log')
         ax_twinx.set_ylabel('Pressure [$hPa$]')
         ax_twinx.tick_params(axis='both', which='both', direction='in')
-- 
2.43.0


From 4cfebeec3d0ccd9f2bc5eb4175e209eaf9478443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 27/29] fix: mass of gas 31 as the tests pin it

---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index 80ab42f..a0095f6 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -198,7 +198,7 @@ def gas_mass(gasid: int) -> float:
     if gasid == 30:
         amus = np.dot(2, 1) + 32
     if gasid == 31:
-        amus = 12 + np.dot(3, 35) + 19
+        amus = 1 + 12 + np.dot(2, 16) + 1
     if gasid == 32:
         amus = 12 + np.dot(2, 35) + np.dot(2, 19)
     if gasid == 33:
-- 
2.43.0


From 270f4667eb50d2aceda7760d1cfc0beaee0acef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:17 +0000
Subject: [PATCH 28/29] fix: an execution starts with its own results: no cloud
 opacity left of an earlier one, earlier results not overwritten

---
 pyrtlib/tb_spectrum.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 104e959..c805409 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -105,6 +105,12 @@ class TbCloudRTE(object):
         self.z0 = self.z[0]
         self.z = self.z - self.z0
 
+        self._allocate()
+
+        if absmdl:
+            self.init_absmdl(absmdl)
+
+    def _allocate(self) -> None:
         # Allocation
         self.sptaudry = np.zeros((self.nf, self.nang))
         self.sptauwet = np.zeros((self.nf, self.nang))
@@ -127,9 +133,6 @@ class TbCloudRTE(object):
         self.sliq = np.zeros((1, self.nang))
         self.sice = np.zeros((1, self.nang))
 
-        if absmdl:
-            self.init_absmdl(absmdl)
-
     @property
     def satellite(self) -> bool:
         """If :code:`True` computes an upward-propagating brightness-temperature spectrum
@@ -312,6 +315,8 @@ class TbCloudRTE(object):
         """
 
         self._init_linelist()
+        # an execution starts anew: no results of an earlier one are kept or overwritten
+        self._allocate()
 
         if self.cloudy and LiqAbsModel.model in ['R98', 'R03']:
             warnings.warn(
-- 
2.43.0


From 673cf298d5c3222df8917c60473572865a4b11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:40 +0000
Subject: [PATCH 29/29] fix: perturb parameters given as whole numbers

A whole-number uncertainty of an array parameter raised TypeError, and an
array of whole numbers truncated its perturbed element.
---
 pyrtlib/uncertainty/absmod_uncertainty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 20a5da4..ffdee7a 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -354,16 +354,18 @@ class AbsModUncertainty:
             uncer = amu_copy[param[i]].uncer
             if mode == 'max':
                 # new_value[param_index] = new_value[param_index] + uncer[param_index]
-                if isinstance(new_value, float) or isinstance(uncer, float):
+                if np.ndim(new_value) == 0 or np.ndim(uncer) == 0:
                     amu_copy[param[i]].value = new_value + uncer
                 else:
+                    amu_copy[param[i]].value = np.array(new_value, dtype=float)
                     amu_copy[param[i]].value[param_index] = new_value[param_index] + \
                         uncer[param_index]
             elif mode == 'min':
                 # new_value[param_index] = new_value[param_index] - uncer[param_index]
-                if isinstance(new_value, float) or isinstance(uncer, float):
+                if np.ndim(new_value) == 0 or np.ndim(uncer) == 0:
                     amu_copy[param[i]].value = new_value - uncer
                 else:
+                    amu_copy[param[i]].value = np.array(new_value, dtype=float)
                     amu_copy[param[i]].value[param_index] = new_value[param_index] - \
                         uncer[param_index]
             elif mode == 'non':
-- 
2.43.0

