From 0c22b74ec3ddea68d0ea7812e27f766ea7c424d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 01/42] fix: harmonic_balance must not modify the circuit or
 the initial guess it is given

---
 qmix/harmonic_balance.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index bb4937f..5da4e2b 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -90,9 +90,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
 
     # Check whether any Thevenin voltages are zero (prevents div0 errors) ----
 
-    vt[np.abs(vt) < MIN_VT] = MIN_VT
-    vt[0, :] = 0  # TODO: is this needed?
-    vt[:, 0] = 0
+    vt = _nonzero_vt(vt)
 
     # Initial guess of the junction voltage (vj) -----------------------------
 
@@ -112,7 +110,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     # voltage) will be transformed into a matrix with shape 6 x npts.
 
     # Change format of data from [f, p] to [p] (reduce by one dimension)
-    vj_2d = vj_initial[1:, 1:, :].reshape((num_n, npts))
+    vj_2d = np.array(vj_initial[1:, 1:, :], dtype=complex).reshape((num_n, npts))
     vt_2d = vt[1:, 1:].reshape(num_n)
     zt_2d = zt[1:, 1:].reshape(num_n)
 
@@ -257,12 +255,15 @@ def check_hb_error(vj_check, cct, resp, num_b=15, stop_rerror=0.001):
 
     print("Double-checking harmonic balance error:")
 
+    # Thevenin voltages used by the harmonic balance procedure
+    vt = _nonzero_vt(cct.vt)
+
     # Tunnelling current for all tones/harmonics (see below)
     ij_all = _qtcurrent_all_freq(vj_check, cct, resp, num_b)
 
     for f in range(1, cct.num_f + 1):
         for p in range(1, cct.num_p + 1):
-            error_fp = cct.vt[f, p] - \
+            error_fp = vt[f, p] - \
                        cct.zt[f, p] * ij_all[f, p, :] - \
                        vj_check[f, p, :]
             max_rel_error = np.max(np.abs(error_fp) /
@@ -401,6 +402,18 @@ def _qt_current_for_hb(vj_2d, cct, resp, num_b, resp_matrix=None):
 
 # General helper functions --------------------------------------------------
 
+def _nonzero_vt(vt):
+    """ Copy the Thevenin voltages, replacing any zeros with MIN_VT (to prevent
+    div0 errors). The original array is not changed. """
+
+    vt = np.array(vt, dtype=complex)
+    vt[np.abs(vt) < MIN_VT] = MIN_VT
+    vt[0, :] = 0  # TODO: is this needed?
+    vt[:, 0] = 0
+
+    return vt
+
+
 def _k_to_fp(k, num_p):
     """ Given the index 'k' (i.e., the 1-d index), find the equivalent index
     in '[f,p]' (i.e., the 2-d index). """
-- 
2.43.0


From 21b906909854890b60f7ad27ac20690d59fc4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 02/42] fix: harmonic_balance reports convergence correctly in
 modes 'x' and 'm'

---
 qmix/harmonic_balance.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index 5da4e2b..ec56a7e 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -86,7 +86,12 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if (zt == 0).all():
         if verbose:
             print("Done.\n")
-        return vt[:, :, None] * np.ones(npts, dtype=complex)
+        vj_out = vt[:, :, None] * np.ones(npts, dtype=complex)
+        if mode == "x":
+            return vj_out, 0, True
+        elif mode == "m":
+            return vj_out, np.ones(npts, dtype=bool)
+        return vj_out
 
     # Check whether any Thevenin voltages are zero (prevents div0 errors) ----
 
@@ -220,8 +225,8 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if mode == "o":  # return vj
         return vj_out
     elif mode == "x":  # return vj, number of iterations, and if converged
-        did_not_hit_max_it = iteration != max_it
-        return vj_out, iteration, did_not_hit_max_it
+        converged = bool(max_rel_error <= stop_rerror)
+        return vj_out, iteration, converged
     elif mode == "m":  # return vj and mask
         return vj_out, finished_points
 
-- 
2.43.0


From 593f2f850b3b7d8207ac5bef3c49e06b481c632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 03/42] fix: EmbeddingCircuit sets igap when the gap is given
 as a frequency

---
 qmix/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index fb83274..ab076f6 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -231,8 +231,8 @@ class EmbeddingCircuit(object):
         # Normal-state resistance
         if rn is not None:
             self.rn = float(rn)
-        if vgap is not None and rn is not None:
-            self.igap = vgap / rn
+        if self.vgap is not None and self.rn is not None:
+            self.igap = self.vgap / self.rn
 
         # Initialize embedding circuit
         self.freq = np.zeros((num_f + 1), dtype=float)
-- 
2.43.0


From 7cfba51c18346de5a5498f6b5fe8db5e38926950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 04/42] fix: EmbeddingCircuit.vph returns the photon voltages
 instead of raising

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index ab076f6..00fc90d 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -575,7 +575,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        return self.cct
+        return self.freq
 
 
 def read_circuit(filename):
-- 
2.43.0


From e7181fbfafdd26107cd53d08ac4d4598301d2b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 05/42] fix: set_freq accepts normalized units without a gap
 frequency

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 00fc90d..7d1f86b 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -439,7 +439,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        if units.lower != 'norm':
+        if units.lower() != 'norm':
             assert self.fgap is not None, 'Gap frequency must be defined!'
 
         if units.lower() == 'hz':
-- 
2.43.0


From 79aa97d304968d6974b6189cec122e58ba0ab104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 06/42] fix: center the Gaussian filter for widths that are not
 whole steps

---
 qmix/mathfn/filters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/mathfn/filters.py b/qmix/mathfn/filters.py
index 487c97d..c968280 100644
--- a/qmix/mathfn/filters.py
+++ b/qmix/mathfn/filters.py
@@ -48,8 +48,9 @@ def _gauss(sigma, n_sigma=3):
 
     """
 
-    x_range = n_sigma * sigma
-    x = np.arange(-x_range, x_range + 1e-5, 1, dtype=float)
+    # x must be symmetric about zero, even if n_sigma*sigma isn't an integer
+    x_range = int(n_sigma * sigma + 1e-5)
+    x = np.arange(-x_range, x_range + 1, dtype=float)
 
     y = 1 / (sigma * np.sqrt(2 * np.pi)) * np.exp(-0.5 * (x / sigma)**2)
 
-- 
2.43.0


From fa89746d67d715988674829ad1a80c6453eb340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 07/42] fix: response function error check considers errors of
 either sign

---
 qmix/respfn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 59db44f..592a23d 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -773,8 +773,8 @@ def _setup_interpolation(voltage, current, current_kk, **params):
     # idx_start = (voltage + v_check_range).argmin()
     idx_check = (-v_check_range < voltage) & (voltage < v_check_range)
     err_v = voltage[idx_check]
-    err_dc = current[idx_check] - f_dc(voltage[idx_check])
-    err_kk = current_kk[idx_check] - f_kk(voltage[idx_check])
+    err_dc = np.abs(current[idx_check] - f_dc(voltage[idx_check]))
+    err_kk = np.abs(current_kk[idx_check] - f_kk(voltage[idx_check]))
 
     # # Debug
     # plt.figure()
@@ -799,11 +799,11 @@ def _setup_interpolation(voltage, current, current_kk, **params):
 
         print(msg1)
         print(msg2.format(len(dc_idx)))
-        print(msg3.format(np.mean(np.abs(err_dc))))
+        print(msg3.format(np.mean(err_dc)))
         print(msg4.format(err_dc.max(), err_v[err_dc.argmax()]))
         print(msg5)
         print(msg6.format(len(kk_idx)))
-        print(msg7.format(np.mean(np.abs(err_kk))))
+        print(msg7.format(np.mean(err_kk)))
         print(msg8.format(err_kk.max(), err_v[err_kk.argmax()]))
         print(msg9)
 
-- 
2.43.0


From 3a52000b75b73a53ed61ca9d5e47fcaa4fc81cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 08/42] fix: smeared perfect response function is the perfect
 curve convolved with a Gaussian, nothing else

---
 qmix/respfn.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 592a23d..a08909d 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -696,15 +696,6 @@ class RespFnPerfect(RespFn):
         # Smear IV curve (optional)
         else:
 
-            tmp = np.zeros_like(voltage)
-            idx = np.abs(voltage - 1.).argmin()
-            tmp[idx] = 1.
-
-            v_step = voltage[1] - voltage[0]
-            current = gauss_conv(tmp, sigma=params['v_smear']/v_step) + iv.perfect(voltage)
-            if params['verbose']:
-                print(" - Voltage smear: {:.4f}".format(params['v_smear']))
-
             RespFn.__init__(self, voltage, current, **params)
 
     def __str__(self):
-- 
2.43.0


From 17ec3bd01c22de0e9d0b9c2e4077455e0f2a046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 09/42] fix: kk_trans_trapz rejects uneven spacing of either
 sign

---
 qmix/mathfn/kktrans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/kktrans.py b/qmix/mathfn/kktrans.py
index 234bdaa..2480123 100644
--- a/qmix/mathfn/kktrans.py
+++ b/qmix/mathfn/kktrans.py
@@ -64,7 +64,7 @@ def kk_trans_trapz(v, i):
     """
 
     # Ensure v has even spacing
-    assert ((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
+    assert np.abs((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
 
     # very crude integration
     ikk = []
-- 
2.43.0


From 84b719ccdaa852e9d3fe66dbf9f4e27872d6ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 10/42] fix: perfect I-V curve model returns 0.5 at the gap for
 integer voltages

---
 qmix/mathfn/ivcurve_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index a9ed2b1..5848e69 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -30,7 +30,7 @@ def perfect(voltage):
     """
 
     if isinstance(voltage, np.ndarray):
-        current = np.copy(voltage)
+        current = np.array(voltage, dtype=float)
         current[voltage == 1.] = 0.5
         current[voltage == -1.] = -0.5
         current[np.abs(voltage) < 1] = 0
-- 
2.43.0


From a468c89e9a0d476b8501debed434d615bfeab6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 11/42] fix: polynomial I-V curve model does not overflow for
 high orders or integer voltages

---
 qmix/mathfn/ivcurve_models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index 5848e69..70d0413 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -96,7 +96,11 @@ def polynomial(voltage, order=50):
 
     """
 
-    current = voltage ** (2 * order + 1) / (1 + voltage ** (2 * order))
+    voltage = np.asarray(voltage, dtype=float)
+
+    # Note: written like this to prevent overflow at high voltages
+    with np.errstate(divide='ignore', over='ignore'):
+        current = voltage / (1 + voltage ** (-2 * order))
 
     return current
 
-- 
2.43.0


From 6ef3b7e29b2f9cef387a0bcd61ab4448e9e3f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 12/42] fix: data cleaning handles data that is left with fewer
 than two points

---
 qmix/exp/clean_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/clean_data.py b/qmix/exp/clean_data.py
index 87bcbc4..2b1949d 100644
--- a/qmix/exp/clean_data.py
+++ b/qmix/exp/clean_data.py
@@ -63,7 +63,7 @@ def remove_doubles_xy(x, y, check=True):
 
     # Check to see if x is sorted
     if check:
-        assert (x[1:] - x[:-1]).min() >= 0
+        assert (x[1:] >= x[:-1]).all()
 
     # Find doubles
     mask = np.ones(len(x), dtype=bool)
@@ -161,7 +161,7 @@ def remove_doubles_matrix(matrix, col=0, check=True):
 
     if check:
         # Check to see if x is sorted
-        assert (matrix[1:, 0] - matrix[:-1, 0]).min() >= 0
+        assert (matrix[1:, 0] >= matrix[:-1, 0]).all()
 
     column = matrix[:, col]
     mask = np.ones_like(column, dtype=bool)
-- 
2.43.0


From 82b69952dabc2c866444e5979a0426688d2251e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 13/42] fix: remove_doubles_matrix checks the order of the
 column it is asked to use

---
 qmix/exp/clean_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/clean_data.py b/qmix/exp/clean_data.py
index 2b1949d..59e53d7 100644
--- a/qmix/exp/clean_data.py
+++ b/qmix/exp/clean_data.py
@@ -161,7 +161,7 @@ def remove_doubles_matrix(matrix, col=0, check=True):
 
     if check:
         # Check to see if x is sorted
-        assert (matrix[1:, 0] >= matrix[:-1, 0]).all()
+        assert (matrix[1:, col] >= matrix[:-1, col]).all()
 
     column = matrix[:, col]
     mask = np.ones_like(column, dtype=bool)
-- 
2.43.0


From 568038e0e351a58dd333d1ea671a9cc219c23620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 14/42] fix: DC I-V import uses the voltage and current offset
 that it is given

---
 qmix/exp/iv_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index ac0b56e..9c8fc8c 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -521,6 +521,12 @@ def _correct_offset(volt_v, curr_a, **kw):
     if isinstance(voffset_range, float) or isinstance(voffset_range, int):
         voffset_range = [-voffset_range, voffset_range]
 
+    # If both offsets are known, there is nothing to search for
+    if voffset is not None and ioffset is not None:
+        volt_v -= voffset
+        curr_a -= ioffset
+        return volt_v, curr_a, (voffset, ioffset)
+
     # See if data is unipolar or bipolar
     # i.e., does the bias voltage sweep from negative to positive values?
     bipolar = (volt_v.min() < voffset_range[0]) & (voffset_range[1] < volt_v.max())
-- 
2.43.0


From ab82e665ae074c318d84b3525778748a50ce0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 15/42] fix: series resistance correction of I-V data handles
 points with zero current

---
 qmix/exp/iv_data.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 9c8fc8c..51760ef 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -719,12 +719,7 @@ def _correct_series_resistance(vmeas, imeas, **kw):
     if rseries is None:
         return vmeas, imeas
 
-    rstatic = vmeas / imeas
-    rstatic[rstatic < 0] = 0.
-    mask = np.invert(np.isnan(rstatic))
-    rj = rstatic - rseries
-    v0 = imeas[mask] * rj[mask]
+    # Subtract the voltage drop across the series resistance
+    v0 = vmeas - imeas * rseries
 
-    idc = imeas.copy()[mask]
-
-    return v0, idc
+    return v0, imeas.copy()
-- 
2.43.0


From ec72d9ec1c8f197fbac1264f0131301cff9f5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 16/42] fix: series resistance correction of IF data handles
 points with zero current

---
 qmix/exp/if_data.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index 2488ebf..a602912 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -416,13 +416,8 @@ def _load_if(ifdata, dc, **kwargs):
     # Correct for series resistance
     if rseries is not None:
         v = ifdata[:, 0]
-        rstatic = dc.vraw / dc.iraw
-        rstatic[rstatic < 0] = 0.
-        rstatic = np.interp(v, dc.vraw, rstatic)
         iraw = np.interp(v, dc.vraw, dc.iraw)
-        rj = rstatic - rseries
-        v0 = iraw * rj
-        ifdata[:, 0] = v0
+        ifdata[:, 0] = v - iraw * rseries
 
     # Normalize voltage to gap voltage
     ifdata[:, 0] /= dc.vgap
-- 
2.43.0


From 950cd889eaea2918591a2f712caf2d1f02c5cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 17/42] fix: IF data may be given as an array of integers

---
 qmix/exp/if_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index a602912..25e08d4 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -398,6 +398,7 @@ def _load_if(ifdata, dc, **kwargs):
     assert isinstance(ifdata, np.ndarray), 'IF data should be a Numpy array.'
     assert ifdata.ndim == 2, 'IF data should be 2-dimensional.'
     assert ifdata.shape[1] == 2, 'IF data should have 2 columns.'
+    ifdata = ifdata.astype(float)
 
     # Units for voltage
     ifdata[:, 0] *= _vfmt_dict[v_fmt]
-- 
2.43.0


From e30c1d92d3d2bd51f7088929c4002a2d5923299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 18/42] fix: judge the quality of the impedance recovery at the
 impedance that is reported

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 00f21c0..2c48fd3 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -767,7 +767,7 @@ class PumpedData(object):
         else:
             zt_best = zemb
         vt_best = _find_source_voltage(ac_voltage, ac_impedance, zt_best)
-        err_best = err_surf[ibest, jbest]
+        err_best = _error_function(ac_voltage, ac_impedance, zt_best)
 
         # Determine whether or not it was a good fit
         good_fit = err_best <= _good_error
-- 
2.43.0


From 5e8157be8f26c424419df0230f4b73af8dfc77af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 19/42] fix: impedance recovery falls back to the default fit
 range

---
 qmix/exp/exp_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 2c48fd3..67461d3 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -711,10 +711,12 @@ class PumpedData(object):
             fit_high = fit_range[1]
         else:
             fit_low  = self.kwargs.get('cut_low', None)
-            fit_high = 1 - self.kwargs.get('cut_high', None)
-            if fit_low is None or fit_high is None:
+            cut_high = self.kwargs.get('cut_high', None)
+            if fit_low is None or cut_high is None:
                 fit_low = PARAMS['fit_range'][0]
                 fit_high = PARAMS['fit_range'][1]
+            else:
+                fit_high = 1 - cut_high
         fit_high = 1 - fit_high
 
         # Range of impedance values to test
-- 
2.43.0


From f5bc889faa3b3ae93c6f2f38a49bc134203c2232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 20/42] fix: search for the I-V offset with a method that copes
 with its non-smooth error

---
 qmix/exp/iv_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 51760ef..75c6cef 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -565,8 +565,14 @@ def _correct_offset(volt_v, curr_a, **kw):
         ioffset = np.mean(curr_a_red)
 
     # Minimize to find I-V offsets
+    # Note: the error isn't smooth, so don't use a method based on gradients
     x0 = np.array([voffset, ioffset])
-    res = minimize(model, x0=x0)
+    dv = (voffset_range[1] - voffset_range[0]) / 20
+    di = (curr_a_red.max() - curr_a_red.min()) / 20
+    simplex = x0 + np.array([[0., 0.], [dv, 0.], [0., di]])
+    res = minimize(model, x0=x0, method='Nelder-Mead',
+                   options=dict(initial_simplex=simplex, xatol=1e-9,
+                                fatol=1e-9 * di))
     voffset = res.x[0]
     ioffset = res.x[1]
 
-- 
2.43.0


From 0dd1df1b7014deb6853d0744763d474f4338eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 21/42] fix: gap voltage search uses the mean voltage step
 instead of the first one

---
 qmix/exp/iv_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 75c6cef..6aca6b2 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -644,7 +644,7 @@ def _find_gap_voltage(volt_v, curr_a, **kw):
     prn = np.polyfit(vtmp, itmp, 1)
 
     # Find max derivative in I-V curve
-    vstep = volt_v[1] - volt_v[0]
+    vstep = (volt_v[-1] - volt_v[0]) / (len(volt_v) - 1)
     mask = 2e-3 < volt_v
     der = slope(volt_v[mask], curr_a[mask])
     der = gauss_conv(der, sigma=0.2e-3 / vstep)
-- 
2.43.0


From 9580a918adfa6aed48c17006bce6190b78e7e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 22/42] fix: mark the leakage current at the voltage it is
 measured at

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 67461d3..50d5ea7 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -304,7 +304,7 @@ class DCData(object):
                 marker='o', ls='None', color='r', mfc='None', ms=8,
                 markeredgewidth=1, label=lgd_str3)
         # Label leakage current
-        ax.plot(2, i_leak * ua,
+        ax.plot(self.vleak * 1e3, i_leak * ua,
                 marker='o', ls='None', color='g', mfc='None', ms=8,
                 markeredgewidth=1, label=lgd_str4)
         # Fit line to normal resistance slope
-- 
2.43.0


From 097c09a636beaaa733f4ad37a84dd916a1a2fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 23/42] fix: show the fit interval that was used when plotting
 simulated I-V curve

---
 qmix/exp/exp_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 50d5ea7..880b153 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1321,10 +1321,12 @@ class PumpedData(object):
             fit_high = fit_range[1]
         else:
             fit_low  = self.kwargs.get('cut_low', None)
-            fit_high = self.kwargs.get('cut_high', None)
-            if fit_low is None or fit_high is None:
+            cut_high = self.kwargs.get('cut_high', None)
+            if fit_low is None or cut_high is None:
                 fit_low = PARAMS['fit_range'][0]
                 fit_high = PARAMS['fit_range'][1]
+            else:
+                fit_high = 1 - cut_high
         fit_high = 1 - fit_high
         v_min = (1 - vph + vph * fit_low) * self.vgap * 1e3
         v_max = (1 - vph * fit_high) * self.vgap * 1e3
-- 
2.43.0


From 4dfb41e3050f8d9e190b593fd35707834f261de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 24/42] fix: draw IF data on the axis that was passed to
 plot_ivif

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 880b153..da450dc 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -925,6 +925,7 @@ class PumpedData(object):
 
         if ax is None:
             fig, ax1 = plt.subplots()
+            ax2 = ax1.twinx()
         else:
             ax1, ax2 = ax
             fig = ax1.get_figure()
@@ -943,7 +944,6 @@ class PumpedData(object):
 
         # Plot IF data
         mv = self.if_hot[:, 0] * self.vgap * 1e3
-        ax2 = ax1.twinx()
         mask = self.if_hot[:, 1] != 0
         ax2.plot(mv[mask], self.if_hot[mask, 1], '#f96b6b', label='Hot')
         mask = self.if_cold[:, 1] != 0
-- 
2.43.0


From 42c86294304f513c8584af3a984347ffb88c8138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 25/42] fix: plot overall results for any number and order of
 LO frequencies

---
 qmix/exp/exp_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index da450dc..9102b08 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1698,9 +1698,13 @@ def plot_overall_results(dciv, data_list, fig_folder, vmax_plot=4.,
 
     fig, ax = plt.subplots(figsize=figsize)
     freq_t = np.linspace(np.min(freq), np.max(freq), 1001)
-    sp_1 = UnivariateSpline(freq, t_n)
     ax.plot(freq, t_n, 'o', color=_blue)
-    ax.plot(freq_t, sp_1(freq_t), '--', color=_blue)
+    if len(freq) > 1:
+        # Spline needs sorted data, and more points than its degree
+        idx = np.argsort(freq)
+        sp_1 = UnivariateSpline(np.array(freq)[idx], t_n[idx],
+                                k=min(3, len(freq) - 1))
+        ax.plot(freq_t, sp_1(freq_t), '--', color=_blue)
     ax.set_xlabel('Frequency (GHz)')
     ax.set_ylabel('Noise Temperature (K)')
     if f_range is not None:
-- 
2.43.0


From 400fe06be51601da568178a9a16c09ef177df8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 26/42] fix: create result folders inside of the directory
 given to initialize_dir

---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 9102b08..41c2f54 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1956,7 +1956,8 @@ def initialize_dir(fig_folder):  # pragma: no cover
     folder_list += list(_file_structure.values())
 
     for folder in folder_list:
-        if not os.path.exists(fig_folder + folder):
-            os.makedirs(fig_folder + folder)
+        path = os.path.join(fig_folder, folder)
+        if not os.path.exists(path):
+            os.makedirs(path)
             print('   - Created: ' + folder)
     print(" ")
-- 
2.43.0


From 18fd4da1447d36ed620809aa20316d34158ab75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 27/42] fix: plot_all for pumped data without IF data

---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 41c2f54..47a3c4d 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1446,8 +1446,9 @@ class PumpedData(object):
 
         # Generate plots
         self.plot_iv(fig1, **kw)
-        self.plot_ivif(fig2, **kw)
-        self.plot_noise_temp(fig5, **kw)
+        if self.if_hot is not None:
+            self.plot_ivif(fig2, **kw)
+            self.plot_noise_temp(fig5, **kw)
         # self.plot_gain_noise_temp(fig6, **kw)
         if self.zt is not None:
             self.plot_error_surface(fig3)
-- 
2.43.0


From 0c335a61b1a59cea115eb22ccece52c5981d426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 28/42] fix: read the spectrum files before analyzing them in
 plot_if_spectrum

---
 qmix/exp/exp_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 47a3c4d..19694bb 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1481,7 +1481,8 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
         print(" - {}".format(filename))
         base = filename.split('_')[0][1:]
 
-        freq, t_n, p_hot_db, p_cold_db = if_response(if_file)
+        if_data_db = np.genfromtxt(if_file, skip_header=1, usecols=(0, 1, 2))
+        freq, t_n, p_hot_db, p_cold_db = if_response(if_data_db)
 
         fig2, ax2 = plt.subplots(figsize=figsize)
         ax2.plot(freq, t_n)
-- 
2.43.0


From a34e5cd9d4dffd6a7dbca19c0b2ccbb5e3626c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 29/42] fix: plot_if_spectrum without a figure folder

---
 qmix/exp/exp_data.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 19694bb..0a15cf3 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1505,20 +1505,26 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
     ax1.set_ylim([0, 500])
     ax1.set_xlim([0, 20])
     ax1.legend()
-    fig1.savefig(os.path.join(fig_folder, 'if_spectra.png'), **_plot_params)
-    ax1.set_ylim([0, 2000])
-    fig1.savefig(os.path.join(fig_folder, 'if_spectra2.png'), **_plot_params)
+    if fig_folder is not None:
+        fig1.savefig(os.path.join(fig_folder, 'if_spectra.png'), **_plot_params)
+        ax1.set_ylim([0, 2000])
+        fig1.savefig(os.path.join(fig_folder, 'if_spectra2.png'), **_plot_params)
+    else:
+        fig1.show()
 
     ax2.set_ylabel('Noise Temperature (K)')
     ax2.set_xlabel('Frequency (GHz)')
     ax2.set_ylim([0, 500])
     ax2.set_xlim([0, 20])
     ax2.legend()
-    fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth.png'),
-                 **_plot_params)
-    ax2.set_ylim([0, 2000])
-    fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth2.png'),
-                 **_plot_params)
+    if fig_folder is not None:
+        fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth.png'),
+                     **_plot_params)
+        ax2.set_ylim([0, 2000])
+        fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth2.png'),
+                     **_plot_params)
+    else:
+        fig2.show()
 
     print("")
 
-- 
2.43.0


From febbaeec5b6a0451f84c1effcb2d77ac3cf02718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 30/42] fix: include every spectrum in the smoothed figure of
 plot_if_spectrum

---
 qmix/exp/exp_data.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 0a15cf3..ad785ff 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1484,21 +1484,25 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
         if_data_db = np.genfromtxt(if_file, skip_header=1, usecols=(0, 1, 2))
         freq, t_n, p_hot_db, p_cold_db = if_response(if_data_db)
 
-        fig2, ax2 = plt.subplots(figsize=figsize)
-        ax2.plot(freq, t_n)
+        t_n_smooth = gauss_conv(t_n, sigma=1)
+
+        fig, ax = plt.subplots(figsize=figsize)
+        ax.plot(freq, t_n)
         ax1.plot(freq, t_n, label="{} GHz".format(base))
-        ax2.plot(freq, gauss_conv(t_n, sigma=1), label="{} GHz".format(base))
-        ax2.set_ylabel('Noise Temperature (K)')
-        ax2.set_xlabel('Frequency (GHz)')
-        ax2.set_ylim([0, 400])
-        ax2.set_xlim([0, 20])
+        ax.plot(freq, t_n_smooth, label="{} GHz".format(base))
+        ax2.plot(freq, t_n_smooth, label="{} GHz".format(base))
+        ax.set_ylabel('Noise Temperature (K)')
+        ax.set_xlabel('Frequency (GHz)')
+        ax.set_ylim([0, 400])
+        ax.set_xlim([0, 20])
         if fig_folder is not None:
             figname = os.path.join(fig_folder, filename)
-            fig2.savefig(figname + '.png', **_plot_params)
-            ax2.set_ylim([0, 2000])
-            fig2.savefig(figname + '2.png', **_plot_params)
+            fig.savefig(figname + '.png', **_plot_params)
+            ax.set_ylim([0, 2000])
+            fig.savefig(figname + '2.png', **_plot_params)
+            plt.close(fig)
         else:
-            fig2.show()
+            fig.show()
 
     ax1.set_ylabel('Noise Temperature (K)')
     ax1.set_xlabel('Frequency (GHz)')
-- 
2.43.0


From 33730ed943a10c85f8093c3eaa3f2a04d02c8bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 31/42] fix: print complex source voltages completely in
 EmbeddingCircuit.print_info

---
 qmix/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 7d1f86b..03fc614 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -494,7 +494,7 @@ class EmbeddingCircuit(object):
                     vt = self.vt[f, p]
                     zt = self.zt[f, p]
                     cprint(str1.format(f, p, freq, self.comment[f][p]), 'GREEN')
-                    print(str3.format(float(vt.real)))
+                    print(str3.format(vt if vt.imag else vt.real))
                     print(str4.format(zt))
         else:
             for f in range(1, self.num_f + 1):
@@ -506,8 +506,9 @@ class EmbeddingCircuit(object):
                         power_w = self.available_power(f, p, units='W')
                         power_dbm = self.available_power(f, p, units='dBm')
                     cprint(str2.format(f, p, fq, self.comment[f][p]), 'GREEN')
-                    print(str3.format(float(vt.real)))
-                    print(str6.format(float(vt.real / (self.freq[f] * p))))
+                    print(str3.format(vt if vt.imag else vt.real))
+                    alpha = vt / (self.freq[f] * p)
+                    print(str6.format(alpha if vt.imag else alpha.real))
                     print(str4.format(zt))
                     print(str7.format(power_w))
                     print(str8.format(power_dbm))
-- 
2.43.0


From 2f1a586c1d68a7310e7d0e99ccd87964d320453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 32/42] fix: do not show the sign of the imaginary part twice
 in printc

---
 qmix/misc/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/misc/terminal.py b/qmix/misc/terminal.py
index d1ab427..f0f82a1 100644
--- a/qmix/misc/terminal.py
+++ b/qmix/misc/terminal.py
@@ -195,4 +195,4 @@ def printc(complex_number):  # pragma: no cover
         sign = '-'
 
     return str("{:+6.2f} {} j{:5.2f}".format(complex_number.real, sign,
-                                             complex_number.imag))
+                                             abs(complex_number.imag)))
-- 
2.43.0


From f060bbba4c28364bbdecee645af995505ddf6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 33/42] fix: import data with a negative voltage multiplier
 (inverted polarity) correctly

---
 qmix/exp/if_data.py | 1 +
 qmix/exp/iv_data.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index 25e08d4..0e1eaa4 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -410,6 +410,7 @@ def _load_if(ifdata, dc, **kwargs):
 
     # Correct errors in experimental system
     ifdata[:, 0] *= v_multiplier
+    ifdata = ifdata[np.argsort(ifdata[:, 0])]  # multiplier may be negative
 
     # Correct for offset
     ifdata[:, 0] = ifdata[:, 0] - dc.offset[0]
diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 6aca6b2..4e1a0e0 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -142,6 +142,7 @@ def dciv_curve(ivdata, **kwargs):
     # Correct for DC gain errors in experimental system (if required)
     volt_v *= v_multiplier
     curr_a *= i_multiplier
+    volt_v, curr_a = sort_xy(volt_v, curr_a)  # multiplier may be negative
 
     # Correct offsets in I-V data
     volt_v, curr_a, offset = _correct_offset(volt_v, curr_a, **kwargs)
@@ -280,6 +281,7 @@ def iv_curve(ivdata, dc, **kwargs):
     # Correct for DC gain errors in experimental system (if needed)
     volt_v *= v_multiplier
     curr_a *= i_multiplier
+    volt_v, curr_a = sort_xy(volt_v, curr_a)  # multiplier may be negative
 
     # Correct offset
     if voffset is not None and ioffset is not None:
-- 
2.43.0


From da31140a0672dd1a41e91c546e9ba20da9b1092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:05 +0000
Subject: [PATCH 34/42] fix: set_alpha ignored that the photon voltage of
 harmonic p is p times larger

---
 qmix/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 03fc614..fd45c1c 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -393,7 +393,7 @@ class EmbeddingCircuit(object):
             this method. Otherwise, an assertion error will be raised.
 
         Args:
-            alpha (float): drive level, alpha = voltage / vph
+            alpha (float): drive level, alpha = voltage / (p * vph)
             f (int, optional, default is 1): tone
             p (int, optional, default is 1): harmonic
             zj (float, optional, default is 0.66): the impedance to assume for
@@ -405,7 +405,7 @@ class EmbeddingCircuit(object):
         assert self.zt[f, p] != 0, 'Embedding impedance must be defined!'
         assert self.freq[f] != 0, 'Frequency must be defined!'
 
-        self.vt[f, p] = alpha * self.freq[f] * (self.zt[f, p] / zj + 1)
+        self.vt[f, p] = alpha * p * self.freq[f] * (self.zt[f, p] / zj + 1)
 
     def set_freq(self, value, f=1, units='Hz'):
         """Set the frequency of tone ``f``.
-- 
2.43.0


From 4484e9c6e41bad90089eac872d8b4d06e1fd3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:00 +0000
Subject: [PATCH 35/42] fix: keep the zero-voltage point of the I-V data in
 RespFnFromIVData

---
 qmix/respfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index a08909d..08a8ebb 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -529,7 +529,7 @@ class RespFnFromIVData(RespFn):
 
         # Force slope=1 above vmax
         vmax = params.get('vlimit', 1.8)
-        mask = (voltage > 0) & (voltage < vmax)
+        mask = (voltage >= 0) & (voltage < vmax)
         current = current[mask]
         voltage = voltage[mask]
         b = current[-1] - voltage[-1]
-- 
2.43.0


From 23627e86f8112e97a0af7debe2aff15779535fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 36/42] fix: derivatives of the perfect response function

---
 qmix/mathfn/ivcurve_models.py | 38 +++++++++++++++++++++++++++++++++++
 qmix/respfn.py                |  4 ++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index 70d0413..b83c700 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -82,6 +82,44 @@ def perfect_kk(voltage, max_kk=100.):
             return -1 / np.pi * (2 + voltage * (np.log(abs((voltage - 1) / (voltage + 1)))))
 
 
+def perfect_slope(voltage):
+    """Generate the derivative of the perfect I-V curve.
+
+    Args:
+        voltage (ndarray): normalized bias voltage
+
+    Returns:
+        ndarray: derivative of the normalized current
+
+    """
+
+    return np.where(np.abs(voltage) < 1., 0., 1.)
+
+
+def perfect_kk_slope(voltage):
+    """Generate the derivative of the Kramers-Kronig transform of the perfect
+    I-V curve.
+
+    This is an analytic solution. The derivative is not defined at the gap
+    voltage, where zero is returned instead.
+
+    Args:
+        voltage (ndarray): normalized bias voltage
+
+    Returns:
+        ndarray: derivative of the kk-transform of perfect i-v curve
+
+    """
+
+    voltage = np.asarray(voltage, dtype=float)
+
+    with np.errstate(divide='ignore', invalid='ignore'):
+        slope = -1 / np.pi * (np.log(np.abs((voltage - 1) / (voltage + 1)))
+                              + 2 * voltage / (voltage ** 2 - 1))
+
+    return np.where(np.abs(voltage) == 1., 0., slope)
+
+
 def polynomial(voltage, order=50):
     """Generate the polynomial I-V curve model.
 
diff --git a/qmix/respfn.py b/qmix/respfn.py
index 08a8ebb..6b49ced 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -684,8 +684,8 @@ class RespFnPerfect(RespFn):
             # Place interpolations into hidden attributes
             self._f_idc = iv.perfect
             self._f_ikk = iv.perfect_kk
-            self._f_didc = None
-            self._f_dikk = None
+            self._f_didc = iv.perfect_slope
+            self._f_dikk = iv.perfect_kk_slope
 
             # Save DC I-V curve and KK transform as attributes
             self.voltage = voltage
-- 
2.43.0


From 6ed8128af507cc8b626463e40a63a052c5baf503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 37/42] fix: cut_low and cut_high are used when they are given

---
 qmix/exp/exp_data.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index ad785ff..cd4d49a 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -706,17 +706,17 @@ class PumpedData(object):
 
         # Fit interval for impedance recovery
         fit_range  = self.kwargs.get('fit_range', None)
-        if fit_range is not None:
+        cut_low  = self.kwargs.get('cut_low', None)
+        cut_high = self.kwargs.get('cut_high', None)
+        if cut_low is not None and cut_high is not None:  # deprecated
+            fit_low = cut_low
+            fit_high = 1 - cut_high
+        elif fit_range is not None:
             fit_low = fit_range[0]
             fit_high = fit_range[1]
         else:
-            fit_low  = self.kwargs.get('cut_low', None)
-            cut_high = self.kwargs.get('cut_high', None)
-            if fit_low is None or cut_high is None:
-                fit_low = PARAMS['fit_range'][0]
-                fit_high = PARAMS['fit_range'][1]
-            else:
-                fit_high = 1 - cut_high
+            fit_low = PARAMS['fit_range'][0]
+            fit_high = PARAMS['fit_range'][1]
         fit_high = 1 - fit_high
 
         # Range of impedance values to test
@@ -1316,17 +1316,17 @@ class PumpedData(object):
 
         # Fit interval for impedance recovery
         fit_range  = self.kwargs.get('fit_range', None)
-        if fit_range is not None:
+        cut_low  = self.kwargs.get('cut_low', None)
+        cut_high = self.kwargs.get('cut_high', None)
+        if cut_low is not None and cut_high is not None:  # deprecated
+            fit_low = cut_low
+            fit_high = 1 - cut_high
+        elif fit_range is not None:
             fit_low = fit_range[0]
             fit_high = fit_range[1]
         else:
-            fit_low  = self.kwargs.get('cut_low', None)
-            cut_high = self.kwargs.get('cut_high', None)
-            if fit_low is None or cut_high is None:
-                fit_low = PARAMS['fit_range'][0]
-                fit_high = PARAMS['fit_range'][1]
-            else:
-                fit_high = 1 - cut_high
+            fit_low = PARAMS['fit_range'][0]
+            fit_high = PARAMS['fit_range'][1]
         fit_high = 1 - fit_high
         v_min = (1 - vph + vph * fit_low) * self.vgap * 1e3
         v_max = (1 - vph * fit_high) * self.vgap * 1e3
-- 
2.43.0


From d70bdaeaeeceaee0c9a90715e7ee7550f4b39475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 38/42] fix: rn_vmin and rn_vmax are used when they are given

---
 qmix/exp/iv_data.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 4e1a0e0..85a493f 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -602,7 +602,7 @@ def _find_normal_resistance(volt_v, curr_a, **kw):
     """
 
     # Range of voltages over which to calculate the normal resistance
-    vrn = kw.get('vrn', PARAMS['vrn'])
+    vrn = _vrn(**kw)
     vmin = vrn[0]
     vmax = vrn[1]
 
@@ -619,6 +619,29 @@ def _find_normal_resistance(volt_v, curr_a, **kw):
     return r_normal, v_intercept
 
 
+def _vrn(**kw):
+    """Voltage range over which to calculate the normal resistance.
+
+    Keyword Args:
+        vrn (list): Voltage range, in units [V]
+        rn_vmin (float): Lower end of the range, in units [V] (DEPRECATED)
+        rn_vmax (float): Upper end of the range, in units [V] (DEPRECATED)
+
+    Returns:
+        tuple: lower and upper end of the voltage range
+
+    """
+
+    vmin, vmax = kw.get('vrn', PARAMS['vrn'])
+
+    if kw.get('rn_vmin') is not None:
+        vmin = kw['rn_vmin']
+    if kw.get('rn_vmax') is not None:
+        vmax = kw['rn_vmax']
+
+    return vmin, vmax
+
+
 def _find_gap_voltage(volt_v, curr_a, **kw):
     """Find gap voltage.
 
@@ -637,7 +660,7 @@ def _find_gap_voltage(volt_v, curr_a, **kw):
     """
 
     # Unpack keyword arguments
-    vrn = kw.get('vrn', PARAMS['vrn'])
+    vrn = _vrn(**kw)
     debug = kw.get('debug', PARAMS['debug'])
 
     # Normal resistance slope
-- 
2.43.0


From 0edb925151e86873e56176ca9eb235d81d8ee162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 39/42] fix: perfect I-V curve model and its transform for
 scalars of any number type

---
 qmix/mathfn/ivcurve_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index b83c700..8fb06e9 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -35,7 +35,7 @@ def perfect(voltage):
         current[voltage == -1.] = -0.5
         current[np.abs(voltage) < 1] = 0
         return current
-    elif isinstance(voltage, float) or isinstance(voltage, int):
+    elif np.isscalar(voltage):
         if np.abs(voltage) < 1:
             return 0
         if np.abs(voltage) > 1:
@@ -74,7 +74,7 @@ def perfect_kk(voltage, max_kk=100.):
 
         return kk
 
-    elif isinstance(voltage, float) or isinstance(voltage, int):
+    elif np.isscalar(voltage):
 
         if abs(voltage) == 1.:
             return max_kk
-- 
2.43.0


From 281beab2f0f1deb601b61ce7680c31ca5f7d0bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 40/42] fix: derivatives and Kramers-Kronig transforms of
 unsigned integers

---
 qmix/mathfn/kktrans.py | 6 ++++++
 qmix/mathfn/misc.py    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/qmix/mathfn/kktrans.py b/qmix/mathfn/kktrans.py
index 2480123..38b7739 100644
--- a/qmix/mathfn/kktrans.py
+++ b/qmix/mathfn/kktrans.py
@@ -27,6 +27,9 @@ def kk_trans(v, i, n=50):
 
     """
 
+    # Differences of unsigned integers would wrap around
+    v, i = np.asarray(v, dtype=float), np.asarray(i, dtype=float)
+
     npts = v.shape[0]
 
     # Ensure v has (roughly) even spacing
@@ -63,6 +66,9 @@ def kk_trans_trapz(v, i):
 
     """
 
+    # Differences of unsigned integers would wrap around
+    v, i = np.asarray(v, dtype=float), np.asarray(i, dtype=float)
+
     # Ensure v has even spacing
     assert np.abs((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
 
diff --git a/qmix/mathfn/misc.py b/qmix/mathfn/misc.py
index d7a8256..ce5ae37 100644
--- a/qmix/mathfn/misc.py
+++ b/qmix/mathfn/misc.py
@@ -21,6 +21,9 @@ def slope(x, y):
 
     """
 
+    # Differences of unsigned integers would wrap around
+    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
+
     der = np.zeros(len(x), dtype=float)
 
     rise = y[2:] - y[:-2]
@@ -57,6 +60,9 @@ def slope_span_n(x, y, n=11, nozeros=True):
     assert n % 2 == 1, "N must be odd."
     n = (n - 1) // 2
 
+    # Differences of unsigned integers would wrap around
+    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
+
     der = np.zeros(len(x), dtype=float)
 
     rise = y[2 * n + 1:] - y[:-2 * n - 1]
-- 
2.43.0


From c953120de74e63ced458f5f255e8e1827f7ade1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:47 +0000
Subject: [PATCH 41/42] fix: documented default values of vrn and voffset_range

---
 qmix/exp/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/parameters.py b/qmix/exp/parameters.py
index 22884ff..8f2f910 100644
--- a/qmix/exp/parameters.py
+++ b/qmix/exp/parameters.py
@@ -46,7 +46,7 @@ values.
           units [A].
         - ``voffset = None`` : Offset of the DC bias voltage data in units
           [V].
-        - ``voffset_range = (-5e-4, 5e-4)`` : Voltage range over which to look
+        - ``voffset_range = (-1e-3, 1e-3)`` : Voltage range over which to look
           for the voltage offset in units [V]. The ``DCData`` class will
           look from ``voffset_range[0]`` to ``+voffset_range[1]`` for the
           voltage offset.
@@ -70,7 +70,7 @@ values.
         - ``filter_nwind = 21`` : Width of the Savitzky-Golay filter.
         - ``filter_npoly = 3`` : Order of the Savitzky-Golay filter.
     - Analyzing the DC I-V curve:
-        - ``vrn = (3.5e-3, 4.5e-3)`` : Voltage range over which to calculate
+        - ``vrn = (3.5e-3, 5e3)`` : Voltage range over which to calculate
           the normal-state resistance, in units [V].
         - ``vrsg = 2e-3`` : Voltage at which to measure the subgap resistance,
           in units [V].
-- 
2.43.0


From fa2941b8f597f252a884195379534634de751fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:48 +0000
Subject: [PATCH 42/42] fix: documented defaults of RespFnFromIVData and
 RespFnExponential are not the ones used

---
 qmix/respfn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 6b49ced..595ddcf 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -505,9 +505,9 @@ class RespFnFromIVData(RespFn):
 
     Keyword Args:
         verbose (bool, default is True): print info to terminal?
-        max_npts_dc (int, default is 101): maximum number of points in DC I-V
+        max_npts_dc (int, default is 81): maximum number of points in DC I-V
             curve
-        max_npts_kk (int, default is 151): maximum number of points in KK
+        max_npts_kk (int, default is 101): maximum number of points in KK
             transform
         max_interp_error (float, default is 0.001): maximum interpolation error
             (in units of normalized current)
@@ -609,7 +609,7 @@ class RespFnExponential(RespFn):
         verbose (bool, default is True): print info to terminal?
         max_npts_dc (int, default is 101): maximum number of points in DC I-V
             curve
-        max_npts_kk (int, default is 151): maximum number of points in KK
+        max_npts_kk (int, default is 251): maximum number of points in KK
             transform
         max_interp_error (float, default is 0.001): maximum interpolation error
             (in units of normalized current)
-- 
2.43.0

