From 950408cfd1f04347f7966c277084add79eb08605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 01/13] fix: robust weight functions andrews, huber and
 logistic accept arrays

They used the builtin max() on a scalar and an array, which raises
ValueError for any residual array; logistic also clipped at 1 instead
of at the square root of the spacing.
---
 utide/robustfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 8f19a20..a59d0ac 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -11,7 +11,7 @@ from utide.utilities import Bunch
 # Weighting functions:
 def andrews(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.spacing(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = (r < np.pi) * np.sin(r) / r
     return w
 
@@ -34,13 +34,13 @@ def fair(r):
 
 
 def huber(r):
-    w = 1 / max(1, np.abs(r))
+    w = 1 / np.maximum(1, np.abs(r))
     return w
 
 
 def logistic(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.single(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = np.tanh(r) / r
     return w
 
-- 
2.43.0


From 1963471dbe7f71c79e6458fb4aa03d82b61868b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 02/13] fix: validate infer on a copy and report missing items

A plain dict failed with AttributeError, the caller's Bunch gained an
'approximate' entry, a request that lacked an item but had an extra one
was accepted, and the error message itself raised TypeError.
---
 utide/_solve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 1011d64..3d660c4 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -89,9 +89,9 @@ def validate_infer(infer, is_2D):
     if infer is None or infer == "none":
         return None
     required_keys = {"inferred_names", "reference_names", "amp_ratios", "phase_offsets"}
-    keys = set(infer.keys())
-    if keys < required_keys:
-        raise ValueError(f"infer option must include {required_keys:s}")
+    infer = Bunch(infer)  # Accept any dict; leave the caller's unchanged.
+    if not required_keys <= set(infer.keys()):
+        raise ValueError(f"infer option must include {sorted(required_keys)}")
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
-- 
2.43.0


From e912f657fa43c7015c94dbda27afb4197677d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 03/13] fix: nodal corrections at latitude 0

np.sign(0) * 5 is 0, so the low-latitude limit did not apply at the
equator and the satellite corrections divided by zero.
---
 utide/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/harmonics.py b/utide/harmonics.py
index 33680d3..904b33e 100644
--- a/utide/harmonics.py
+++ b/utide/harmonics.py
@@ -119,7 +119,7 @@ def FUV(t, tref, lind, lat, ngflgs):
         astro, ader = ut_astron(tt)
 
         if abs(lat) < 5:
-            lat = np.sign(lat) * 5
+            lat = np.copysign(5, lat)
 
         slat = np.sin(np.deg2rad(lat))
         rr = sat.amprat.copy()
-- 
2.43.0


From afb9a0ae330ce1449982f96cf3313aa17fa40183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 04/13] fix: masked times and NaT are missing samples

np.asarray dropped the mask of a masked time array, so the values under
the mask were used as times, and NaT was converted to -1.07e11 days
instead of nan.
---
 utide/_time_conversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 0550674..753c79a 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -20,7 +20,7 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
 
     Default `epoch` is the unix epoch 1970-01-01 00:00:00.
     """
-    date = np.asarray(date)
+    date = np.asanyarray(date)  # Keep the mask of a masked array.
 
     try:
         date = date.astype("datetime64[ms]")
@@ -37,7 +37,8 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
         ) from err
 
     # datenum calculation
-    datenum = (date - epoch).astype(float) / _MS_PER_DAY
+    # (division by a timedelta64 converts NaT to nan; astype(float) does not)
+    datenum = (date - epoch) / np.timedelta64(1, "ms") / _MS_PER_DAY
     return datenum
 
 
@@ -61,7 +62,7 @@ def _normalize_time(t, epoch=None):
     `t` input time or datenum array
     `epoch` either 'python', 'matlab', or np.datetime64 compatible value
     """
-    t = np.asarray(t)
+    t = np.asanyarray(t)  # Keep the mask of a masked array.
 
     if epoch is None:
         # default datetime, datetime64, or datetime array
-- 
2.43.0


From 1e7a5907da3165ae1b2e9f9fe7fc41661c636a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 05/13] fix: solve accepts any array_like for t, u and v

Lists failed with AttributeError: 'list' object has no attribute 'shape'.
---
 utide/_solve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 3d660c4..9be935d 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -466,6 +466,11 @@ def _slvinit(tin, uin, vin, lat, **opts):
     if lat is None:
         raise ValueError("Latitude must be supplied")
 
+    tin = np.asanyarray(tin)
+    uin = np.asanyarray(uin)
+    if vin is not None:
+        vin = np.asanyarray(vin)
+
     # Supporting only 1-D arrays for now; we can add "group"
     # support later.
     if tin.shape != uin.shape or tin.ndim != 1 or uin.ndim != 1:
-- 
2.43.0


From d34497951607a09e51d2e66a9be242b8b8b0e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 06/13] fix: scale the u variances by the coloured spectrum in
 the vector case

With white=False the linearized intervals of a vector series used Pvv
for the v coefficients but left the u coefficients at their white-noise
variances; Puu was never used.
---
 utide/confidence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 567f0cf..1b0c3bb 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -247,6 +247,9 @@ def _confidence(
             else:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
+                    den = varXu + varYu
+                    varXu = Puu[c] * varXu / den
+                    varYu = Puu[c] * varYu / den
                     den = varXv + varYv
                     varXv = Pvv[c] * varXv / den
                     varYv = Pvv[c] * varYv / den
-- 
2.43.0


From bdb9355ef191c3c45488441e4d2b0c7efbf99bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 07/13] fix: use each constituent's own columns for its
 covariance with inference

With inference the columns are NR+, NR-, R+, R-, but the covariance of
constituent c was read at c and c + nc as if they were +, -.  All
intervals of such a solution belonged to the wrong coefficients.
---
 utide/confidence.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 1b0c3bb..5466e5b 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -219,12 +219,19 @@ def _confidence(
     if not opt["white"]:
         varcov_mCc = np.copy(varcov_mCw)
 
+    # Columns of B: NR+, NR-, R+, R-, mean, trend.  Find those of the positive
+    # and negative frequency coefficients of each NR and R constituent.
+    nNR, nR = coef.nNR, coef.nR
+    iplus = np.hstack((np.arange(nNR), 2 * nNR + np.arange(nR)))
+    iminus = np.hstack((nNR + np.arange(nNR), 2 * nNR + nR + np.arange(nR)))
+
     for c in range(nc):
+        ip, im = iplus[c], iminus[c]
         G = np.array(
-            [[Gall[c, c], Gall[c, c + nc]], [Gall[c + nc, c], Gall[c + nc, c + nc]]],
+            [[Gall[ip, ip], Gall[ip, im]], [Gall[im, ip], Gall[im, im]]],
         )
         H = np.array(
-            [[Hall[c, c], Hall[c, c + nc]], [Hall[c + nc, c], Hall[c + nc, c + nc]]],
+            [[Hall[ip, ip], Hall[ip, im]], [Hall[im, ip], Hall[im, im]]],
         )
         varXu = np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2
         varYu = np.real(H[0, 0] + H[1, 1] - 2 * H[0, 1]) / 2
@@ -355,8 +362,6 @@ def _confidence(
                     1.96 * np.median(np.abs(g - np.median(g))) / 0.6745
                 )  # noqa
 
-    nNR = coef.nNR
-
     if opt.infer:
         ind = nc
         if opt.linci:
-- 
2.43.0


From 4490e20914e9f18fe748cfbbf2b96b866433cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 08/13] fix: do not hand out the default robust_kw dictionary

coef.aux.opt.newopts.robust_kw was default_opts['robust_kw'] itself, so
editing a result changed the defaults of every later call.
---
 utide/_solve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 9be935d..5bbacfd 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -34,6 +34,7 @@ default_opts = {
 def _process_opts(opts, is_2D):
     newopts = Bunch(default_opts)
     newopts.update_values(strict=True, **opts)
+    newopts.robust_kw = dict(newopts.robust_kw)  # Not the default itself.
     # TODO: add more validations.
     newopts.infer = validate_infer(newopts.infer, is_2D)
     snr = newopts.conf_int != "none"
-- 
2.43.0


From ee3d8d39db4979eab2bc5b0356e35714b3796c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 09/13] fix: reject unknown values of method, phase and nodal

A misspelled method silently meant 'robust', a misspelled phase meant
'Greenwich' and a misspelled nodal meant True.
---
 utide/_solve.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 5bbacfd..3453351 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -36,6 +36,13 @@ def _process_opts(opts, is_2D):
     newopts.update_values(strict=True, **opts)
     newopts.robust_kw = dict(newopts.robust_kw)  # Not the default itself.
     # TODO: add more validations.
+    for key, allowed in (
+        ("method", ("ols", "robust")),
+        ("phase", ("Greenwich", "linear_time", "raw")),
+        ("nodal", (True, False, "linear_time")),
+    ):
+        if newopts[key] not in allowed:
+            raise ValueError(f"'{key}' must be one of {allowed}, not {newopts[key]!r}")
     newopts.infer = validate_infer(newopts.infer, is_2D)
     snr = newopts.conf_int != "none"
     newopts.order_constit = validate_order_constit(newopts.order_constit, snr)
-- 
2.43.0


From be1305b025decd845d9182100b0da7d64d2e7f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 10/13] fix: robustfit returns one consistent solution

Without convergence the returned weights were one iteration ahead of the
coefficients; with convergence rms_resid belonged to the coefficients of
the iteration before.  A 1-D model raised NameError.
---
 utide/robustfit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index a59d0ac..6ab03a0 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -172,7 +172,7 @@ def robustfit(
     _wfunc = wfuncdict[weight_function]
 
     if X.ndim == 1:
-        X = X.reshape((x.size, 1))
+        X = X.reshape((X.size, 1))
     n, p = X.shape
 
     lev = leverage(X)
@@ -238,12 +238,14 @@ def robustfit(
         # Residuals (unweighted) from latest fit:
         resid = y - np.dot(X, b)
 
-        # Update weights based on these residuals.
-        w = _wfunc(r_normed(resid, rfac))
+        # Update weights based on these residuals, for the next iteration.
+        if i < maxit - 1:
+            w = _wfunc(r_normed(resid, rfac))
 
     if iterations == 0:
         iterations = maxit  # Did not converge.
 
+    resid = y - np.dot(X, b)  # Of the solution that is returned.
     rms_resid = np.sqrt(np.mean(np.abs(resid) ** 2))
 
     out.update(
-- 
2.43.0


From 709503e1f0fed4563e1c325f5dc640f012041bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 11/13] fix: an empty Bunch prints, and a missing t_mpl is an
 AttributeError

str(Bunch()) raised ValueError, and hasattr(Bunch(), 't_mpl') raised
KeyError.
---
 utide/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 0c83749..d05b3f0 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -94,8 +94,8 @@ class Bunch(dict):
             klens.append(lenk)
             vlens.append(lenv)
 
-        klen = min(20, max(klens))
-        vlen = min(40, max(vlens))
+        klen = min(20, max(klens, default=0))
+        vlen = min(40, max(vlens, default=0))
         slist = [fmt.format(key, value, klen=klen, vlen=vlen) for key, value in items]
         return "".join(slist)
 
@@ -174,7 +174,7 @@ class Bunch(dict):
             category=FutureWarning,
             stacklevel=2,
         )
-        return self["t_mpl"]
+        return self.__getattr__("t_mpl")
 
 
 # The following functions ending with loadbunch() and showmatbunch()
-- 
2.43.0


From 9e720440a50803dcb538b3b8384aa5818d2b5585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 12/13] fix: showmatbunch of a Bunch without entries no longer
 fails

---
 utide/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index d05b3f0..2f29444 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -272,7 +272,7 @@ def showmatbunch(b):
         b = loadbunch(b)
     elist = _showmatbunch(b)
     names = [n for n, v in elist]
-    namelen = min(40, max(len(n) for n in names))
+    namelen = min(40, max((len(n) for n in names), default=0))
     str_fmt = "{0!s:<{namelen}} : {1!s}\n"
     strlist = [str_fmt.format(n[1:], v, namelen=namelen) for (n, v) in elist]
     return "".join(strlist)
-- 
2.43.0


From 9e6301361500f8fb9bd4d5814e5a143871dd49e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:17 +0000
Subject: [PATCH 13/13] fix: Monte Carlo intervals of inclination and phase
 blew up for inclinations near 0 or 180 degrees

---
 utide/confidence.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 5466e5b..a04660a 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -352,12 +352,15 @@ def _confidence(
                     1.96 * np.median(np.abs(Lsmin - np.median(Lsmin))) / 0.6745
                 )  # noqa
                 theta[0] = coef.theta[c]
-                theta = cluster(theta, 360)
+                g[0] = coef.g[c]
+                # The inclination repeats after a half turn, which turns
+                # the phase as well.
+                half_turns = cluster(theta, 180) - theta
+                theta = theta + half_turns
                 coef.theta_ci[c] = (
                     1.96 * np.median(np.abs(theta - np.median(theta))) / 0.6745
                 )  # noqa
-                g[0] = coef.g[c]
-                g = cluster(g, 360)
+                g = cluster(g + half_turns, 360)
                 coef.g_ci[c] = (
                     1.96 * np.median(np.abs(g - np.median(g))) / 0.6745
                 )  # noqa
-- 
2.43.0

