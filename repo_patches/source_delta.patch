From 3aa0f0694cc5a2ee2ba2edf00b6e65b0ce0972bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 01/30] fix: SWAG steps no longer write into arrays of the user
 or lose state

self.yp was the array returned by the user's function and was overwritten
in place, which corrupted y0 (fun returning its argument) and cached results,
and failed for read-only results. The work arrays were also modified before
the step was accepted, so that a step interrupted by an exception in fun left
a corrupted history behind.
---
 extensisq/shampine.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index e5ca237..ef32b11 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -179,7 +179,10 @@ class SWAG(OdeSolver):
 
     def _step_impl(self):
 
-        # current state
+        # current state. All arrays are copied: a step that does not succeed,
+        # because it fails or because fun raises an exception, leaves the state
+        # of the solver as it was, and an array that was returned by fun (yp)
+        # is never overwritten.
         x = self.t
         y = self.y.copy()
         self.y_old = self.y                           # added, for dense output
@@ -191,6 +194,9 @@ class SWAG(OdeSolver):
           self.psi, self.alpha, self.beta, self.sig, self.v, self.w, self.g,
           self.phase1, self.ns, self.kprev, self.ivc, self.iv, self.kgi,
           self.gi, self.gstr, self.iqq, self.eps, self.p5eps)
+        phi = phi.copy('F')
+        wt, yp, psi, alpha, beta, sig, v, w, g, iv, gi = (
+            a.copy() for a in (wt, yp, psi, alpha, beta, sig, v, w, g, iv, gi))
 
         # from *** ddes.f ***
         min_step = self.fouru * abs(x)                                  # added
@@ -473,10 +479,13 @@ class SWAG(OdeSolver):
         self.t = x
         self.y = y
 
-        # store the non-mutable variables for the next step:
+        # store the variables for the next step:
         (self.h, self.hold, self.k, self.kold, self.phase1, self.ns,
          self.kprev, self.ivc, self.kgi) = (
             h, hold, k, kold, phase1, ns, kprev, ivc, kgi)
+        (self.wt, self.phi, self.yp, self.psi, self.alpha, self.beta, self.sig,
+         self.v, self.w, self.g, self.iv, self.gi) = (
+            wt, phi, yp, psi, alpha, beta, sig, v, w, g, iv, gi)
         return True, None
 
     def _dense_output_impl(self):
-- 
2.43.0


From 9e5ec1353bddbe7591f4ec7e1ca8a37a9449526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 02/30] fix: SWAG at t=0 reports failure instead of looping for
 ever

The minimum step size was relative to t only. For t=0 the step size was
halved without end if the error estimate stayed too large or was nan.
---
 extensisq/shampine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index ef32b11..c03b9d7 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -122,6 +122,7 @@ class SWAG(OdeSolver):
         small = np.nextafter(np.finfo(self.y.dtype).epsneg, 1)
         self.twou = 2.0 * small
         self.fouru = 4.0 * small
+        self.h_min_b = sqrt(np.finfo(self.y.dtype).tiny)
         self.two = (2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0,
                     1024.0, 2048.0, 4096.0, 8192.0)
         self.gstr = (0.5, 0.0833, 0.0417, 0.0264, 0.0188, 0.0143, 0.0114,
@@ -199,7 +200,8 @@ class SWAG(OdeSolver):
             a.copy() for a in (wt, yp, psi, alpha, beta, sig, v, w, g, iv, gi))
 
         # from *** ddes.f ***
-        min_step = self.fouru * abs(x)                                  # added
+        # (the absolute lower bound prevents an infinite loop at x == 0)
+        min_step = max(self.fouru * abs(x), self.h_min_b)               # added
 
         # stiffness detection
         if kold > 4:
-- 
2.43.0


From 3e114ea164b9b4f3c426d00e53bacdb2c69e23c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 03/30] fix: Mu5Nmb does not modify the coefficients of its
 class

The scaling by scale_embedded was done in place on class attributes, so each
solver that was made loosened the error control of all later and existing
ones.
---
 extensisq/murua.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/murua.py b/extensisq/murua.py
index 7a8669a..2f16849 100644
--- a/extensisq/murua.py
+++ b/extensisq/murua.py
@@ -222,8 +222,8 @@ class Mu5Nmb(RungeKuttaNystrom):
             self.K = self.K_extended[:self.n_stages+1]
         if scale_embedded:
             factor = 0.75
-            self.E *= factor
-            self.Ep *= factor
+            self.E = self.E * factor
+            self.Ep = self.Ep * factor
 
     def _dense_output_impl(self):
         if self.interpolant == 'free':
-- 
2.43.0


From d767589fa680bf757b899c964e4902bde4af356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 04/30] fix: no ZeroDivisionError for nfev_stiff_detect <
 n_stages

---
 extensisq/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 677484c..7befd7d 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -402,7 +402,7 @@ class RungeKutta(OdeSolver):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
@@ -1356,7 +1356,7 @@ class RungeKuttaNystrom(RungeKutta):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
-- 
2.43.0


From f8c6c384dd7454a08f1a7cbc21c1808f89ec3c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 05/30] fix: dense output of a low order CKdisc step keeps its
 values

It held views of the stage array, which is overwritten in the next step.
---
 extensisq/cash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index da26938..2a4a976 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -413,4 +413,4 @@ class CKdisc(RungeKutta):
             return HornerDenseOutput(self.t_old, self.t, self.y_old, Q)
         # low order solution
         return CubicDenseOutput(self.t_old, self.t, self.y_old, self.y,
-                                self.K[0, :], self.K[-1, :])
+                                self.K[0, :].copy(), self.K[-1, :].copy())
-- 
2.43.0


From 5af1f554d21ee8f61258556eec05bde2992ff0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 06/30] fix: last step of the ESDIRK methods respects max_step

It could be stretched to reach t_bound, up to 1% longer than max_step.
---
 extensisq/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extensisq/common.py b/extensisq/common.py
index 7befd7d..74bdf75 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2177,6 +2177,10 @@ class ESDIRK(OdeSolver):
         if (abs(d/h_abs - 1) < 1e-2) or (d < h_abs):
             # d <= h_abs: Don't step over t_bound or stop just below it.
             h_abs = d
+            if d > self.max_step:
+                # don't stretch beyond max_step: split over two steps.
+                h_abs = 0.5 * d
+                self.standard_sc = True
 
         return h_abs, min_step
 
-- 
2.43.0


From 6110d99ebbc7e1a5fcebd742a0e447adf191b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 07/30] fix: last step of SSV2stab respects max_step

It could be stretched to reach t_bound, up to 10% longer than max_step.
---
 extensisq/sommeijer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index e52d95f..dc80ce5 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -187,8 +187,10 @@ class SSV2stab(OdeSolver):
                 absh = self._init_step_size(t, yn, fn, vtemp1, vtemp2)
 
             #  Adjust the step size and determine the number of stages m.
-            if 1.1 * absh >= abs(self.t_bound - t):
-                absh = abs(self.t_bound - t)
+            d = abs(self.t_bound - t)
+            if 1.1 * absh >= d:
+                # don't stretch beyond max_step: split over two steps.
+                absh = d if d <= self.max_step else 0.5 * d
             m = 1 + int(sqrt(1.54 * absh * self.sprad + 1.0))
 
             # Limit m to mmax to control the growth of roundoff error.
-- 
2.43.0


From 11c116736ccefd37075b43783fb4f48d181faeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 08/30] fix: first step size of SSV2stab accounts for the
 direction

For backward integration the function was evaluated at the wrong side of t0,
outside of the integration interval.
---
 extensisq/sommeijer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index dc80ce5..95888f3 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -149,8 +149,9 @@ class SSV2stab(OdeSolver):
         if self.sprad * absh > 1.0:
             absh = 1.0 / self.sprad
         absh = max(absh, self.hmin)
-        vtemp1[:] = yn + absh * fn
-        vtemp2[:] = self.fun(t + absh, vtemp1)                       # evaluate
+        h = self.direction * absh
+        vtemp1[:] = yn + h * fn
+        vtemp2[:] = self.fun(t + h, vtemp1)                          # evaluate
         wt = self.atol + self.rtol * np.abs(yn)
         est = absh * norm((vtemp2 - fn) / wt)
         if 0.1 * absh < self.max_step * sqrt(est):
-- 
2.43.0


From 78b32e905f10b1195157fa8fe2f694e8bc8cf6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 09/30] fix: integration ends exactly at t_bound

t + (t_bound - t) can differ from t_bound by a rounding error. The last step
then ended just beyond t_bound, or just before it, after which the next step
failed because its size was too small.
---
 extensisq/bogacki.py   |  3 ++-
 extensisq/calvo.py     |  4 ++--
 extensisq/cash.py      |  5 ++---
 extensisq/common.py    | 11 +++++++++--
 extensisq/shampine.py  |  5 +++--
 extensisq/sommeijer.py |  4 ++--
 6 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 7f8a43b..28a879f 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -1,5 +1,6 @@
 import numpy as np
 from extensisq.common import (norm, RungeKutta, HornerDenseOutput, NFS,
+                              new_time,
                               calculate_scale, MAX_FACTOR)
 
 
@@ -252,7 +253,7 @@ class BS5(RungeKutta):
                 return False, self.TOO_SMALL_STEP
 
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = new_time(t, h, self.t_bound)
 
             # calculate stages, except last two
             self.K[0] = self.f
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 401240b..8de32ed 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (
-    RungeKutta, NFS, norm, MAX_FACTOR, calculate_scale)
+    RungeKutta, NFS, norm, MAX_FACTOR, calculate_scale, new_time)
 
 
 class CFMR7osc(RungeKutta):
@@ -164,7 +164,7 @@ class CFMR7osc(RungeKutta):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = new_time(t, h, self.t_bound)
 
             # calculate stages needed for error evaluation
             self.K[0] = self.f
diff --git a/extensisq/cash.py b/extensisq/cash.py
index 2a4a976..45c309a 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (RungeKutta, HornerDenseOutput, CubicDenseOutput,
-                              NFS, calculate_scale, norm)
+                              NFS, calculate_scale, norm, new_time)
 
 
 SAFETY = 0.9
@@ -265,7 +265,6 @@ class CKdisc(RungeKutta):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
 
             # start the integration, two stages at a time
             self.K[0] = self.f                                        # stage 0
@@ -377,7 +376,7 @@ class CKdisc(RungeKutta):
 
         # calculate the derivative of the accepted solution
         # for first stage of next step and for interpolation
-        t_new = t + h
+        t_new = new_time(t, h, self.t_bound)
         f_new = self.fun(t_new, y_new)
         self.K[-1, :] = f_new
 
diff --git a/extensisq/common.py b/extensisq/common.py
index 74bdf75..64242fb 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -66,6 +66,13 @@ def norm(x):
     return (np.real(x @ x.conjugate()) / x.size) ** 0.5
 
 
+def new_time(t, h, t_bound):
+    """Time at the end of a step. A step over the entire remaining interval
+    ends exactly at t_bound: t + (t_bound - t) can be 1 ulp off.
+    """
+    return t_bound if h == t_bound - t else t + h
+
+
 class RungeKutta(OdeSolver):
     """Base class for explicit runge kutta methods.
 
@@ -234,7 +241,7 @@ class RungeKutta(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = new_time(t, h, self.t_bound)
 
             # calculate stages needed for output
             self.K[0] = self.f
@@ -2027,7 +2034,7 @@ class ESDIRK(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = new_time(t, h, self.t_bound)
 
             if (LU is None) or self.jac_each_step or (
                                             self.linear and (h != self.h_LU)):
diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index c03b9d7..17a11f1 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -2,7 +2,8 @@ import numpy as np
 from warnings import warn
 from math import copysign, sqrt
 from scipy.integrate._ivp.base import OdeSolver, DenseOutput
-from extensisq.common import h_start, validate_tol, NFS, calculate_scale, norm
+from extensisq.common import (
+    h_start, validate_tol, NFS, calculate_scale, norm, new_time)
 from scipy.integrate._ivp.common import (
     validate_max_step, warn_extraneous, validate_first_step)
 
@@ -339,7 +340,7 @@ class SWAG(OdeSolver):
             p = h * (phi[:, :k] @ g[:k]) + y
             phi[:, km1::-1] = np.cumsum(phi[:, km1::-1], axis=1)
             xold = x
-            x += h
+            x = new_time(x, h, self.t_bound)
             absh = abs(h)
             yp[:] = self.fun(x, p)                                   # evaluate
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 95888f3..f68271a 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -5,7 +5,7 @@ from scipy.integrate._ivp.common import (
     validate_max_step, validate_first_step, warn_extraneous)
 from scipy.integrate._ivp.base import OdeSolver
 from extensisq.common import (validate_tol, CubicDenseOutput, NFS, norm,
-                              calculate_scale)
+                              calculate_scale, new_time)
 
 
 # global counters, several were removed
@@ -238,7 +238,7 @@ class SSV2stab(OdeSolver):
                     self.absh = absh
 
         # Step is accepted.
-        t += h
+        t = new_time(t, h, self.t_bound)
         self.jacatt = self.const_jac
         self.nstsig = (self.nstsig + 1) % 25
         self.newspc = False
-- 
2.43.0


From 2edf47bdcc5bb7f0ee07f9100149f2fb2a6122ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 10/30] fix: first step can be retried after an exception in
 fun

An exception in the evaluation at the end of the first step left the second
order step size controller enabled without a previous step: TypeError.
---
 extensisq/calvo.py  | 2 +-
 extensisq/common.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 8de32ed..1fcb3e5 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -200,7 +200,7 @@ class CFMR7osc(RungeKutta):
                     factor = self.max_factor
                     self.standard_sc = True
 
-                elif self.standard_sc:
+                elif self.standard_sc or self.h_previous is None:
                     factor = self.safety * error_norm ** self.error_exponent
                     self.standard_sc = False
 
diff --git a/extensisq/common.py b/extensisq/common.py
index 64242fb..457a989 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -260,7 +260,7 @@ class RungeKutta(OdeSolver):
                     factor = self.max_factor
                     self.standard_sc = True
 
-                elif self.standard_sc:
+                elif self.standard_sc or self.h_previous is None:
                     factor = self.safety * error_norm ** self.error_exponent
                     self.standard_sc = False
 
-- 
2.43.0


From 391f143e2de3c947dddf5aaf1c8de6b265b9b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 11/30] fix: ESDIRK steps can be retried after an exception in
 fun

The factorization was stored only after the step was accepted, but the step
size it belongs to at once. After an exception, the retried step of a linear
problem used an older factorization that belongs to another step size. For a
first step, a retry could fail with a TypeError.
---
 extensisq/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 457a989..f32ad77 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2038,7 +2038,6 @@ class ESDIRK(OdeSolver):
 
             if (LU is None) or self.jac_each_step or (
                                             self.linear and (h != self.h_LU)):
-                self.h_LU = h
                 if not self.isDAE:
                     LU = self.lu(self.M_mat - h * self.d * self.J)
                 else:
@@ -2049,6 +2048,8 @@ class ESDIRK(OdeSolver):
                     U = self.M_details['svd'][0]
                     Sc = U @ diags_array(sc) @ U.T
                     LU = self.lu(Sc @ (self.M_mat - h * self.d * self.J))
+                # keep these together: fun may raise an exception
+                self.h_LU, self.LU, self.Sc = h, LU, Sc
 
             self.Rate = -np.inf
             self.Niter = 0
@@ -2119,7 +2120,7 @@ class ESDIRK(OdeSolver):
             self.J = self.jac(t, y)                           # calculate new J
             self.current_J = True
             self.LU = None                                      # demand new LU
-        elif self.Rate > 0:
+        elif self.Rate > 0 and self.h_previous is not None:
             h = h_abs*self.direction
             h_ratio = h/self.h_previous
             h_ratio_LU = h/self.h_LU
-- 
2.43.0


From 0f9da4f00d26db19f2f80b591606a95eb181a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 12/30] fix: SWAG resets the failed step counter, like all
 other methods

---
 extensisq/shampine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 17a11f1..7181a43 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -108,6 +108,8 @@ class SWAG(OdeSolver):
         self.max_step = validate_max_step(max_step)
         self.rtol, self.atol = validate_tol(rtol, atol, self.y)
 
+        NFS[()] = 0                                # global failed step counter
+
         # starting step size
         self.yp = self.fun(self.t, self.y)                 # initial evaluation
         if first_step is None:
-- 
2.43.0


From 22064061a694e1bdb26f649ac47b76edf6628d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 13/30] fix: Nystrom methods respect vectorized and count all
 evaluations

The structure tests and the stiffness detection called the function of the
user directly, with an array of the wrong shape if vectorized=True.
---
 extensisq/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index f32ad77..ddffc8d 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1261,7 +1261,7 @@ class RungeKuttaNystrom(RungeKutta):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-            if not np.all(fun(t0, y_test)[:self.n] == y_test[self.n:]):
+            if not np.all(self.fun(self.t, y_test)[:self.n] == y_test[self.n:]):
                 raise AssertionError(msg)
         if self.Ap is NotImplemented:
             msg = ("This method is for velocity independent ODEs, "
@@ -1269,7 +1269,7 @@ class RungeKuttaNystrom(RungeKutta):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-            if not np.all(fun(t0, y_test)[self.n:] == self.f[self.n:]):
+            if not np.all(self.fun(self.t, y_test)[self.n:] == self.f[self.n:]):
                 raise AssertionError(msg)
             self.Ap = np.zeros((self.n_stages, self.n_stages))          # dummy
         # check Ep, (E is already checked)
@@ -1278,7 +1278,7 @@ class RungeKuttaNystrom(RungeKutta):
         # need storage for accelerations only
         self.K = np.empty((self.n_stages + 1, self.n), self.y.dtype)
         self.f = self.f[self.n:]
-        self.fun_first_order = fun
+        self.fun_first_order = self.fun
 
         def fun(*args, fun=self.fun, n=self.n):
             return fun(*args)[n:]
-- 
2.43.0


From 3bf3eefa3174f9bd3558705c58cf1bcb00838f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 14/30] fix: Fi5N does not ignore sc_params

---
 extensisq/fine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/fine.py b/extensisq/fine.py
index d6eae78..b4b8f9d 100644
--- a/extensisq/fine.py
+++ b/extensisq/fine.py
@@ -363,7 +363,8 @@ class Fi5N(RungeKuttaNystrom):
 
     def __init__(self, fun, t0, y0, t_bound,
                  sc_params=None, interpolant=0, **extraneous):
-        super().__init__(fun, t0, y0, t_bound, **extraneous)
+        super().__init__(fun, t0, y0, t_bound, sc_params=sc_params,
+                         **extraneous)
         # custom initialization to create extended storage for dense output
         if interpolant not in range(4):
             raise ValueError(
-- 
2.43.0


From 51e40c40485ccb33e4dc90cfc73a7373dd130a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 15/30] fix: consistent state if fun raises during stiffness
 detection

Stiffness detection is done after the new t and y are set, but t_old was set
later. After an exception, dense_output used the wrong start of the step.
---
 extensisq/bogacki.py | 1 +
 extensisq/calvo.py   | 1 +
 extensisq/common.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 28a879f..6d4bdb1 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -330,6 +330,7 @@ class BS5(RungeKutta):
         self.error_norm_old = error_norm
 
         # output
+        self.t_old = t
         self.t = t_new
         self.y = y_new
 
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 1fcb3e5..e20d3b6 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -244,6 +244,7 @@ class CFMR7osc(RungeKutta):
         self.error_norm_old = error_norm
 
         # output
+        self.t_old = t
         self.t = t_new
         self.y = y_new
 
diff --git a/extensisq/common.py b/extensisq/common.py
index ddffc8d..ad28604 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -306,6 +306,7 @@ class RungeKutta(OdeSolver):
         self.error_norm_old = error_norm
 
         # output
+        self.t_old = t
         self.t = t_new
         self.y = y_new
 
-- 
2.43.0


From 663c6e34530fdab646110e07d90e6357fd48a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 16/30] fix: the best interpolant of BS5 reports the interval
 of its step

t_old, t, t_min and t_max were those of an interval beyond the step.
---
 extensisq/bogacki.py | 14 +++++++++++++-
 extensisq/common.py  |  6 +++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 6d4bdb1..d80e831 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -4,6 +4,18 @@ from extensisq.common import (norm, RungeKutta, HornerDenseOutput, NFS,
                               calculate_scale, MAX_FACTOR)
 
 
+class BackwardHornerDenseOutput(HornerDenseOutput):
+    """Polynomial that looks back from the end of the step.
+    """
+    def __init__(self, t_old, t, y, Q, h):
+        super().__init__(t_old, t, y, Q)
+        self.h = h
+        self.Q = Q * h
+
+    def _call_impl(self, t):
+        return self._evaluate((t - self.t) / self.h)
+
+
 class BS5(RungeKutta):
     """Explicit Runge-Kutta method of order 5(4).
 
@@ -392,4 +404,4 @@ class BS5(RungeKutta):
         # RKSuite's, polynomial definition is different from scipy's: looking
         # back from the end of the step instead of forward from the start.
         # The call is modified to accomodate:
-        return HornerDenseOutput(self.t, self.t+h, self.y, Q)
+        return BackwardHornerDenseOutput(self.t_old, self.t, self.y, Q, h)
diff --git a/extensisq/common.py b/extensisq/common.py
index ad28604..8b22292 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -781,10 +781,10 @@ class HornerDenseOutput(DenseOutput):
         self.y_old = y_old
 
     def _call_impl(self, t):
-
         # scaled time
-        x = (t - self.t_old) / self.h
+        return self._evaluate((t - self.t_old) / self.h)
 
+    def _evaluate(self, x):
         # Horner's rule:
         y = self.Q.T[-1, :, np.newaxis] * x
         for q in reversed(self.Q.T[:-1]):
@@ -792,7 +792,7 @@ class HornerDenseOutput(DenseOutput):
             y *= x
         y += self.y_old[:, np.newaxis]
 
-        if t.shape:
+        if x.shape:
             return y
         else:
             return y[:, 0]
-- 
2.43.0


From 2746eb6be919adee8c4ec7143e867623f2fb95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 17/30] fix: array atol can be used for DAEs

The estimate of the first step size uses the differential variables only, but
atol of all variables: ValueError because of the different sizes.
---
 extensisq/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 8b22292..e660960 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1921,7 +1921,8 @@ class ESDIRK(OdeSolver):
         S = Guv @ np.linalg.solve(Gvv, Gvu)
         Tr = np.diag(1/s[s_u]) @ (gudot + Guv @ vdot)
         Jr = np.diag(1/s[s_u]) @ (Guu + S)
-        kwargs_hstart = {'y': u, 'yprime': udot, 'J': Jr, 'T': Tr}
+        kwargs_hstart = {'y': u, 'yprime': udot, 'J': Jr, 'T': Tr,
+                         'atol': np.min(self.atol)}
 
         if self.sparse:
             J = csc_array(J)
@@ -1999,8 +2000,8 @@ class ESDIRK(OdeSolver):
                 # use only the ODE portion of the DAE as calculated in
                 # _consistent_ICs.
                 self.h_abs = abs(h_start(
-                    fun, self.t, b, morder=order,
-                    rtol=self.rtol, atol=self.atol, **kwargs_hstart))
+                    fun, self.t, b, morder=order, rtol=self.rtol,
+                    **kwargs_hstart))
             else:
 
                 def fun_ext(t, y, LU_M=LU_M):
-- 
2.43.0


From 2d28b084f29987665a1175397ecd49bd9c39ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 18/30] fix: SSV2stab reports failure if the spectral radius
 overflows

An infinite estimate was seen as converged: OverflowError.
---
 extensisq/sommeijer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index f68271a..b9b2209 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -381,6 +381,8 @@ class SSV2stab(OdeSolver):
             # sprad is a little bigger than the estimate sigma of the
             # spectral radius, so is more likely to be an upper bound.
             sprad = 1.2 * sigma
+            if not np.isfinite(sigma):
+                return None
             if iter and abs(sigma - sigmal) <= max(sigma, small) * 0.01:
                 # converged
                 self.V[:] = v - yn
-- 
2.43.0


From 79d5d8b2fb502b706440c1aa906dd6756c668afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 19/30] fix: first step of SSV2stab respects max_step

first_step was not limited to max_step.
---
 extensisq/sommeijer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index b9b2209..0338295 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -139,6 +139,8 @@ class SSV2stab(OdeSolver):
         self.W[1] = self.fun(self.t, self.y)                         # evaluate
         max_step = min(self.max_step, abs(self.t_bound - self.t))
         self.max_step = min(max_step, sqrt(np.finfo(self.y.dtype).max))
+        if self.absh is not None:
+            self.absh = min(self.absh, self.max_step)
         hmin = abs(self.t)
         if self.t_bound != np.inf:
             hmin = max(hmin, abs(self.max_step))
-- 
2.43.0


From c72fa175350b641b727408f4ade1ef9cc09e3ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 20/30] fix: consistent initial values are verified after the
 search

---
 extensisq/common.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extensisq/common.py b/extensisq/common.py
index e660960..dd06c18 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1893,6 +1893,13 @@ class ESDIRK(OdeSolver):
             f = fun(t, y)
             J = jac(t, y)              # J at updated y0
             self.njev -= 1             # don't count this evaluation
+            # `root` may claim success after a non-finite value of fun
+            dv = np.linalg.solve((U.T @ J @ Vh.T)[s_v, s_v], (U.T @ f)[s_v])
+            tol = np.max(self.atol) + max(self.rtol, 1e-6)*norm(v)
+            if not norm(dv) <= tol:
+                raise ValueError(
+                    "Cannot find consistent initial conditions."
+                    " Try to give a better y0")
             if not np.allclose(y, y0, rtol=self.rtol, atol=self.atol):
                 warn(f"\nInitial conditions are changed to y0 = {y} to"
                      "\nmake them consistent with the algebraic constraints."
-- 
2.43.0


From 68a2b35cb696fcea313b84c413d9d6b433e72fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 21/30] fix: atol of sens_forward can be a sequence

---
 extensisq/sensitivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/sensitivity.py b/extensisq/sensitivity.py
index e4f683c..de38836 100644
--- a/extensisq/sensitivity.py
+++ b/extensisq/sensitivity.py
@@ -162,6 +162,7 @@ def sens_forward(fun, t_span, y0, jac, dfdp, dy0dp, p, atol=1e-6, rtol=1e-3,
     assert isinstance(rtol, float), 'rtol should be a float'
     assert isinstance(atol, float) or len(atol) == Ny, \
         '`atol` should be a float or a sequence of floats of length Ny'
+    atol = np.asarray(atol)
     total_atol = np.empty((Np+1)*Ny)
     total_atol[:Ny] = atol
     for i, _p in enumerate(p, start=1):
-- 
2.43.0


From 5aab71180ba38d4852bc144dec5e05f8b33c8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 22/30] fix: CKdisc: keep the adaptive weights unchanged if a
 step is not completed

---
 extensisq/cash.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index 45c309a..a79a4fc 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -253,8 +253,8 @@ class CKdisc(RungeKutta):
     def _step_impl(self):
         t = self.t
         y = self.y
-        twiddle = self.twiddle
-        quit = self.quit
+        twiddle = self.twiddle.copy()
+        quit = self.quit.copy()
 
         h_abs, min_step = self._reassess_stepsize(t, y)
 
@@ -381,6 +381,8 @@ class CKdisc(RungeKutta):
         self.K[-1, :] = f_new
 
         # store for next step and interpolation
+        self.twiddle = twiddle
+        self.quit = quit
         self.order_accepted = order_accepted                      # error order
         self.h_previous = h
         self.y_old = y
-- 
2.43.0


From 657671ae1d746f9eff8b9400c60d6d362e7ac3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 23/30] fix: accept consistent initial values when root cannot
 improve them any more

---
 extensisq/common.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index dd06c18..a68a01d 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1884,16 +1884,13 @@ class ESDIRK(OdeSolver):
                 return Gvv
 
             solC = root(funC, v0, jac=jacC)
-            if not solC.success:
-                raise ValueError(
-                    "Cannot find consistent initial conditions."
-                    " Try to give a better y0")
             v = solC.x
             y = Vh.T @ np.r_[u, v]
             f = fun(t, y)
             J = jac(t, y)              # J at updated y0
             self.njev -= 1             # don't count this evaluation
-            # `root` may claim success after a non-finite value of fun
+            # `root` may claim success after a non-finite value of fun, and
+            # failure if it cannot improve a result that is exact already
             dv = np.linalg.solve((U.T @ J @ Vh.T)[s_v, s_v], (U.T @ f)[s_v])
             tol = np.max(self.atol) + max(self.rtol, 1e-6)*norm(v)
             if not norm(dv) <= tol:
-- 
2.43.0


From 8581b4a3675a2ee8a53442ef2e54379d6bbdce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:27 +0000
Subject: [PATCH 24/30] fix: filter the error estimate of M y' = f with (M - h
 d J)^-1 M

The factors were in the wrong order. Errors in the algebraic equations
leaked into the filtered error of the differential variables of a DAE,
without vanishing for h -> 0: runs could end with a too small step size
and local errors far above the tolerance were accepted.
---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index a68a01d..042a81c 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2097,7 +2097,7 @@ class ESDIRK(OdeSolver):
             scale = calculate_scale(self.atol, self.rtol, y, y_new)
             err = h * (K.T @ self.E)                                      # est
             if self.filter_error:
-                err = self.M_mat @ self.solve_lu(LU, Sc @ err)            # Est
+                err = self.solve_lu(LU, Sc @ (self.M_mat @ err))          # Est
             error_norm = norm(err/scale)
 
             # propose new stepsize
-- 
2.43.0


From d25417c77fbcecfa3afe25ecb2247a983cc4a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:04 +0000
Subject: [PATCH 25/30] fix: KC4Ia: iteration error of algebraic variables
 could reject steps of any size

The error estimate of this method amplifies the error that the Newton
iteration leaves in the algebraic variables of a DAE by more than 5. If
the sum was larger than the tolerance, then the next step was rejected
for any step size and the integration failed. The iteration is continued
to a smaller error for DAEs, if the method needs that.
---
 extensisq/common.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/extensisq/common.py b/extensisq/common.py
index 042a81c..9698190 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1985,6 +1985,14 @@ class ESDIRK(OdeSolver):
         self.Niter = 0
         self.M_mat, self.M_details, self.isDAE = self._handle_M(M)
         if self.isDAE:
+            if not self.filter_error:
+                # The error that the iteration leaves in algebraic variables is
+                # part of the error estimate of the next step, for any step
+                # size. It should be small after multiplication by this factor:
+                amp = abs(self.E[1:] @ np.linalg.solve(
+                    self.A[1:, 1:], np.ones(self.n_stages - 1)))
+                if amp * self.kappa > 0.1:
+                    self.kappa = 0.1 / amp
             self.y, yp0, self.J, kwargs_hstart = self._consistent_ICs()
         else:
             M_mat = self.M_mat
-- 
2.43.0


From 3616f11bee4950f2cc16d07106a464e04bd7fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:07 +0000
Subject: [PATCH 26/30] fix: the check for consistent initial values depended
 on the units of the equations

Inconsistent initial values of a DAE were used silently if the algebraic
equations have small residuals (< 1e-8), regardless of the size of the
error in y.
---
 extensisq/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extensisq/common.py b/extensisq/common.py
index 9698190..336f618 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1863,6 +1863,11 @@ class ESDIRK(OdeSolver):
         # find consistent y0 if needed
         b = U.T @ f
         consistent_y = np.allclose(b[s_v], 0.)
+        if consistent_y:
+            # b has the scale of the equations: also assess its effect on y
+            v = (Vh @ y)[s_v]
+            dv = np.linalg.solve(Gvv, b[s_v])
+            consistent_y = norm(dv) <= np.min(self.atol) + self.rtol*norm(v)
         if consistent_y:
             u = (Vh @ y)[s_u]
         else:
-- 
2.43.0


From 3fdf8365d1dd5726d58253d547d37f84a77d2ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 27/30] fix: DAEs in the complex domain can have a complex mass
 matrix

The singular vectors were transposed without taking the conjugate.
Consistent initial values were considered to be inconsistent, for which
there is no search in the complex domain.
---
 extensisq/common.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 336f618..91f33a8 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1853,7 +1853,7 @@ class ESDIRK(OdeSolver):
         s_v = self.M_details['s_AE']
         s_u = np.s_[:s_v.start]
         U, s, Vh = self.M_details['svd']
-        Gvv = (U.T @ J @ Vh.T)[s_v, s_v]
+        Gvv = (U.conj().T @ J @ Vh.conj().T)[s_v, s_v]
         index1 = np.linalg.matrix_rank(Gvv) == Gvv.shape[1]
         if not index1:
             raise ValueError(
@@ -1861,7 +1861,7 @@ class ESDIRK(OdeSolver):
                 " This method is not suitable for solving it.")
 
         # find consistent y0 if needed
-        b = U.T @ f
+        b = U.conj().T @ f
         consistent_y = np.allclose(b[s_v], 0.)
         if consistent_y:
             # b has the scale of the equations: also assess its effect on y
@@ -1877,26 +1877,27 @@ class ESDIRK(OdeSolver):
             u = z0[s_u]     # fixed
 
             def funC(v, u=u, t=t, U=U, Vh=Vh):
-                y = Vh.T @ np.r_[u, v]
+                y = Vh.conj().T @ np.r_[u, v]
                 f = fun(t, y)
-                gv = (U.T @ f)[s_v]
+                gv = (U.conj().T @ f)[s_v]
                 return gv
 
             def jacC(v, u=u, t=t, U=U, Vh=Vh):
-                y = Vh.T @ np.r_[u, v]
-                Gvv = (U.T @ jac(t, y) @ Vh.T)[s_v, s_v]
+                y = Vh.conj().T @ np.r_[u, v]
+                Gvv = (U.conj().T @ jac(t, y) @ Vh.conj().T)[s_v, s_v]
                 self.njev -= 1                  # don't count these evaluations
                 return Gvv
 
             solC = root(funC, v0, jac=jacC)
             v = solC.x
-            y = Vh.T @ np.r_[u, v]
+            y = Vh.conj().T @ np.r_[u, v]
             f = fun(t, y)
             J = jac(t, y)              # J at updated y0
             self.njev -= 1             # don't count this evaluation
             # `root` may claim success after a non-finite value of fun, and
             # failure if it cannot improve a result that is exact already
-            dv = np.linalg.solve((U.T @ J @ Vh.T)[s_v, s_v], (U.T @ f)[s_v])
+            G, g = U.conj().T @ J @ Vh.conj().T, U.conj().T @ f
+            dv = np.linalg.solve(G[s_v, s_v], g[s_v])
             tol = np.max(self.atol) + max(self.rtol, 1e-6)*norm(v)
             if not norm(dv) <= tol:
                 raise ValueError(
@@ -1915,16 +1916,16 @@ class ESDIRK(OdeSolver):
         b = t + self.direction * min(abs(self.t_bound - t), self.max_step)
         fdot = h_start(fun, t, b, y, f, None,
                        self.rtol, self.atol, returnT=True)
-        gdot = U.T @ fdot
+        gdot = U.conj().T @ fdot
         gudot, gvdot = gdot[s_u], gdot[s_v]
-        g = U.T @ f
+        g = U.conj().T @ f
         gu = g[s_u]         # gv = g[s_v]
-        G = U.T @ J @ Vh.T
+        G = U.conj().T @ J @ Vh.conj().T
         Guu, Guv = G[s_u, s_u], G[s_u, s_v]
         Gvv, Gvu = G[s_v, s_v], G[s_v, s_u]
         udot = gu/s[s_u]    # fixed
         vdot = -np.linalg.solve(Gvv, gvdot + Gvu @ udot)
-        ydot = Vh.T @ np.r_[udot, vdot]
+        ydot = Vh.conj().T @ np.r_[udot, vdot]
         # Effective Jac and T for problem when reduced to an ODE
         # h_start can use these.
         S = Guv @ np.linalg.solve(Gvv, Gvu)
@@ -2065,7 +2066,7 @@ class ESDIRK(OdeSolver):
                     sc = np.ones(self.n)
                     sc[s_AE] = 1/(h*self.d)
                     U = self.M_details['svd'][0]
-                    Sc = U @ diags_array(sc) @ U.T
+                    Sc = U @ diags_array(sc) @ U.conj().T
                     LU = self.lu(Sc @ (self.M_mat - h * self.d * self.J))
                 # keep these together: fun may raise an exception
                 self.h_LU, self.LU, self.Sc = h, LU, Sc
-- 
2.43.0


From 9962d2164616c4e82a4b1977103a6a06b2f93359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:44 +0000
Subject: [PATCH 28/30] fix: search for consistent initial values of a DAE in
 the complex domain

scipy.optimize.root refused complex variables with a TypeError.
---
 extensisq/common.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 91f33a8..659a39e 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1888,8 +1888,21 @@ class ESDIRK(OdeSolver):
                 self.njev -= 1                  # don't count these evaluations
                 return Gvv
 
-            solC = root(funC, v0, jac=jacC)
-            v = solC.x
+            if np.iscomplexobj(v0):
+                # root needs real functions of real variables
+                def funR(x):
+                    return funC(x.view(v0.dtype)).view(x.dtype)
+
+                def jacR(x):
+                    Gvv = jacC(x.view(v0.dtype))
+                    return (np.kron(Gvv.real, [[1, 0], [0, 1]]) +
+                            np.kron(Gvv.imag, [[0, -1], [1, 0]]))
+
+                solC = root(funR, v0.view(v0.real.dtype), jac=jacR)
+                v = solC.x.view(v0.dtype)
+            else:
+                solC = root(funC, v0, jac=jacC)
+                v = solC.x
             y = Vh.conj().T @ np.r_[u, v]
             f = fun(t, y)
             J = jac(t, y)              # J at updated y0
-- 
2.43.0


From da77e7f00e254a2b6507eed3a9fb8eafa0d60cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:46 +0000
Subject: [PATCH 29/30] fix: sens_adjoint does not extrapolate a given solution
 that ends too early

---
 extensisq/sensitivity.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extensisq/sensitivity.py b/extensisq/sensitivity.py
index de38836..7168378 100644
--- a/extensisq/sensitivity.py
+++ b/extensisq/sensitivity.py
@@ -328,6 +328,9 @@ def sens_adjoint_end(fun, t_span, y0, jac, dfdp, dy0dp, p, g, dgdp, dgdy,
     if sol_y is not None:
         if sol_y.sol is None:
             raise ValueError("sol_y should have a dense output")
+        if (min(t0, tf) < sol_y.sol.t_min) or (max(t0, tf) > sol_y.sol.t_max):
+            # e.g. of an integration that failed: don't extrapolate
+            raise ValueError("sol_y should cover t_span")
     else:
         if method in ("LSODA", "BDF", "Radau"):
             # implicit method
@@ -495,6 +498,9 @@ def sens_adjoint_int(fun, t_span, y0, jac, dfdp, dy0dp, p, g, dgdp, dgdy,
     if sol_y is not None:
         if sol_y.sol is None:
             raise ValueError("sol_y should have a dense output")
+        if (min(t0, tf) < sol_y.sol.t_min) or (max(t0, tf) > sol_y.sol.t_max):
+            # e.g. of an integration that failed: don't extrapolate
+            raise ValueError("sol_y should cover t_span")
     else:
         if method in ("LSODA", "BDF", "Radau"):
             # implicit method
-- 
2.43.0


From 639c1be6f980bd3e16b0ab1c654f0554500795c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:37 +0000
Subject: [PATCH 30/30] fix: cubic interpolant of ESDIRK methods uses the slope
 at the start of the step

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 659a39e..f4f54ba 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2134,7 +2134,7 @@ class ESDIRK(OdeSolver):
 
         # step accepted, set or store for next step
         self.y_old = y.copy()
-        self.yp_old = self.f.copy()
+        self.yp_old = self.yp
         self.yp = K[-1, :].copy()
         self.error_norm_old = error_norm
         self.h_previous = h
-- 
2.43.0

