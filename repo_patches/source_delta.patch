From 5eafec919c3b5734e860010cdad27bf4eb43df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 01/17] fix: import the RBF kernel from the package it lives in

The kernels package is one directory up, so importing the package failed.
---
 .../score_estimators/score_function_estimators_pytorch.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index fa4aed1..aa38e2b 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -8,7 +8,10 @@ Created on Wed Jan 19 01:15:07 2022
 import torch
 import numpy as np
 from typing import Union
-from .kernels.RBF_pytorch import RBF
+try:
+    from ..kernels.RBF_pytorch import RBF
+except ImportError: ###when the estimators are imported as top-level modules (documentation)
+    from kernels.RBF_pytorch import RBF
 
 __all__ = ["torched_score_function_multid_seperate_all_dims"]
 
-- 
2.43.0


From a586f8408d48e4f2842a4648c722f5c07aa97e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 02/17] fix: keep the numpy estimators importable without
 pytorch

---
 .../score_estimators/__init__.py                           | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/__init__.py b/DeterministicParticleFlowControl/score_estimators/__init__.py
index 0c8450b..bf51fe0 100644
--- a/DeterministicParticleFlowControl/score_estimators/__init__.py
+++ b/DeterministicParticleFlowControl/score_estimators/__init__.py
@@ -3,4 +3,9 @@
 Module containing the logarithmic gradient estimators.
 """
 from .score_function_estimators import *  
-from .score_function_estimators_pytorch import *  
+try:
+    import torch
+except ImportError: ###without pytorch only the numpy estimators are available
+    pass
+else:
+    from .score_function_estimators_pytorch import *
-- 
2.43.0


From 61d3add4bdb94f14dac51512f4e172c7403218a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 03/17] fix: do not require duecredit for importing the package

Use the stub in due.py that was added for this purpose.
---
 .../DeterministicParticleFlowControl.py                      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d33466e..d67bea4 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -41,7 +41,8 @@ if __name__ == "DeterministicParticleFlowControl.DeterministicParticleFlowContro
     if TORCHED:
         from .score_estimators.score_function_estimators_pytorch import  torched_score_function_multid_seperate_all_dims
         #from .utils.utils_pytorch import set_device
-        
+    from .due import due, BibTeX
+
 else:
     ###this clause is for imports to work properly for the documendation
     from score_estimators.score_function_estimators import  score_function_multid_seperate
@@ -49,7 +50,7 @@ else:
     if TORCHED:
         from score_estimators.score_function_estimators_pytorch import  torched_score_function_multid_seperate_all_dims
         #from utils.utils_pytorch import set_device
-from duecredit import due, BibTeX
+    from due import due, BibTeX
 
 
 if TORCHED:
-- 
2.43.0


From 4b2f60d83cc8146540f4fa4c2fd70cde4ca8d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 04/17] fix: evaluate the drift at its time in stochastic
 forward sampling

The drift f(x,t) was called without its time argument (and on single
particles, which failed for a per-dimension diffusion coefficient), so a
time dependent drift raised or was silently evaluated at its default time.
---
 .../DeterministicParticleFlowControl.py                   | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d67bea4..ee8f58f 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -243,11 +243,9 @@ class DPFC(object):
                 self.Z[0, :, 0] = self.y1[0]
                 self.Z[1, :, 0] = self.y1[1]
             else:
-                for i in range(self.N):
-                    #self.Z[:,i,:] = sdeint.itoint(self.f, self.g, self.Z[i,0], self.timegrid)[:,0]
-                    self.Z[:, i, ti] = (self.Z[:, i, ti-1] + \
-                                      self.dt* self.f(self.Z[:, i, ti-1]) + \
-                                      (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim,)))
+                self.Z[:, :, ti] = (self.Z[:, :, ti-1] + \
+                                  self.dt* self.f(self.Z[:, :, ti-1], tt-self.dt) + \
+                                  (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N)))
 
                 ###WEIGHT
                 if self.reweight == True:
-- 
2.43.0


From 5f0a0f206eedda30a4ea3ca46750b035161f2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 05/17] fix: start all dimensions at y1 in stochastic forward
 sampling

Only the first two dimensions were initialised: further ones started at
zero, and one dimensional systems raised.
---
 .../DeterministicParticleFlowControl.py                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index ee8f58f..d76eda0 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -240,8 +240,8 @@ class DPFC(object):
         for ti, tt in enumerate(self.timegrid):
 
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
                 self.Z[:, :, ti] = (self.Z[:, :, ti-1] + \
                                   self.dt* self.f(self.Z[:, :, ti-1], tt-self.dt) + \
@@ -910,8 +910,8 @@ class torched_DPFC(object):
         
         for ti, tt in enumerate(self.timegrid):
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
                 self.Z[:, :, ti] = self.Z[:, :, ti-1] + \
                                     self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
-- 
2.43.0


From 772597f99d992212d32c7f8dfba381cedc962841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 06/17] fix: weight stochastic particles with U(x,t) over one
 time step

U expects two arguments (README), but stochastic sampling called it with
one and raised; the weight of a step is exp(U dt), as in the deterministic
sampling.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d76eda0..61d416b 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -250,7 +250,7 @@ class DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/np.sum(W)
 
                         ###REWEIGHT
@@ -920,7 +920,7 @@ class torched_DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/torch.sum(W)
 
                         ###REWEIGHT with pot TO DO:
-- 
2.43.0


From 4d0155d2d9c4e49455dd5d05d489802d74dbadfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 07/17] fix: do not overwrite the terminal stochastic forward
 particles

Collapsing the last time step to y2 left the forward density without spread
there, and the backward flow became NaN everywhere (the pytorch version had
already dropped this).
---
 .../DeterministicParticleFlowControl.py                         | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 61d416b..d46cdd2 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -258,8 +258,6 @@ class DPFC(object):
 
                         self.Z[:, :, ti] = (self.Z[:, :, ti])@Tstar
 
-        for di in range(self.dim):
-            self.Z[di, :, -1] = self.y2[di]
         logging.info('Forward sampling done!')
         return 0
 
-- 
2.43.0


From afcbb643f74d188ed6cca59d0582d22453cd3143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 08/17] fix: sample the true drift flow of a Brownian bridge in
 both modes

In stochastic mode it was left at zero, so the controls were NaN.
---
 .../DeterministicParticleFlowControl.py           | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d46cdd2..1531042 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -211,11 +211,11 @@ class DPFC(object):
         ##the stochastic sampling is provided for comparison
         if self.deterministic:
             self.forward_sampling_Otto()
-            ### if a Brownian bridge is used for forward sampling
-            if self.reweight and self.brown_bridge:
-                self.forward_sampling_Otto_true()
         else:
             self.forward_sampling()
+        ### if a Brownian bridge is used for forward sampling
+        if self.reweight and self.brown_bridge:
+            self.forward_sampling_Otto_true()
         ## the backward function selects internally for type of dynamics
         self.backward_simulation()
         # if self.reject:
@@ -877,13 +877,12 @@ class torched_DPFC(object):
         ##the stochastic sampling is provided for comparison
         if self.deterministic:
             self.forward_sampling_Otto()
-            
-            ### if a Brownian bridge is used for forward sampling
-            if self.reweight and self.brown_bridge:
-                self.forward_sampling_Otto_true()
         else:
             self.forward_sampling()
-        
+        ### if a Brownian bridge is used for forward sampling
+        if self.reweight and self.brown_bridge:
+            self.forward_sampling_Otto_true()
+
         ## the backward function selects internally for type of dynamics
         self.backward_simulation()
         # if self.reject:
-- 
2.43.0


From 623345e7a819224e72fa499f746b138b16cd63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 09/17] fix: evaluate Brownian bridge controls at the requested
 points

The points were clipped to bounds of mixed up dimensions before evaluating
the forward score (clipping is not used elsewhere, nor in pytorch).
---
 .../DeterministicParticleFlowControl.py                      | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 1531042..def136b 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -677,10 +677,7 @@ class DPFC(object):
                 if self.reweight == False or self.brown_bridge == False:
                     score_Fw = score_function_multid_seperate(self.Z[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc2, which_dim=di+1, kern=self.kern)(grid_z)
                 else:
-                    bndsztr = np.zeros((self.dim, 2))
-                    for ii in range(self.dim):
-                        bndsztr[di] = [np.min(self.Ztr[di, :, ti]), np.max(self.Ztr[di, :, ti])]
-                    grid_ztr = np.clip(grid_x, bndsztr[0], bndsztr[1])
+                    grid_ztr = grid_x
                     lnthsc3 = 2*np.std(self.Ztr[:, :, ti], axis=1)
                     score_Fw = score_function_multid_seperate(self.Ztr[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc3, which_dim=di+1, kern=self.kern)(grid_ztr)
 
-- 
2.43.0


From 1c8a3f01e286a7cdd8f7633bb8f0bd071cb5f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 10/17] fix: shapes in the pytorch true drift flow of a
 Brownian bridge

The inducing points and the estimated score were transposed, so Brownian
bridge reweighting raised (compare f_seperate).
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index def136b..c199e3a 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -976,14 +976,14 @@ class torched_DPFC(object):
 
 
         gpsi = torched_score_function_multid_seperate_all_dims(torch.t(x),
-                                                               torch.t(Sxx),
+                                                               Sxx,
                                                                func_out=False,
                                                                C=0.001,
                                                                l=lnthsc,
                                                                kern=self.kern,
                                                                device=self.device)
 
-        return self.f_true(x, t)-0.5* self.g**2* gpsi
+        return self.f_true(x, t)-0.5* self.g**2* torch.t(gpsi)
 
 
     ### effective forward drift - estimated seperatelly for each dimension
-- 
2.43.0


From 6dec2e98751b305ab4364c034b6c2bb39a7183b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 11/17] fix: accept numpy initial and terminal states in
 torched_DPFC

They were converted to tensors only after the tensor method size(dim=0) had
been called on them.
---
 .../DeterministicParticleFlowControl.py                        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index c199e3a..6f965a2 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -808,8 +808,6 @@ class torched_DPFC(object):
                  device=None):
 
         self.device = device
-        # dimensionality of the system
-        self.dim = torch.tensor(y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
         self.t1 = t1
         self.t2 = t2
         if not torch.is_tensor(y1):
@@ -818,6 +816,7 @@ class torched_DPFC(object):
         else:
             self.y1 = y1
             self.y2 = y2
+        self.dim = torch.tensor(self.y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
 
 
         ##density estimation stuff
-- 
2.43.0


From 9ad95ed5a8bc2e6e8fa3019e2b225e575fd46c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 12/17] fix: check_if_covered of torched_DPFC asks for both
 densities

A point outside one of the flows, or between them, was reported as covered
(compare DPFC.check_if_covered).
---
 .../DeterministicParticleFlowControl.py                     | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 6f965a2..ad195f8 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -1489,10 +1489,8 @@ class torched_DPFC(object):
         bnds = torch.zeros(self.dim, 2, dtype=torch.float64,
                           device=self.device)
         for ii in range(self.dim):
-            bnds[ii, 0] = min(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
-            bnds[ii, 1] = max(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
-            
-            
+            bnds[ii, 0] = max(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
+            bnds[ii, 1] = min(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
 
             covered = covered * ((X[ii] >= bnds[ii][0]) and (X[ii] <= bnds[ii][1]))
 
-- 
2.43.0


From efbc60d428b6947af73ae34f9250be662d31d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 13/17] fix: use the weighting constant C passed to the pytorch
 estimator

---
 .../score_estimators/score_function_estimators_pytorch.py        | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index aa38e2b..9fff3fd 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -64,7 +64,6 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
     M, dim = Z.shape
-    C = 0.001
 
     if not torch.is_tensor(X):
           # convert inputs to pytorch tensors if not already pytorched
-- 
2.43.0


From c1e46d11f45e67ea9b88779ae2d442c946de8183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 14/17] fix: accept the documented inputs in the pytorch score
 estimator

Function output raised for tensors with a scalar lengthscale (so that
one dimensional systems failed in torched_DPFC) and for lengthscales given
as list, tuple or numpy array; inducing points were only converted together
with the samples; a 0-dimensional lengthscale tensor raised.
---
 .../score_function_estimators_pytorch.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index 9fff3fd..577c18b 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -69,12 +69,12 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
           # convert inputs to pytorch tensors if not already pytorched
           X = torch.tensor(X, dtype=torch.float64, device=device)
 
-          if Z is None:
-              Z = X
-          elif not torch.is_tensor(Z):
-              Z = torch.tensor(Z, dtype=torch.float64, device=device)
+    if Z is None:
+        Z = X
+    elif not torch.is_tensor(Z):
+        Z = torch.tensor(Z, dtype=torch.float64, device=device)
     N, D = X.size()
-    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.size(dim=0)>1):
+    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.numel()>1):
           multil = True
 
           ### for different lengthscales for each dimension
@@ -132,7 +132,7 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
                           x = torch.tensor(x, dtype=torch.float64, device=device)
                     X_i = x[:, None, :] # shape (n, D) -> (n, 1, D)
                     Z_j = Z[None, :, :] # shape (M, D) -> (1, M, D)
-                    sqd1     = torch.div( (X_i - Z_j)**2, l**2)
+                    sqd1     = torch.div( (X_i - Z_j)**2, K_instance.length_scale**2)
                     sqd     = torch.sum( sqd1, 2)
                     K_sz    = torch.exp( -0.5* sqd )
 
@@ -143,11 +143,11 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
         elif not multil:
             if kern=='RBF':
 
-                  def K_sz(y):
-                      if not torch.is_tensor(y):
+                  def K_sz(x):
+                      if not torch.is_tensor(x):
                           # convert inputs to pytorch tensors if not already pytorched
-                          xu = torch.tensor(y, dtype=torch.float64, device=device)
-                      X_i = xu[:, None, :] # shape (n, D) -> (n, 1, D)
+                          x = torch.tensor(x, dtype=torch.float64, device=device)
+                      X_i = x[:, None, :] # shape (n, D) -> (n, 1, D)
                       Z_j = Z[None, :, :] # shape (M, D) -> (1, M, D)
                       sqd     = torch.sum( (X_i - Z_j)**2, 2)         # |X_i - Y_j|^2 # (N, M, D)
                       # Divide by length scale
-- 
2.43.0


From 2e2b997aa4f2f1dcb29c12ec487f99fc5f9979f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 15/17] fix: RBF.gradient_X uses the kernel of its own
 arguments

It used the kernel matrix of whatever pair of point sets had been evaluated
last on the instance, and failed for the documented array inputs.
---
 .../kernels/RBF_pytorch.py                          | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
index 231abd4..089afd2 100644
--- a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
+++ b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
@@ -132,12 +132,17 @@ class RBF:
             Array with the gradient of the Kernel -> (N, M, D).
 
         """
-        #N, D = X.shape    
-        M,_ = Y.shape
-        diffs = X[:,None]-Y            
+        K = self.Kernel(X, Y)
+        if not torch.is_tensor(X):
+          X = torch.tensor(X, dtype=torch.float64, device=self.device)
+        if Y is None:
+            Y = X
+        elif not torch.is_tensor(Y):
+            Y = torch.tensor(Y, dtype=torch.float64, device=self.device)
+        diffs = X[:,None]-Y
         #if self.multil:            
         redifs = torch.div(diffs, self.length_scale.to(self.device)**2)
-        redifs = torch.einsum( 'ijk,ij->ijk', redifs, self.K_data)
+        redifs = torch.einsum( 'ijk,ij->ijk', redifs, K)
         #redifs[:,:,ii] = np.multiply(diffs[:,:,ii],K(x,y,l,True))/(l[ii]*l[ii])   
         #else:
             #redifs[:,:,ii] = np.multiply(diffs[:,:,ii],K(x,y,l))/(l*l)
-- 
2.43.0


From 6f19f206b31cbb9c8d7fb34a249f503897822691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 16/17] fix: score function output for other than two
 dimensions in score.py

---
 DeterministicParticleFlowControl/score_estimators/score.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score.py b/DeterministicParticleFlowControl/score_estimators/score.py
index 451b6c2..0d4e5f2 100644
--- a/DeterministicParticleFlowControl/score_estimators/score.py
+++ b/DeterministicParticleFlowControl/score_estimators/score.py
@@ -7,6 +7,7 @@ Created on Mon Dec 20 04:31:59 2021
 
 
 import numpy as np
+from functools import reduce
 #from sklearn.metrics.pairwise import pairwise_kernels
 #from numpy.linalg import pinv
 #from functools import reduce
@@ -106,7 +107,7 @@ def score_function_multid_seperate2(X,Z,func_out=False, C=0.001,kern ='RBF',l=1,
         if multil:                
             #res = np.ones((x.shape[0],y.shape[0]))                
             #for ii in range(len(l)): 
-            K_sz = lambda x: np.multiply(np.exp(-cdist(x[:,0].reshape(-1,1), Z[:,0].reshape(-1,1),'sqeuclidean')/(2*l[0]*l[0])),np.exp(-cdist(x[:,1].reshape(-1,1), Z[:,1].reshape(-1,1),'sqeuclidean')/(2*l[1]*l[1])))
+            K_sz = lambda x: reduce(np.multiply, [ np.exp(-cdist(x[:,ii].reshape(-1,1), Z[:,ii].reshape(-1,1),'sqeuclidean')/(2*l[ii]*l[ii])) for ii in range(x.shape[1]) ])
             #return K_sz
         else:
             K_sz = lambda x: np.exp(-cdist(x, Z,'sqeuclidean')/(2*l*l))
-- 
2.43.0


From d8bae70fd3110ca9375a6153118bf225b8d5b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 17/17] fix: the timing message of the reweighted forward flow
 had an argument without a placeholder (logging error at level INFO)

---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index ad195f8..e79c72f 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -442,7 +442,7 @@ class DPFC(object):
                     #print(Tstar)
                     if ti == 3:
                         stop = time.time()
-                        logging.info('Timepoint: %d needed '%ti, stop-start)
+                        logging.info('Timepoint: %d needed %f', ti, stop-start)
                     self.Z[:, :, ti] = ((self.Z[:, :, ti])@Tstar) #####
         logging.info('Forward sampling with Otto is ready!')
         return 0
@@ -1148,7 +1148,7 @@ class torched_DPFC(object):
                     #print(Tstar)
                     if ti == 3:
                         stop = time.time()
-                        logging.info('Timepoint: %d needed '%ti, stop-start)
+                        logging.info('Timepoint: %d needed %f', ti, stop-start)
                     
         logging.info('Forward sampling with Otto is ready!')
         return 0
-- 
2.43.0

