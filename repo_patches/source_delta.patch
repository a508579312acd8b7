From 414c358d5eee2e1a02c7ea17c11d635978515fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 01/16] fix: evaluate the material at the spherical
 dilatational deformation

The dilatational space evaluated the material formulation at I3^(1/3) C instead of
I3^(1/3) 1. The stress depended on the distortional deformation and was not
consistent with the elasticity tensor.
---
 src/hyperelastic/spaces/_dilatational.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_dilatational.py b/src/hyperelastic/spaces/_dilatational.py
index e4c0fe9..b697941 100644
--- a/src/hyperelastic/spaces/_dilatational.py
+++ b/src/hyperelastic/spaces/_dilatational.py
@@ -19,7 +19,7 @@ class Dilatational(Space):
 
         self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
         self.I3 = det(self.C)
-        self.Co = self.I3 ** (1 / 3) * self.C
+        self.Co = self.I3 ** (1 / 3) * eye(self.C)
         dWodCo, statevars_new = self.material.gradient(self.Co, statevars)
 
         self.Sb = 2 * self.I3 ** (1 / 3) * dWodCo
-- 
2.43.0


From a7443f0d619b39573325930acbe95a7bcf6e9b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 02/16] fix: third-invariant term of the invariants-based
 elasticity tensor

d2W/dI3dI3 was added as d2W/dI2dI2 * (dI2/dC x dI2/dC).
---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index b392a47..9642ce8 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -223,7 +223,7 @@ class Invariants:
             d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
 
         if d2WdI3dI3 is not None:
-            d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
+            d2WdCdC = d2WdCdC + d2WdI3dI3 * dya(dI3dC, dI3dC)
 
         if d2WdI1dI2 is not None:
             d2WdCdC = d2WdCdC + d2WdI1dI2 * (dya(dI1dC, dI2dC) + dya(dI2dC, dI1dC))
-- 
2.43.0


From 40e01feb6598b99ff75ad068de33b355f76604c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 03/16] fix: evaluate the hessian of the material at the given
 (old) state variables

The frameworks passed the updated state variables of the gradient to the hessian of
the material, although the elasticity tensor is carried out at the old state.
---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 src/hyperelastic/frameworks/_stretches.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index 9642ce8..8ff22d7 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -186,7 +186,7 @@ class Invariants:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         (
             d2WdI1dI1,
             d2WdI2dI2,
diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 9f4c10c..7280772 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -140,7 +140,7 @@ class Stretches:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         d2Wdλdλ = self.material.hessian(self.λ, statevars)
 
         if not isinstance(d2Wdλdλ, np.ndarray):
-- 
2.43.0


From f5c86880ee945b952b5e7487bcc0a615f10b21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 04/16] fix: third-invariant term of the generalized-invariants
 hessian

The indices of the strains were used instead of the strains in d2I3/dEdE.
---
 src/hyperelastic/models/stretches/_generalized_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/stretches/_generalized_invariants.py b/src/hyperelastic/models/stretches/_generalized_invariants.py
index d63c12b..7d0c110 100644
--- a/src/hyperelastic/models/stretches/_generalized_invariants.py
+++ b/src/hyperelastic/models/stretches/_generalized_invariants.py
@@ -285,7 +285,7 @@ class GeneralizedInvariantsModel:
         dEdλ = self.dEdλ
         d2Edλdλ = self.d2Edλdλ
 
-        Eγ = [2, 0, 1]
+        Eγ = self.E[[2, 0, 1]]
 
         d2WdEαdEβ = np.zeros((6, *dWdλα.shape[1:]))
 
-- 
2.43.0


From ce2366f284ca022dc526a9ebcd3e7ed3d382d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 05/16] fix: do not drop small material elasticity tensors in
 the distortional space

The absolute tolerance of np.allclose() dropped the material part of the elasticity
tensor for small moduli, i.e. the result depended on the chosen system of units.
---
 src/hyperelastic/spaces/_distortional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_distortional.py b/src/hyperelastic/spaces/_distortional.py
index 2cc4928..6eea01b 100644
--- a/src/hyperelastic/spaces/_distortional.py
+++ b/src/hyperelastic/spaces/_distortional.py
@@ -191,7 +191,7 @@ class Distortional(Space):
 
         C4 = 2 / 3 * (self.SbC * I4 - SbinvC - invCSb + self.SbC / 3 * invCinvC)
 
-        if not np.allclose(C4b, 0):
+        if np.any(C4b):
             C4 += ddot(ddot(P4, C4b, mode=(4, 4)), transpose(P4), mode=(4, 4))
 
         return [self.piola(F=F, S=self.S, detF=np.sqrt(self.I3), C4=C4, invC=self.invC)]
-- 
2.43.0


From db1efbd8d34d23973adcf4aac0707acd34d9dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 06/16] fix: broadcast constant stress and elasticity in all
 configurations

A stress or elasticity tensor which does not depend on the deformation was only
broadcasted for the force vector in the deformed configuration. In the undeformed
configuration, the transformation raised a ValueError.
---
 src/hyperelastic/spaces/_space.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/hyperelastic/spaces/_space.py b/src/hyperelastic/spaces/_space.py
index 55ef55b..efdcfb7 100644
--- a/src/hyperelastic/spaces/_space.py
+++ b/src/hyperelastic/spaces/_space.py
@@ -56,15 +56,15 @@ class Space:
             if self.finalize:
                 stress = astensor(stress)
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array stress must be broadcasted
-                    new_shape = np.broadcast_shapes(F.shape, stress.shape)
+                # check if destination array stress must be broadcasted
+                new_shape = np.broadcast_shapes(F.shape, stress.shape)
 
-                    if not np.allclose(new_shape, stress.shape):
-                        # broadcast stress and make a writable contiguous copy
-                        stress = np.broadcast_to(stress, new_shape).copy()
+                if not np.allclose(new_shape, stress.shape):
+                    # broadcast stress and make a writable contiguous copy
+                    stress = np.broadcast_to(stress, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     stress = self.einsum("iI...,IJ...->iJ...", F, stress, out=stress)
 
                 # area --> deformed configuration
@@ -88,15 +88,15 @@ class Space:
                 elasticity = astensor(elasticity, 4)
                 I3 = None
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array elasticity must be broadcasted
-                    new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
+                # check if destination array elasticity must be broadcasted
+                new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
 
-                    if not np.allclose(new_shape, elasticity.shape):
-                        # broadcast elasticity and make a writable contiguous copy
-                        elasticity = np.broadcast_to(elasticity, new_shape).copy()
+                if not np.allclose(new_shape, elasticity.shape):
+                    # broadcast elasticity and make a writable contiguous copy
+                    elasticity = np.broadcast_to(elasticity, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     elasticity = self.einsum(
                         "iI...,kK...,IJKL...->iJkL...", F, F, elasticity, out=elasticity
                     )
-- 
2.43.0


From 2f51faeb8786f07ba7c992e18fb44c086305a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 07/16] fix: coupled invariants in the torch model

The graph was freed by the gradient w.r.t. the first invariant, a strain energy
function with coupled invariants raised a RuntimeError.
---
 src/hyperelastic/models/invariants/_torch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 88aa75c..1ad3486 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -72,7 +72,7 @@ class TorchModel:
         tensor=False,
         numpy=True,
         create_graph=False,
-        retain_graph=False,
+        retain_graph=True,
     ):
         """The gradient as the partial derivative of the strain energy function w.r.t.
         the invariants."""
@@ -93,7 +93,7 @@ class TorchModel:
         )
 
         return [
-            self._grad(f, x, numpy=numpy)
+            self._grad(f, x, numpy=numpy, retain_graph=True)
             for f, x in zip(
                 [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]
             )
-- 
2.43.0


From 7351a30b30e582747ffc10088343b4d796d863e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 08/16] fix: constant derivatives in the torch model

The hessian of a strain energy function with a constant derivative w.r.t. an
invariant (e.g. Neo-Hooke) raised a RuntimeError.
---
 src/hyperelastic/models/invariants/_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 1ad3486..a39c4b0 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -45,7 +45,7 @@ class TorchModel:
         import torch
 
         out = None
-        if hasattr(fun, "grad_fn"):
+        if getattr(fun, "requires_grad", False):
             out = torch.autograd.grad(
                 fun.sum(), x, allow_unused=allow_unused, **kwargs
             )[0]
-- 
2.43.0


From 1f9edf2b4f12e75ec392baf84fa8e552b23e98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 09/16] fix: scalar-valued invariants in the torch model

A single deformation gradient without trailing axes, e.g. the initial variables of
the space, raised a TypeError.
---
 src/hyperelastic/models/invariants/_torch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index a39c4b0..adac11e 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -59,7 +59,8 @@ class TorchModel:
 
         import torch
 
-        tensors = [torch.Tensor(arg) for arg in args]
+        dtype = torch.get_default_dtype()
+        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]
         [tensor.requires_grad_(True) for tensor in tensors]
         return tensors
 
-- 
2.43.0


From c32450e8ecd342b384d1980678c05da6c915eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 10/16] fix: own floating-point copy of the material parameters
 in the optimization

Optimized parameters were truncated for an initial array of integers, a tuple raised
a TypeError and two optimizations with the same array of initial parameters
overwrote the results of each other.
---
 src/hyperelastic/lab/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/lab/_optimize.py b/src/hyperelastic/lab/_optimize.py
index 5751586..fde06eb 100644
--- a/src/hyperelastic/lab/_optimize.py
+++ b/src/hyperelastic/lab/_optimize.py
@@ -156,7 +156,7 @@ class Optimize:
 
         self.experiments = experiments
         self.simulations = simulations
-        self.parameters = parameters
+        self.parameters = np.array(parameters, dtype=float)
         self.mask = mask
 
         if self.mask is None:
-- 
2.43.0


From b2fd150b263f1946448fec1001f473e186c8c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 11/16] fix: array-like displacement and force data of
 experiments

A list raised a TypeError.
---
 src/hyperelastic/lab/_experiment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/lab/_experiment.py b/src/hyperelastic/lab/_experiment.py
index f3cfaa4..718399f 100644
--- a/src/hyperelastic/lab/_experiment.py
+++ b/src/hyperelastic/lab/_experiment.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from ._plotting import LabPlotter
 
 
@@ -68,9 +70,9 @@ class Experiment(LabPlotter):
         self.time = time
         self.temperature = temperature
 
-        self.stretch = 1 + self.displacement / self.length
+        self.stretch = 1 + np.asarray(self.displacement) / self.length
 
     def stress(self):
         "Evaluate the stress as force per undeformed area."
 
-        return self.force / self.area
+        return np.asarray(self.force) / self.area
-- 
2.43.0


From 0c032d0337e581e640053a9117d81f68addc1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 12/16] fix: broadcast constant derivatives w.r.t. the
 principal stretches

Constant values (e.g. from symbolic differentiation) returned by the gradient of the
material were aligned with the last trailing axis instead of the principal stretches.
---
 src/hyperelastic/frameworks/_stretches.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 7280772..45453e8 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -125,8 +125,8 @@ class Stretches:
 
         self.λ, self.M = eigh(C, fun=np.sqrt)
 
-        self.dWdλ, statevars_new = self.material.gradient(self.λ, statevars)
-        self.dWdλ = np.asarray(self.dWdλ)
+        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)
+        self.dWdλ = np.array([np.broadcast_to(dWdλα, self.λ[0].shape) for dWdλα in dWdλ])
 
         self.dWdλC = self.dWdλ / (2 * self.λ)
 
-- 
2.43.0


From 17ec50854b47524a2abebb51a982d1f2f3a7b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 13/16] fix: invariants framework accepts zero hessian entries
 of an invariant whose gradient is absent

---
 src/hyperelastic/frameworks/_invariants.py | 25 ++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index 8ff22d7..a45e0de 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -165,17 +165,19 @@ class Invariants:
         ntrax = len(C.shape[1:])
         dWdC = np.zeros((6, *np.ones(ntrax, dtype=int)))
 
+        # derivatives of the invariants, also used by the hessian
+        self.dI1dC = I
+        self.dI2dC = I1 * I - C
+        self.invC = inv(C, determinant=self.I3)
+        self.dI3dC = I3 * self.invC
+
         if self.dWdI1 is not None:
-            self.dI1dC = I
             dWdC = dWdC + self.dWdI1 * self.dI1dC
 
         if self.dWdI2 is not None:
-            self.dI2dC = I1 * I - C
             dWdC = dWdC + self.dWdI2 * self.dI2dC
 
         if self.dWdI3 is not None:
-            self.invC = invC = inv(C, determinant=self.I3)
-            self.dI3dC = I3 * invC
             dWdC = dWdC + self.dWdI3 * self.dI3dC
 
         return dWdC, statevars_new
@@ -200,19 +202,20 @@ class Invariants:
         ntrax = len(C.shape[1:])
         d2WdCdC = np.zeros((6, 6, *np.ones(ntrax, dtype=int)))
 
-        if self.dWdI1 is not None:
-            dI1dC = self.dI1dC
-            # d2I1dCdC = 0
-            # d2WdCdC = d2WdCdC + self.dWdI1 * d2I1dCdC
+        dI1dC = self.dI1dC
+        dI2dC = self.dI2dC
+        dI3dC = self.dI3dC
+        invC = self.invC
+
+        # if self.dWdI1 is not None:
+        #     d2I1dCdC = 0
+        #     d2WdCdC = d2WdCdC + self.dWdI1 * d2I1dCdC
 
         if self.dWdI2 is not None:
-            dI2dC = self.dI2dC
             d2I2dCdC = dya(I, I) - cdya(I, I)
             d2WdCdC = d2WdCdC + self.dWdI2 * d2I2dCdC
 
         if self.dWdI3 is not None:
-            dI3dC = self.dI3dC
-            invC = self.invC
             d2I3dCdC = self.I3 * (dya(invC, invC) - cdya(invC, invC))
             d2WdCdC = d2WdCdC + self.dWdI3 * d2I3dCdC
 
-- 
2.43.0


From 760f85973714d36d47c094cb3e37f402f7879d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 14/16] fix: detect equal principal stretches independent of
 their magnitude

---
 src/hyperelastic/frameworks/_stretches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 45453e8..6d5780f 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -171,7 +171,7 @@ class Stretches:
 
             if β != α:
                 v = λ[α] ** 2 - λ[β] ** 2
-                mask = np.isclose(v, 0)
+                mask = np.isclose(λ[α] ** 2, λ[β] ** 2, rtol=1e-8, atol=0)
 
                 f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]
                 f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]
-- 
2.43.0


From 323c88c7632e49453e66bb092f592838ef5ec298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:56 +0000
Subject: [PATCH 15/16] fix: dyadic product of batches without points

---
 src/hyperelastic/math/_voigt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index 1c3a940..bbd6c30 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -695,8 +695,8 @@ def dya(A, B, out=None):
     """
 
     return np.multiply(
-        A.reshape(-1, 1, *A.shape[1:]),
-        B.reshape(1, -1, *B.shape[1:]),
+        A.reshape(len(A), 1, *A.shape[1:]),
+        B.reshape(1, len(B), *B.shape[1:]),
         out=out,
     )
 
-- 
2.43.0


From 59014171196f2dc008c288ef517c3d0a2bae70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:21 +0000
Subject: [PATCH 16/16] fix: stretches framework with constant second
 derivatives as one array

---
 src/hyperelastic/frameworks/_stretches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 6d5780f..a592d19 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -143,7 +143,7 @@ class Stretches:
         dWdC, statevars_new = self.gradient(C, statevars)
         d2Wdλdλ = self.material.hessian(self.λ, statevars)
 
-        if not isinstance(d2Wdλdλ, np.ndarray):
+        if getattr(d2Wdλdλ, "shape", None) != (6, *self.λ[0].shape):
             newshape = self.λ[0].shape
             _d2Wdλdλ = np.zeros((6, *self.λ[0].shape))
             for a in range(6):
-- 
2.43.0

