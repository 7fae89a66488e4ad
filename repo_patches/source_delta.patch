From 322acf6385159a37480cf4b92766e27faeb2d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 01/50] fix: return_dict efficiencies no longer overwrite the
 order index

The shallow copies of the order index shared their inner dictionaries, so R
was returned with the values of T and every later order lookup was corrupted.
---
 nannos/simulation.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 6c6f856..b697ec3 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -480,14 +480,10 @@ class Simulation:
                 R = bk.sum(R)
                 T = bk.sum(T)
         if return_dict and orders:
-            Rdict = self.harmidx_dict.copy()
-            Tdict = self.harmidx_dict.copy()
-            for i1, i2 in self.harmonics.T:
-                i1 = int(i1)
-                i2 = int(i2)
-                idx = self.harmidx_dict[i1][i2]
-                Rdict[i1][i2] = R[idx]
-                Tdict[i1][i2] = T[idx]
+            Rdict, Tdict = {}, {}
+            for i1, row in self.harmidx_dict.items():
+                Rdict[i1] = {i2: R[idx] for i2, idx in row.items()}
+                Tdict[i1] = {i2: T[idx] for i2, idx in row.items()}
             return Rdict, Tdict
         return R, T
 
-- 
2.43.0


From 6f896b63c8519e8f9f88d573cc89e8f9dda585f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 02/50] fix: complex diffraction orders do not depend on the
 layer names

The outer layers were looked up as "Substrate" and "Superstrate": any other
name raised a ValueError, and an inner layer with such a name was used instead.
---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index b697ec3..da465de 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -504,8 +504,8 @@ class Simulation:
         norma_t = (norma_t2.real) ** 0.5
         norma_r = (norma_r2.real) ** 0.5
 
-        t = self.get_field_fourier("Substrate")[0, 0] * norma_t
-        bx0 = self.get_field_fourier("Superstrate")[0, 0] * norma_r
+        t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
+        bx0 = self.get_field_fourier(0)[0, 0] * norma_r
         o0 = bk.array(bk.zeros(self.nh))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
-- 
2.43.0


From dbe9afb5d3c66c76a0f7bacff69df923a9024086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 03/50] fix: circular truncation ranks harmonics by their
 actual length

The rows of the reciprocal matrix were used as reciprocal vectors and the
length of the first one was used for both indices, so the truncation was not
circular unless both periods were equal and orthogonal.
---
 nannos/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 25f14c6..4d1cd85 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -318,6 +318,8 @@ def _parallelogramic_truncation(nh, Lk):
 
 
 def _circular_truncation(nh, Lk):
+    # the reciprocal lattice vectors are the columns of the reciprocal matrix
+    Lk = Lk.T
     u = bk.array([bk.linalg.norm(value) for value in Lk])
     udot = bk.dot(Lk[0], Lk[1])
     ucross = bk.array(Lk[0][0] * Lk[1][1] - Lk[0][1] * Lk[1][0])
@@ -338,7 +340,7 @@ def _circular_truncation(nh, Lk):
     G = [g.flatten() for g in G]
 
     Gl2 = bk.array(
-        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     )
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
-- 
2.43.0


From 60fe6e6b4f2636c2a2146e86e804047ac8b00a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 04/50] fix: negative layer indices count from the end of the
 stack

The layer was found but its index was kept negative, so that amplitudes in
any layer but the last one could not be computed.
---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 4e3df96..40a5828 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -303,7 +303,7 @@ def _get_layer(id, layers, layer_names):
             if l.name == id:
                 return l, i
     elif isinstance(id, int):
-        return layers[id], id
+        return layers[id], range(len(layers))[id]
     elif hasattr(id, "name"):
         return _get_layer(id.name, layers, layer_names)
     else:
-- 
2.43.0


From aa14c09ed69874cc56cd921acac4aeef36726e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 05/50] fix: the scattering matrix of an empty range of layers
 is the identity

It raised an UnboundLocalError.
---
 nannos/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index da465de..94993d8 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -250,6 +250,7 @@ class Simulation:
             stack = range(indices[0], indices[1])
             logger.info(f"Computing S-matrix for indices {indices}")
 
+        S = [[S11, S12], [S21, S22]]
         try:
             S = self._intermediate_S[f"{stack[0]},{stack[-1]}"]
         except Exception:
-- 
2.43.0


From a611550554f81551c5f878e7804829dd29cd695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 06/50] fix: default grid of the fields in uniform layers

Without an explicit shape, the field on a grid could not be computed in a
uniform layer nor in an anisotropic one.
---
 nannos/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 94993d8..8610ac8 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -376,7 +376,12 @@ class Simulation:
         layer, layer_index = self.get_layer(layer_index)
         _t0 = timer.tic()
         logger.info("Retrieving fields in real-space for layer {layer}")
-        shape = shape or layer.epsilon.shape
+        if shape is None:
+            shape = (
+                self.lattice.discretization
+                if layer.is_uniform
+                else tuple(layer.epsilon.shape[-2:])
+            )
 
         fields_fourier = self.get_field_fourier(layer_index, z)
 
-- 
2.43.0


From 38d540a573e2b9690c91305300c3cf3b1dfbd405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 07/50] fix: the point returned on reaching the stop value is
 the one that reached it

The previous evaluation point was returned with the last value, and if the
first evaluation already reached the stop value an AttributeError was raised.
---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index d02b4dd..83f5759 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -71,9 +71,9 @@ class StopFun:
 
     def fun(self, x, *args):
         self.f = self.fun_in(x, *args)
+        self.x = x
         if self.stopval is not None and self.f < self.stopval:
             raise StopFunError("Stop value reached.")
-        self.x = x
         return self.f
 
 
-- 
2.43.0


From 1f486c89f4d0d46199223484d39be23199fdd5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 08/50] fix: switching the backend keeps the log level

The package reload reset the verbosity to WARNING.
---
 nannos/log.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nannos/log.py b/nannos/log.py
index 314f933..a994b6b 100644
--- a/nannos/log.py
+++ b/nannos/log.py
@@ -51,4 +51,6 @@ def set_log_level(level):
     logger.addHandler(stream)
 
 
-set_log_level("WARNING")
+# keep the level already set by the user if the module is reloaded
+if "logger" not in globals():
+    set_log_level("WARNING")
-- 
2.43.0


From 7552d8c2d0d4f2d31dfb3f3bb2af52002f3df95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 09/50] fix: plane waves keep the selected precision with the
 torch backend

Arrays were built from lists of tensors without a dtype: torch rounded the wave
vector and the amplitudes to single precision whatever the precision in use.
---
 nannos/excitation.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nannos/excitation.py b/nannos/excitation.py
index 485dc57..e1e310c 100644
--- a/nannos/excitation.py
+++ b/nannos/excitation.py
@@ -46,7 +46,8 @@ class PlaneWave:
                 bk.sin(self.theta) * bk.cos(self.phi),
                 bk.sin(self.theta) * bk.sin(self.phi),
                 bk.cos(self.theta),
-            ]
+            ],
+            dtype=FLOAT,
         )
 
         cpsi = bk.cos(self.psi)  # p
@@ -59,15 +60,17 @@ class PlaneWave:
         cy = cpsi * bk.cos(self.theta) * bk.sin(self.phi) + spsi * bk.cos(self.phi)
         cz = -cpsi * bk.sin(self.theta)
 
-        self.amplitude = bk.array([cx, cy, cz])
+        self.amplitude = bk.array([cx, cy, cz], dtype=FLOAT)
 
         kt = self.wavevector
         omega = k0
-        K = bk.array([[kt[1] ** 2, -kt[0] * kt[1]], [-kt[0] * kt[1], kt[0] ** 2]])
-        Q = omega**2 * bk.array(bk.eye(2)) - K
+        K = bk.array(
+            [[kt[1] ** 2, -kt[0] * kt[1]], [-kt[0] * kt[1], kt[0] ** 2]], dtype=FLOAT
+        )
+        Q = omega**2 * bk.array(bk.eye(2), dtype=FLOAT) - K
         q = (omega**2 - kt[0] ** 2 - kt[1] ** 2) ** 0.5
         C = bk.linalg.inv(Q) * (omega * q)
-        et = bk.array([-self.amplitude[1], self.amplitude[0]])
+        et = bk.array([-self.amplitude[1], self.amplitude[0]], dtype=FLOAT)
         self.a0 = C @ et
         # self.a0 = -self.amplitude[1], self.amplitude[0]
         # self.a0 = self.amplitude[0], self.amplitude[1]
-- 
2.43.0


From 47049f2a738e1cbca8ce9b171e03272384d5bcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 10/50] fix: copied layers are solved wherever they are in the
 stack

A copy always took the matrices of its original: this failed for uniform layers
and when the original was missing or below in the stack, and it silently
ignored a permittivity set on the copy.
---
 nannos/layers.py     |  2 +-
 nannos/simulation.py | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 40a5828..1dcb1ea 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -187,7 +187,7 @@ class Layer:
             `(q,psi)`, with eigenvalues `q` and eigenvectors `psi`.
 
         """
-        if self.iscopy:
+        if self.iscopy and matrix is getattr(self.original, "matrix", None):
             self.eigenvalues, self.eigenvectors = (
                 self.original.eigenvalues,
                 self.original.eigenvectors,
diff --git a/nannos/simulation.py b/nannos/simulation.py
index 8610ac8..81795a2 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -587,11 +587,28 @@ class Simulation:
         delta = self.harmonics[:, jx] - self.harmonics[:, jy]
         return uft[delta[0], delta[1]]
 
+    def _shares_eigenproblem(self, layer, layer_index):
+        """Check if a copied layer can reuse the eigenmodes of its original.
+
+        The original must be located above the copy in the same stack and the
+        patterns must still be the same.
+        """
+        original = layer.original
+        return (
+            layer.iscopy
+            and not layer.is_uniform
+            and any(other is original for other in self.layers[:layer_index])
+            and all(
+                getattr(layer, attr) is getattr(original, attr)
+                for attr in ["epsilon", "mu", "tangent_field", "tangent_field_type"]
+            )
+        )
+
     def build_matrix(self, layer):
         _t0 = timer.tic()
         layer, layer_index = self.get_layer(layer)
         logger.info(f"Building matrix for layer {layer}")
-        if layer.iscopy:
+        if self._shares_eigenproblem(layer, layer_index):
             layer.matrix = layer.original.matrix
             layer.Kmu = layer.original.Kmu
             layer.eps_hat = layer.original.eps_hat
-- 
2.43.0


From 9100e69794710551c472fa0d1bc08e5c45544efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 11/50] fix: simulations sharing layers do not use each other's
 solution

The eigenmodes are stored in the layers: solving a second simulation with the
same layers made the first one compute wrong efficiencies and fields.
---
 nannos/simulation.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 81795a2..96eb530 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -149,9 +149,9 @@ class Simulation:
         self.bN = bk.array(bk.zeros(2 * self.nh, dtype=COMPLEX))
         self.index_zeroth_order = index_zeroth_order
 
-        # This is a boolean checking that the eigenproblems are solved for all layers
+        # This identifies the solution stored in the layers, see is_solved
         # TODO: This is to avoid solving again, but could be confusing
-        self.is_solved = False
+        self._solution = None
         # dictionary to store intermediate S-matrices
         # TODO: check memory consumption of doing that, maybe make it optional.
         self._intermediate_S = {}
@@ -176,12 +176,26 @@ class Simulation:
     def get_layer_by_name(self, id):
         return self.get_layer(id)[0]
 
+    @property
+    def is_solved(self):
+        """Check if the eigenproblems are solved for all layers.
+
+        The solution is stored in the layers, so solving another simulation that
+        uses one of them discards it.
+        """
+        return self._solution is not None and all(
+            getattr(layer, "_solution", None) is self._solution
+            for layer in self.layers
+        )
+
     def solve(self):
         """Solve the grating problem."""
         _t0 = timer.tic()
         logger.info("Solving")
         layers_solved = []
+        solution = object()
         for layer in self.layers:
+            layer._solution = None
             _t0lay = timer.tic()
             logger.info(f"Computing eigenpairs for layer {layer}")
             layer = self.build_matrix(layer)
@@ -201,8 +215,10 @@ class Simulation:
             logger.info(
                 f"Done computing eigenpairs for layer {layer} in {_t1lay:0.3e}s"
             )
+        for layer in layers_solved:
+            layer._solution = solution
         self.layers = layers_solved
-        self.is_solved = True
+        self._solution = solution
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(f"Done solving in {_t1:0.3e}s")
 
@@ -211,7 +227,7 @@ class Simulation:
             _reseter(self, "S")
             self._intermediate_S = {}
         if param == "solve":
-            self.is_solved = False
+            self._solution = None
         if param == "all":
             self.reset("S")
             self.reset("solve")
-- 
2.43.0


From 433460d8a3d1b7b9d6cb0d3ee5a83e8153ca7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 12/50] fix: the in-plane axes of anisotropic permittivities
 are not swapped

The transverse field is ordered as (-Ey, Ex) but the tensor was used in the order
(x, y): a wave polarized along x was affected by the yy component.
---
 nannos/simulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 96eb530..f1d8ce1 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -681,7 +681,9 @@ class Simulation:
                 mu_hat_inv = _inv(mu_hat)
 
             if layer.is_epsilon_anisotropic:
-                eps_para_hat = self._get_toeplitz_matrix(epsilon, transverse=True)
+                eps_para_hat = _rotate_tensor(
+                    self._get_toeplitz_matrix(epsilon, transverse=True)
+                )
             else:
                 eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, eps_hat]]
 
@@ -811,7 +813,7 @@ class Simulation:
             # nu = _inv(epsilon[2,2])
             nu1 = bk.array(block2list(nu, N))
             nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
-            nuhat_inv = block2list(_inv(block(nuhat)), self.nh)
+            nuhat_inv = _rotate_tensor(block2list(_inv(block(nuhat)), self.nh))
 
         else:
             N = epsilon.shape[0]
@@ -887,6 +889,11 @@ class Simulation:
         return plot_structure(self, plotter, nper, dz, null_thickness, **kwargs)
 
 
+def _rotate_tensor(u):
+    # transverse fields are ordered as (-Ey, Ex)
+    return [[u[1][1], -u[1][0]], [-u[0][1], u[0][0]]]
+
+
 def phasor(q, z):
     return bk.exp(1j * q * z)
 
-- 
2.43.0


From 7c1830aaffa2a509480d8fa80f176694c2d17575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 13/50] fix: torch arrays honour the requested number type

Tensors given to array() kept their type, so single precision identity matrices
spoiled plane waves and double precision patterns failed in single precision.
---
 nannos/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 8f46675..2862356 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -281,7 +281,7 @@ elif "_TORCH" in globals():
 
         def _array(a, **kwargs):
             if isinstance(a, backend.Tensor):
-                return a.to(torch.device(DEVICE))
+                return a.to(torch.device(DEVICE), dtype=kwargs.get("dtype"))
             else:
                 return backend.tensor(a, **kwargs).to(torch.device(DEVICE))
 
-- 
2.43.0


From 52115a3992a46b936b0b1523fda6f184fb3a7bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 14/50] fix: lattice grids in single precision with the torch
 backend

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 4d1cd85..f3bddbc 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -187,7 +187,7 @@ class Lattice:
 
         """
         if get_backend() == "torch":
-            return bk.tensordot(self.matrix, grid.double(), dims=([1], [0]))
+            return bk.tensordot(self.matrix, grid.to(FLOAT), dims=([1], [0]))
         else:
             return bk.tensordot(self.matrix, grid, axes=(1, 0))
 
-- 
2.43.0


From 7d74ccd56e2178ff0609b9198c27f425b3538fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 15/50] fix: tangent fields on any discretization

---
 nannos/formulations/tangent.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 6c9fd60..d4143f0 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -104,13 +104,11 @@ def _get_tangent_field_min(
     grid = bk.abs(grid)
     grid = grid / bk.max(grid)
     Nx, Ny = grid.shape
-    Nx_ds = min(2**6, Nx)
-    Ny_ds = min(2**6, Ny)
-    # Nx_ds = min(int(Nx/2**3), Nx)
-    # Ny_ds = min(int(Nx/2**3), Ny)
-
-    downsample_x = int(Nx / Nx_ds)
-    downsample_y = int(Ny / Ny_ds)
+    downsample_x = int(Nx / min(2**6, Nx))
+    downsample_y = int(Ny / min(2**6, Ny))
+    # number of points kept by the downsampling
+    Nx_ds = len(range(0, Nx, downsample_x))
+    Ny_ds = len(range(0, Ny, downsample_y))
     shape_small = (Nx_ds, Ny_ds)
 
     xi = npg.linspace(0, 1, Nx)
@@ -172,8 +170,8 @@ def _get_tangent_field_min(
     def minifun(x):
         coefx = x[:nh] + 1j * x[nh : 2 * nh]
         coefy = x[2 * nh : 3 * nh] + 1j * x[3 * nh :]
-        ax = _get_amps(coefx, (Nx_ds, Nx_ds))
-        ay = _get_amps(coefy, (Ny_ds, Ny_ds))
+        ax = _get_amps(coefx, shape_small)
+        ay = _get_amps(coefy, shape_small)
         da = npg.real(npg.array([ax, ay]))
         obj = npg.mean(npg.abs(da - dgrid_f_downspl) ** 2)
         ### smoothness
@@ -198,8 +196,8 @@ def _get_tangent_field_min(
     coefx = xopt[:nh] + 1j * xopt[nh : 2 * nh]
     coefy = xopt[2 * nh : 3 * nh] + 1j * xopt[3 * nh :]
 
-    ax = _get_amps(coefx, (Nx_ds, Nx_ds))
-    ay = _get_amps(coefy, (Ny_ds, Ny_ds))
+    ax = _get_amps(coefx, shape_small)
+    ay = _get_amps(coefy, shape_small)
 
     # points_dsx = xi[::downsample_x]
     # points_dsy = yi[::downsample_y]
-- 
2.43.0


From b9ade4ea8cb5ad5f8959fcae35516429a389471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 16/50] fix: anisotropic layers on non-square grids with the
 normal vector formulations

---
 nannos/simulation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index f1d8ce1..b321f40 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -808,10 +808,15 @@ class Simulation:
         epsilon = layer.epsilon
         if layer.is_epsilon_anisotropic:
             N = epsilon.shape[2]
-            eb = block(epsilon[:2, :2])
-            nu = inv2by2block(eb, N)
-            # nu = _inv(epsilon[2,2])
-            nu1 = bk.array(block2list(nu, N))
+            # pointwise inverse of the in-plane part, on a grid of any shape
+            e = epsilon[:2, :2]
+            det = e[0, 0] * e[1, 1] - e[1, 0] * e[0, 1]
+            nu1 = bk.stack(
+                [
+                    bk.stack([e[1, 1] / det, -e[0, 1] / det]),
+                    bk.stack([-e[1, 0] / det, e[0, 0] / det]),
+                ]
+            )
             nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
             nuhat_inv = _rotate_tensor(block2list(_inv(block(nuhat)), self.nh))
 
-- 
2.43.0


From 8d84d5686bb32e7fcabf2afc4a77f3485ac1bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 17/50] fix: negative orders count in the check of the
 discretization

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index b321f40..fa06bc7 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -95,7 +95,7 @@ class Simulation:
                 idict[i1] = {i2: j}
         self.harmidx_dict = idict
         # Check if nh and resolution satisfy Nyquist criteria
-        maxN = bk.max(self.harmonics)
+        maxN = bk.max(bk.abs(bk.array(self.harmonics)))
         if self.lattice.discretization[0] <= 2 * maxN or (
             self.lattice.discretization[1] <= 2 * maxN and not self.lattice.is_1D
         ):
-- 
2.43.0


From 67c46108efbee5d2b7066c4a558f3861755aa2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:47 +0000
Subject: [PATCH 18/50] fix: explicit harmonics are accepted by every backend

---
 nannos/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index f3bddbc..11d76fc 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -123,8 +123,8 @@ class Lattice:
 
     def _get_harmonics(self, nh):
         if self.harmonics_array is not None:
-            nh = bk.shape(self.harmonics_array)[1]
-            return self.harmonics_array, nh
+            harmonics = bk.array(self.harmonics_array)
+            return harmonics, harmonics.shape[1]
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
         if self.truncation == "circular":
-- 
2.43.0


From 883db3d6cc1bdc4bcbe9beb34c17749848643ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 19/50] fix: the circular truncation always keeps the zeroth
 order

---
 nannos/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 11d76fc..b2d4ae5 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -354,7 +354,8 @@ def _circular_truncation(nh, Lk):
     for i in bk.arange(nGtmp - 1, -1, -1):
         if bk.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-    nh = i
+    # the zeroth order is always kept
+    nh = max(int(i), 1)
 
     G = bk.vstack(Gsorted)[:, :nh]
 
-- 
2.43.0


From 0d2df992caa696ffc19751ed149da91bae20aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 20/50] fix: dictionaries of complex orders hold the
 coefficients of each order

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index fa06bc7..1dfde8c 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -504,8 +504,8 @@ class Simulation:
         if return_dict and orders:
             Rdict, Tdict = {}, {}
             for i1, row in self.harmidx_dict.items():
-                Rdict[i1] = {i2: R[idx] for i2, idx in row.items()}
-                Tdict[i1] = {i2: T[idx] for i2, idx in row.items()}
+                Rdict[i1] = {i2: R[..., idx] for i2, idx in row.items()}
+                Tdict[i1] = {i2: T[..., idx] for i2, idx in row.items()}
             return Rdict, Tdict
         return R, T
 
-- 
2.43.0


From 77beb83d12b124a638fb53b485375a21f9591105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 21/50] fix: the direction of propagating modes is not set by
 round-off

---
 nannos/layers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 1dcb1ea..d619b1a 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -208,7 +208,9 @@ class Layer:
             else:
                 w, v = eig_func(matrix)
             q = w**0.5
-            q = bk.where(bk.imag(q) < 0.0, -q, q)
+            # decaying modes, the sign of round-off in propagating ones is meaningless
+            tol = bk.finfo(FLOAT).eps ** 0.5
+            q = bk.where(bk.imag(q) < -tol * bk.abs(q), -q, q)
             self.eigenvalues, self.eigenvectors = q, v
         return self.eigenvalues, self.eigenvectors
 
-- 
2.43.0


From dcc165f1b93f547cfc9cc043221f3ef0331c6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 22/50] fix: the adaptive sampler pairs unsorted or repeated
 initial points with their values

---
 nannos/sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/sample.py b/nannos/sample.py
index 212b904..423c2f2 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -102,6 +102,8 @@ def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
                     new_x.append(x_new)
         return np.unique(new_x)
 
+    # the rule of refinement needs the points sorted and distinct
+    x = np.unique(np.array(x))
     y = _function_adapted(x)
     if hasattr(y[0], "__len__") and len(y[0]) > 0:
         y_monitor = [_[0] for _ in y]
-- 
2.43.0


From 75d5f64bf93ea8d8df5ea2d8c7bb797de139be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 23/50] fix: the scipy optimizer works with torch objectives

---
 nannos/optimize.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 83f5759..9e06f16 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -150,7 +150,16 @@ class TopologyOptimizer:
                     if self.callback is not None:
                         self.callback(x, y, *args)
                     self.current_iteration += 1
-                    return y
+                    return float(y)
+
+                def jac_scipy(x, *args):
+                    dy = self.grad_fun(x, *args)
+                    dy = (
+                        dy.cpu()
+                        if (get_backend() == "torch" and DEVICE == "cuda")
+                        else dy
+                    )
+                    return npo.array(dy, dtype=npo.float64)
 
                 bounds = [(0, 1) for _ in range(self.nvar)]
                 options = {"maxiter": self.maxiter}
@@ -164,7 +173,7 @@ class TopologyOptimizer:
                         x0,
                         args=args,
                         method="L-BFGS-B",
-                        jac=self.grad_fun,
+                        jac=jac_scipy,
                         bounds=bounds,
                         options=options,
                     )
-- 
2.43.0


From 2ed9ee2b4efb2c8a1484196963e806127e472e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 24/50] fix: the topology optimizer runs without extra
 arguments

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 9e06f16..0f30a23 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -137,7 +137,7 @@ class TopologyOptimizer:
             self.print("-----------------------")
 
             proj_level = 2**iopt
-            args = list(self.args)
+            args = list(self.args or [None])
             args[0] = proj_level
             args = tuple(args)
             if self.method == "scipy":
-- 
2.43.0


From 0c021da506ecff8787e35ea950f3230c0f085d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 25/50] fix: density filter of odd grids shifted by one pixel

---
 nannos/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index b89ff55..69295e6 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -158,7 +158,7 @@ def _apply_filter(x, rfilt, vectors=None):
     # convolve
     img2_ft = kernel_ft * img_ft
     out = bk.real(inverse_fourier_transform(img2_ft, axes=(0, 1)))
-    return bk.fft.fftshift(out) * (Nx * Ny)
+    return bk.fft.ifftshift(out) * (Nx * Ny)
 
 
 apply_filter = jit(_apply_filter, static_argnums=(1))
-- 
2.43.0


From c53e1957e0ff8effdae82a41e77d8b4947775e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 26/50] fix: density filter with zero radius in one direction,
 single-point grids and wide kernels

---
 nannos/utils/helpers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index 69295e6..2c8738c 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -132,6 +132,14 @@ def _reseter(prop, attr=None):
         pass
 
 
+def _bump(t, radius):
+    n = len(t)
+    if radius == 0:  # no filtering in this direction
+        return bk.array([1.0 if i == n // 2 else 0.0 for i in range(n)], dtype=FLOAT)
+    bump = bk.exp(-(t**2) / radius**2)
+    return bump / bk.sum(bump)  # normalize the sum to 1
+
+
 def _apply_filter(x, rfilt, vectors=None):
     if is_scalar(rfilt):
         rfilt = (rfilt, rfilt)
@@ -147,10 +155,8 @@ def _apply_filter(x, rfilt, vectors=None):
     else:
         tx = bk.array(bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx))
         ty = bk.array(bk.linspace(-0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny))
-    bumpx = bk.exp(-(tx**2) / rfilt[0] ** 2)
-    bumpx /= bk.trapz(bumpx)  # normalize the integral to 1
-    bumpy = bk.exp(-(ty**2) / rfilt[1] ** 2)
-    bumpy /= bk.trapz(bumpy)  # normalize the integral to 1
+    bumpx = _bump(tx, rfilt[0])
+    bumpy = _bump(ty, rfilt[1])
     # make a 2-D kernel out of it
     kernel = bumpx[:, None] * bumpy[None, :]
     kernel_ft = fourier_transform(kernel, s=x.shape[:2], axes=(0, 1))
-- 
2.43.0


From bdf463cda0bf953ded216f1a7963873c0aa12c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 27/50] fix: reject diffraction orders that are not pairs

---
 nannos/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 1dfde8c..9a6fd74 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -576,7 +576,7 @@ class Simulation:
 
     def get_order_index(self, order):
         try:
-            len(order) == 2
+            is_pair = len(order) == 2
         except Exception as e:
             if self.lattice.is_1D and isinstance(order, int):
                 order = (order, 0)
@@ -584,6 +584,9 @@ class Simulation:
                 raise ValueError(
                     "order must be a tuple of integers length 2 for bi-periodic gratings"
                 ) from e
+        else:
+            if not is_pair:
+                raise ValueError("order must be a tuple of integers length 2")
         # return [
         #     k for k, i in enumerate(self.harmonics.T) if bk.allclose(i, bk.array(order))
         # ][0]
-- 
2.43.0


From 927a6ce24b5ab93be6a3c4fca11300e7bb696abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 28/50] fix: uniform anisotropic layers fail with the intended
 exception

---
 nannos/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 9a6fd74..4a9677e 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -642,6 +642,9 @@ class Simulation:
         mu = layer.mu
         epsilon = layer.epsilon
         if layer.is_uniform:
+            if layer.is_mu_anisotropic or layer.is_epsilon_anisotropic:
+                # TODO: anisotropic uniform layer
+                raise NotImplementedError("Uniform layer material must be isotropic")
             # if layer.is_epsilon_anisotropic:
             #     _epsilon = block(
             #         [
-- 
2.43.0


From e7ab16b8c9541b0ffbba65eb236aee1e362779dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 29/50] fix: multi_simp uses double precision with torch

---
 nannos/optimize.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 0f30a23..d41a6ca 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -40,18 +40,22 @@ def multi_project(x, beta=1, Nthres=2):
 
 
 def multi_simp(x, epsilons, p=1):
-    epsilons = bk.array(epsilons) + 0j
+    # torch would use single precision for lists
+    dtype = COMPLEX if get_backend() == "torch" else None
+    epsilons = bk.array(epsilons, dtype=dtype) + 0j
     nthres = len(epsilons)
     npts = nthres
     if nthres == 2:
         return simp(x, epsilons[0], epsilons[1], p)
-    pts = bk.linspace(0, 1, npts)
+    pts = bk.linspace(0, 1, npts, dtype=FLOAT)
 
     def pol(coefs, x):
         return sum(c * x ** (n * p) for n, c in enumerate(coefs))
 
     def mat(pts):
-        return bk.array([[_x ** (n * p) + 0j for n in range(npts)] for _x in pts])
+        return bk.array(
+            [[_x ** (n * p) + 0j for n in range(npts)] for _x in pts], dtype=COMPLEX
+        )
 
     M = mat(pts)
     coefs = bk.linalg.inv(M) @ epsilons
-- 
2.43.0


From 0680f51c44733299b87f6398de6f93ae0a6d71f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 30/50] fix: tangent formulation with anisotropic patterns on
 mono-periodic lattices

---
 nannos/simulation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 4a9677e..a0c67e6 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -705,7 +705,13 @@ class Simulation:
             elif self.formulation == "tangent":
                 if self.lattice.is_1D:
                     N, nuhat_inv = self._get_nu_hat_inv(layer)
-                    eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, nuhat_inv]]
+                    if layer.is_epsilon_anisotropic:
+                        eps_para_hat = [
+                            [eps_para_hat[0][0], nuhat_inv[0][1]],
+                            [eps_para_hat[1][0], nuhat_inv[1][1]],
+                        ]
+                    else:
+                        eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, nuhat_inv]]
                     Peps = block(eps_para_hat)
                 else:
                     t = layer.get_tangent_field(harmonics_tan, normalize=True)
-- 
2.43.0


From 5d239d02e683a687e1b716632f1378dcbb763f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 31/50] fix: single precision of the tangent formulations with
 torch

---
 nannos/formulations/tangent.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index d4143f0..e711e5b 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -10,9 +10,12 @@ from scipy.interpolate import RegularGridInterpolator
 from scipy.optimize import minimize
 
 from .. import backend as bk
+from .. import get_types
 from ..utils import apply_filter, norm
 from .fft import fourier_transform, inverse_fourier_transform
 
+FLOAT, COMPLEX = get_types()
+
 
 def _normalize(x, n, invalid=0, threshold=0.0):
     with npo.errstate(invalid="ignore"):
@@ -212,14 +215,14 @@ def _get_tangent_field_min(
     ax = interpx(points).T
     ay = interpy(points).T
 
-    t = bk.real(bk.stack([bk.array(ay), -bk.array(ax)]))
+    t = bk.real(bk.stack([bk.array(ay, dtype=COMPLEX), -bk.array(ax, dtype=COMPLEX)]))
 
     if normalize:
         try:
             t1 = t.detach().cpu().numpy()
         except Exception:
             t1 = t
-        norm_t = bk.array(norm(t1))
+        norm_t = bk.array(norm(t1), dtype=FLOAT)
         t = _normalize_vec(t, norm_t)
     else:
         # t *= norm_dgrid_f
-- 
2.43.0


From 6086d610ec052cba2cf53b273111efc25bf6dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 32/50] fix: harmonics tied in length are kept together in
 single precision

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index b2d4ae5..5fd1824 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -350,7 +350,7 @@ def _circular_truncation(nh, Lk):
     if nh < nGtmp:
         nGtmp = nh
 
-    tol = 1e-10 * max(u[0] ** 2, u[1] ** 2)
+    tol = (1e-10 if FLOAT == bk.float64 else 1e-5) * max(u[0] ** 2, u[1] ** 2)
     for i in bk.arange(nGtmp - 1, -1, -1):
         if bk.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-- 
2.43.0


From 9e9c6f0448bff8150e450d01781f0719bc747f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 33/50] fix: complex coefficients of evanescent orders are zero
 whatever the rounding

---
 nannos/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index a0c67e6..e977bfc 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -523,8 +523,9 @@ class Simulation:
         norma_t2 = nin**2 * (gamma_out / gamma_in0)
         norma_r2 = nin**2 * (gamma_in / gamma_in0)
 
-        norma_t = (norma_t2.real) ** 0.5
-        norma_r = (norma_r2.real) ** 0.5
+        # vanishes for evanescent orders, but rounding may make it negative
+        norma_t = bk.abs(norma_t2.real) ** 0.5
+        norma_r = bk.abs(norma_r2.real) ** 0.5
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-- 
2.43.0


From b0a522d482cf9991f9773362fba37b8b2c882159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 34/50] fix: gradient of complex coefficients of evanescent
 orders is finite

---
 nannos/simulation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index e977bfc..8096abd 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -523,9 +523,14 @@ class Simulation:
         norma_t2 = nin**2 * (gamma_out / gamma_in0)
         norma_r2 = nin**2 * (gamma_in / gamma_in0)
 
-        # vanishes for evanescent orders, but rounding may make it negative
-        norma_t = bk.abs(norma_t2.real) ** 0.5
-        norma_r = bk.abs(norma_r2.real) ** 0.5
+        def _sqrt(x):
+            # vanishes for evanescent orders, but rounding may make x negative
+            # (and the derivative of the square root is infinite at zero)
+            x = bk.real(x)
+            return bk.where(x > 0, bk.where(x > 0, x, 1.0) ** 0.5, 0.0)
+
+        norma_t = _sqrt(norma_t2)
+        norma_r = _sqrt(norma_r2)
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-- 
2.43.0


From 3e94ce35bb1dcaf5ce6823636a49a1de0763f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 35/50] fix: gradients with autograd of functions of real
 parameters are real

---
 nannos/__init__.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 2862356..a97fed5 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -233,9 +233,29 @@ if "_SCIPY" in globals():
     grad = _grad
     backend = numpy
 elif "_AUTOGRAD" in globals():
-    from autograd import grad, numpy
+    from autograd import grad as _autograd_grad
+    from autograd import numpy
 
     backend = numpy
+
+    def _real_as(g, x):
+        # autograd does not drop the imaginary part of the gradient when real
+        # parameters have been converted to complex arrays
+        if isinstance(g, (tuple, list)):
+            return type(g)(_real_as(gi, xi) for gi, xi in zip(g, x))
+        if isinstance(g, dict):
+            return {k: _real_as(gi, x[k]) for k, gi in g.items()}
+        if numpy.iscomplexobj(g) and not numpy.iscomplexobj(x):
+            return numpy.real(g)
+        return g
+
+    def grad(f, argnum=0):
+        def df(*args, **kwargs):
+            x = [args[i] for i in argnum] if isinstance(argnum, (tuple, list)) else args[argnum]
+            return _real_as(_autograd_grad(f, argnum)(*args, **kwargs), x)
+
+        return df
+
 elif "_JAX" in globals():
     if HAS_JAX:
         import jax
-- 
2.43.0


From a99b388930b322eb4991c22e8e80349423cb7218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 36/50] fix: real permittivities with a negative zero imaginary
 part have decaying waves

---
 nannos/layers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index d619b1a..d46f5e4 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -163,7 +163,8 @@ class Layer:
 
         q = (
             bk.array(
-                _epsilon * _mu * omega**2 - kx**2 - ky**2,
+                # adding 0j clears negative zeros (decaying evanescent waves)
+                _epsilon * _mu * omega**2 - kx**2 - ky**2 + 0j,
                 dtype=COMPLEX,
             )
             ** 0.5
-- 
2.43.0


From dde9224c8b4b3807a6497dcd431959ed6801bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 37/50] fix: the tangent, pol and jones formulations average
 the field along the interfaces

The projector on the normal direction was built with its two components
exchanged, so that bi-periodic layers got the inverse rule for the
component of the field along the tangent field.
---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 8096abd..cdd5c33 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -891,7 +891,7 @@ class Simulation:
             Pxy_hat = self._get_toeplitz_matrix(Pxy)
             Pyx_hat = self._get_toeplitz_matrix(Pyx)
 
-            Pi = block([[Pyy_hat, Pyx_hat], [Pxy_hat, Pxx_hat]])
+            Pi = block([[Pxx_hat, Pyx_hat], [Pxy_hat, Pyy_hat]])
 
             # Delta = epsilon - 1 / epsilon
             # Delta_hat = self._get_toeplitz_matrix(Delta)
-- 
2.43.0


From d12aa5d64c7a6b0ecd32fa26d1b9a8fd8513a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 38/50] fix: computed tangent fields follow the interfaces on
 any lattice

The gradient of the permittivity was taken along the lattice vectors in
steps of the grid and used as its cartesian components.
---
 nannos/formulations/tangent.py | 31 +++++++++++++++++++++++--------
 nannos/layers.py               |  1 +
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index e711e5b..319c747 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -29,23 +29,30 @@ def _normalize_vec(V, n, threshold=1e-6):
     return [Vx, Vy]
 
 
+def _gradient(grid, steps):
+    """Gradient in cartesian coordinates, for steps of the grid of unit area."""
+    g = bk.gradient(grid)
+    inv = bk.linalg.inv(steps) * bk.abs(bk.linalg.det(steps)) ** 0.5
+    return [inv[0, i] * g[0] + inv[1, i] * g[1] for i in range(2)]
+
+
 def _ft_filt(x, expo):
     with npo.errstate(divide="ignore"):
         f = 1 / (x**expo)
     return bk.array(bk.where(x == 0.0, 0.0 * x, f))
 
 
-def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
+def _get_tangent_field_fft(grid, steps, normalize=False, rfilt=4, expo=0.5):
     Nx, Ny = grid.shape
 
     grid = bk.hstack([grid, grid, grid])
     grid = bk.vstack([grid, grid, grid])
 
     xf = apply_filter(grid, rfilt)
-    v = bk.gradient(grid)
-    vf = bk.gradient(xf)
+    v = _gradient(grid, steps)
+    vf = _gradient(xf, steps)
     norma = norm(v)
-    N = [bk.array(v[i]) * bk.abs(vf[i]) for i in range(2)]
+    N = [bk.array(v[i]) * bk.abs(norm(vf)) for i in range(2)]
     N = [_normalize(N[i], norma) for i in range(2)]
     fx = bk.fft.fftfreq(3 * Nx)
     fy = bk.fft.fftfreq(3 * Ny)
@@ -69,6 +76,7 @@ def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
 def _get_tangent_field_min(
     grid,
     harmonics,
+    steps,
     normalize=False,
     rfilt=0,
     opt_backend="autograd",
@@ -130,7 +138,7 @@ def _get_tangent_field_min(
     # xf = apply_filter(grid, rfilt=rfilt)
     xf = grid
 
-    dgrid = bk.stack(bk.gradient(xf))
+    dgrid = bk.stack(_gradient(xf, steps))
     dgrid_fx = apply_filter(dgrid[0], rfilt=rfilt)
     dgrid_fy = apply_filter(dgrid[1], rfilt=rfilt)
     dgrid_f = bk.stack([dgrid_fx, dgrid_fy])
@@ -231,11 +239,18 @@ def _get_tangent_field_min(
     return t
 
 
-def get_tangent_field(grid, harmonics, normalize=False, rfilt=4, type="opt", **kwargs):
+def get_tangent_field(
+    grid, harmonics, normalize=False, rfilt=4, type="opt", matrix=None, **kwargs
+):
+    # columns are the vectors between neighboring points of the grid
+    steps = bk.array(bk.eye(2) if matrix is None else matrix, dtype=FLOAT)
+    steps = steps / bk.array([float(n) for n in grid.shape], dtype=FLOAT)
     if type == "fft":
-        return _get_tangent_field_fft(grid, normalize, rfilt=rfilt, **kwargs)
+        return _get_tangent_field_fft(grid, steps, normalize, rfilt=rfilt, **kwargs)
     elif type == "opt":
-        return _get_tangent_field_min(grid, harmonics, normalize, rfilt=rfilt, **kwargs)
+        return _get_tangent_field_min(
+            grid, harmonics, steps, normalize, rfilt=rfilt, **kwargs
+        )
     else:
         raise ValueError(
             f"Wrong type of tangent field {type}. Please choose 'fft' or 'opt'"
diff --git a/nannos/layers.py b/nannos/layers.py
index d46f5e4..f94bf3f 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -274,6 +274,7 @@ class Layer:
             harmonics,
             normalize=normalize,
             type=self.tangent_field_type,
+            matrix=getattr(self.lattice, "matrix", None),
         )
 
     def get_jones_field(self, t):
-- 
2.43.0


From 8de8ab4c3c203791de95c095f6e6d9d1635ef7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 39/50] fix: get_tangent_field computes the type of field asked
 for

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index f94bf3f..deb5d57 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -273,7 +273,7 @@ class Layer:
             epsilon_zz,
             harmonics,
             normalize=normalize,
-            type=self.tangent_field_type,
+            type=type,
             matrix=getattr(self.lattice, "matrix", None),
         )
 
-- 
2.43.0


From f14e215a4e691acc2ed52466e3eb77dde4053633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 40/50] fix: stress integrals use the in-plane permittivity of
 anisotropic layers

---
 nannos/simulation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index cdd5c33..9b5c950 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -557,10 +557,7 @@ class Simulation:
         else:
             exy = bk.hstack((-ey, ex))
 
-            # FIXME: anisotropy here?
-            # dxy = layer.eps_hat @ exy
-            _eps_hat = block([[layer.eps_hat, self.ZeroG], [self.ZeroG, layer.eps_hat]])
-            dxy = _eps_hat @ exy
+            dxy = layer.Peps @ exy
             dx = dxy[self.nh :]
             dy = -dxy[: self.nh]
 
-- 
2.43.0


From b61cefa9334a3ca57cf0602ffe7bb54bc86ccc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:19 +0000
Subject: [PATCH 41/50] fix: structures are plotted with current pyvista and
 all backends

---
 nannos/plot.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index 3dcb6bb..32895ae 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -8,6 +8,7 @@
 
 import matplotlib.pyplot as plt
 import matplotlib.transforms as mtransforms
+import numpy as np
 
 from . import backend as bk
 from . import get_types, pyvista
@@ -99,10 +100,10 @@ def plot_structure(
 
     p = plotter or pyvista.Plotter()
     name = r"permittivity (Re)"
-    null_thickness = null_thickness or bk.max([layer.thickness for layer in sim.layers])
+    null_thickness = null_thickness or max(layer.thickness for layer in sim.layers)
     bvs = sim.lattice.basis_vectors
 
-    transform_matrix = bk.array(
+    transform_matrix = np.array(
         [
             [bvs[0][0], bvs[1][0], 0, 0],
             [bvs[0][1], bvs[1][1], 0, 0],
@@ -116,9 +117,9 @@ def plot_structure(
             x0, y0 = jx, jy
 
             for ilayer, layer in enumerate(sim.layers):
-                thickness = layer.thickness
+                thickness = float(layer.thickness)
                 if thickness == 0:
-                    thickness = null_thickness
+                    thickness = float(null_thickness)
                     # if float(layer.epsilon.real) != 1:
                     #     thickness = null_thickness
                 if layer.is_uniform:
@@ -136,9 +137,9 @@ def plot_structure(
                             thickness,
                         )  # These are the cell sizes along each axis
                         val = layer.epsilon.real
-                        grid.cell_data[name] = bk.array(val)
+                        grid.cell_data[name] = np.array(val)
                         mesh = grid.extract_surface()
-                        mesh = mesh.transform(transform_matrix)
+                        mesh = mesh.transform(transform_matrix, inplace=False)
                         if layer_colors is not None:
                             kwargs["color"] = layer_colors[ilayer]
                         if layer_metallic is not None:
@@ -177,7 +178,7 @@ def plot_structure(
                                 [v - 1e-7 * abs(v), v + 1e-7 * abs(v)]
                             )
 
-                            threshed = threshed.transform(transform_matrix)
+                            threshed = threshed.transform(transform_matrix, inplace=False)
 
                             if layer_colors is not None:
                                 kwargs["color"] = layer_colors[ilayer][ival]
-- 
2.43.0


From ad6fa8ebd09ab5bacdc7c6a44aee5ddbd7834722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 42/50] fix: patterns on grids that are not square are plotted
 at their place

---
 nannos/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index 32895ae..8aacfb7 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -167,7 +167,7 @@ def plot_structure(
                     values = epsgrid[:, :, None]
                     # Create the spatial reference
                     grid = pyvista.ImageData()
-                    grid.dimensions = bk.array(values.shape) + 1
+                    grid.dimensions = (Nx + 1, Ny + 1, 2)
                     grid.origin = (x0, y0, z)  # The bottom left corner of the data set
                     grid.spacing = (1 / Nx, 1 / Ny, thickness)
                     grid.cell_data[name] = values.flatten()  # Flatten the array!
-- 
2.43.0


From 5cedd53322e6cd49e48ace9cad73a4dbc9a49f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 43/50] fix: area of bi-periodic lattices with torch and jax

The cross product of tuples is only accepted by numpy.
---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 5fd1824..53fa932 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -73,7 +73,7 @@ class Lattice:
         if self.is_1D:
             return self.basis_vectors[0][0]
         v = self.basis_vectors
-        return bk.linalg.norm(bk.cross(v[0], v[1]))
+        return abs(v[0][0] * v[1][1] - v[0][1] * v[1][0])
 
     @property
     def matrix(self):
-- 
2.43.0


From 2011b5ca86ee1b4796fc6fdec039652a16dac598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 44/50] fix: Lattice.transform accepts a tuple of arrays with
 torch and jax

The grid is documented as a tuple of arrays, as meshgrid returns.
---
 nannos/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 53fa932..7bba397 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -186,6 +186,8 @@ class Lattice:
             Transformed grid in lattice vectors basis.
 
         """
+        if isinstance(grid, (tuple, list)):
+            grid = bk.stack(list(grid))
         if get_backend() == "torch":
             return bk.tensordot(self.matrix, grid.to(FLOAT), dims=([1], [0]))
         else:
-- 
2.43.0


From cb4e172c761ba219047092fc2615bb1cff2d0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 45/50] fix: numbers given as zero-dimensional arrays are
 scalars

---
 nannos/simulation.py    | 4 ++--
 nannos/utils/helpers.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 9b5c950..c9e25b8 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -12,7 +12,7 @@ from . import get_types, jit, logger
 from .formulations import fft
 from .layers import _get_layer
 from .plot import plot_structure, pyvista
-from .utils import block, block2list, get_block, inv2by2block, norm, set_index
+from .utils import block, block2list, get_block, inv2by2block, is_scalar, norm, set_index
 from .utils import time as timer
 from .utils import unique
 from .utils.helpers import _reseter
@@ -321,7 +321,7 @@ class Simulation:
         if not self.is_solved:
             self.solve()
         ai0, bi0 = self._get_amplitudes(layer_index, translate=False)
-        Z = z if hasattr(z, "__len__") else [z]
+        Z = [z] if is_scalar(z) else z
         fields = bk.zeros((len(Z), 2, 3, self.nh), dtype=COMPLEX)
         for iz, z_ in enumerate(Z):
             ai, bi = _translate_amplitudes(layer, z_, ai0, bi0)
diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index 2c8738c..12d986a 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -49,7 +49,8 @@ def unique(x):
 
 
 def is_scalar(x):
-    return not hasattr(x, "__len__")
+    # numbers, including those given as zero-dimensional arrays
+    return not hasattr(x, "__len__") or getattr(x, "shape", None) == ()
 
 
 def is_anisotropic(x):
-- 
2.43.0


From d51e12522e0b5a7ec016ab9febbbf61caba5656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 46/50] fix: the adaptive sampler works with jax and with
 zero-dimensional answers

---
 nannos/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nannos/sample.py b/nannos/sample.py
index 423c2f2..b739ffc 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -8,7 +8,8 @@
 
 __all__ = ["adaptive_sampler"]
 
-from . import numpy as np
+import numpy as np
+
 from .parallel import parloop
 
 
@@ -105,7 +106,7 @@ def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
     # the rule of refinement needs the points sorted and distinct
     x = np.unique(np.array(x))
     y = _function_adapted(x)
-    if hasattr(y[0], "__len__") and len(y[0]) > 0:
+    if np.ndim(y[0]) > 0:
         y_monitor = [_[0] for _ in y]
         multi_output = True
     else:
-- 
2.43.0


From f56ae087cfceec50767ef15cb8aade52cbb8d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 47/50] fix: mirrored NumPy patterns are accepted with torch

---
 nannos/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index a97fed5..9b41bea 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -303,6 +303,8 @@ elif "_TORCH" in globals():
             if isinstance(a, backend.Tensor):
                 return a.to(torch.device(DEVICE), dtype=kwargs.get("dtype"))
             else:
+                if isinstance(a, numpy.ndarray):
+                    a = a.copy()  # negative strides are not supported
                 return backend.tensor(a, **kwargs).to(torch.device(DEVICE))
 
         backend.array = _array
-- 
2.43.0


From 8d7cd8b9afebae3bf8733e894e81ee00785edb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:11 +0000
Subject: [PATCH 48/50] fix: areas of lattices given in narrow integers

---
 nannos/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 7bba397..df8a21f 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -72,7 +72,8 @@ class Lattice:
     def area(self):
         if self.is_1D:
             return self.basis_vectors[0][0]
-        v = self.basis_vectors
+        # products may not fit in the type of the vectors
+        v = self.matrix
         return abs(v[0][0] * v[1][1] - v[0][1] * v[1][0])
 
     @property
-- 
2.43.0


From dadcd1ebf674033f6b4cbd5af8814482b208e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:11 +0000
Subject: [PATCH 49/50] fix: numbers of harmonics given in narrow integer types

---
 nannos/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index df8a21f..9314baf 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -128,6 +128,8 @@ class Lattice:
             return harmonics, harmonics.shape[1]
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
+        # narrow integer types cannot hold what is computed from it
+        nh = int(nh)
         if self.truncation == "circular":
             return _circular_truncation(nh, self.reciprocal)
         elif self.truncation == "parallelogrammic":
-- 
2.43.0


From baa983636aa25b3a11fcb3fee17688d5a2edbbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:11 +0000
Subject: [PATCH 50/50] fix: depths given in unsigned integers

---
 nannos/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index c9e25b8..bd74f45 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -983,6 +983,8 @@ def _build_Imatrix(layer1, layer2):
 
 
 def _translate_amplitudes(layer, z, ai, bi):
+    # depths in integers may be unsigned
+    z = 1.0 * z
     q = layer.eigenvalues
     aim = ai * phasor(q, z)
     bim = bi * phasor(q, layer.thickness - z)
-- 
2.43.0

