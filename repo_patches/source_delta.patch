From 5c7254e73e558db4b11110378cf0c3fba49dbdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:53 +0000
Subject: [PATCH 01/33] fix: validate every element of positive-valued config
 lists

all(list) > 0.0 compares a boolean with 0.0, so negative layer thicknesses,
source positions and target spectra were accepted.
---
 nidn/utils/validate_config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index de54dc8..4a3e8f1 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -153,7 +153,6 @@ def _check_value_ranges(cfg: DotMap):
         raise RuntimeError(f"TRCWA_L_grid dim0 must be ordered from high to low")
 
     all_positive_list_keys = [
-        "TRCWA_L_grid",
         "PER_LAYER_THICKNESS",
         "FDTD_grid",
         "FDTD_source_position",
@@ -164,10 +163,10 @@ def _check_value_ranges(cfg: DotMap):
     ]
 
     for key in all_positive_list_keys:
-        if key in cfg.keys() and not (all(cfg[key]) > 0.0):
+        if key in cfg.keys() and not all(value > 0.0 for value in cfg[key]):
             raise RuntimeError(f"All elements in {key} must be a positive integer")
     for key in all_positive_or_zero_list_keys:
-        if not (all(cfg[key]) >= 0.0):
+        if not all(value >= 0.0 for value in cfg[key]):
             raise RuntimeError(
                 f"All elements in {key} must be a positive integer or zero"
             )
-- 
2.43.0


From 8f2e62978b82178d7e51ab397bb07b42fd5f18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 02/33] fix: keep the material and frequency axes of the
 epsilon matrix when one has length 1

---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 3054c26..5991026 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -79,7 +79,7 @@ class MaterialCollection:
 
         # Create a single tensor of all materials
         logger.trace("Creating material tensor")
-        self.epsilon_matrix = torch.stack(eps_list).squeeze()  # .cuda()
+        self.epsilon_matrix = torch.stack(eps_list).squeeze(-1)  # .cuda()
         self.N_materials = len(self.material_names)
 
     def _load_material_data(self, name):
-- 
2.43.0


From eaf92352240ef75913a1866b251dada564cf5b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 03/33] fix: offset the imaginary part of epsilon by
 imag_min_eps

---
 nidn/training/model/model_to_eps_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 85da34a..0804ead 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -195,7 +195,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
         # second half imaginary
         eps.imag = out[:, :, :, run_cfg.N_freq :]
-        eps.imag = (eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)).clip(
+        eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
+        eps.imag = (eps.imag + run_cfg.imag_min_eps).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
         )
 
-- 
2.43.0


From b60e9771745def46c279c962ec70b5924a8bd4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 04/33] fix: honour avoid_zero_eps for voxel models and after
 adding noise

---
 nidn/training/model/model_to_eps_grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 0804ead..e8e9b04 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -190,9 +190,6 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
             run_cfg.real_min_eps, run_cfg.real_max_eps
         )
 
-        if run_cfg.avoid_zero_eps:
-            _avoid_zero_eps(eps)
-
         # second half imaginary
         eps.imag = out[:, :, :, run_cfg.N_freq :]
         eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
@@ -217,6 +214,9 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
         eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
 
+    if run_cfg.avoid_zero_eps:
+        _avoid_zero_eps(eps)
+
     return eps
 
 
-- 
2.43.0


From 4fe4bcc0685d1666d580f1896629eec3b2282945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 05/33] fix: take epsilon at each frequency from the model
 output at that frequency

---
 nidn/training/model/model_to_eps_grid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index e8e9b04..ca34ec9 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -163,9 +163,9 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
     else:
 
         # Reshape the output to have a 4D tensor again
-        # Note we ouput real and imaginary parts separatly, hence 2*N_freq
+        # Note we ouput real and imaginary parts separatly for each frequency
         out = out.reshape(
-            Nx_undersampled, Ny_undersampled, run_cfg.N_layers, 2 * run_cfg.N_freq
+            Nx_undersampled, Ny_undersampled, run_cfg.N_layers, run_cfg.N_freq, 2
         )
 
         # Oversample the created eps grid
@@ -179,8 +179,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
 
         # Net out is [0,1] thus we transform to desired real and imaginary ranges
-        # first half contains real entries
-        eps.real = out[:, :, :, 0 : run_cfg.N_freq]
+        # first entry is the real part
+        eps.real = out[..., 0]
 
         # scale up to [0 , (max-min_eps)]
         eps.real = eps.real * (run_cfg.real_max_eps - run_cfg.real_min_eps)
@@ -190,8 +190,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
             run_cfg.real_min_eps, run_cfg.real_max_eps
         )
 
-        # second half imaginary
-        eps.imag = out[:, :, :, run_cfg.N_freq :]
+        # second entry is the imaginary part
+        eps.imag = out[..., 1]
         eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         eps.imag = (eps.imag + run_cfg.imag_min_eps).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
-- 
2.43.0


From aade0bfd8800c5b3992b42a3497774b05628a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:05 +0000
Subject: [PATCH 06/33] fix: NERF output width for networks with three or four
 hidden layers

---
 nidn/training/utils/nerf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nidn/training/utils/nerf.py b/nidn/training/utils/nerf.py
index 0f5ab59..76c5903 100644
--- a/nidn/training/utils/nerf.py
+++ b/nidn/training/utils/nerf.py
@@ -44,6 +44,9 @@ class NERF(nn.Module):
             else:
                 self.net.append(NERFLayer(n_neurons, n_neurons))
 
+        # the skip connection may feed directly into the output layer
+        if hidden_layers in self.skip:
+            n_neurons = n_neurons + in_features
         self.net.append(NERFLayer(n_neurons, out_features, activation=activation))
 
     def forward(self, x):
@@ -56,7 +59,7 @@ class NERF(nn.Module):
         # compute all other layers and apply skip where requested
         for layer_idx in range(1, len(self.net)):
             out = self.net[layer_idx].forward(out)
-            if layer_idx in self.skip:
+            if layer_idx in self.skip and layer_idx < len(self.net) - 1:
                 out = torch.cat([out, identity], dim=1)
 
         return out
-- 
2.43.0


From c028356af877f3ed0f9b9c08d0e82ac5f467c3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:52 +0000
Subject: [PATCH 07/33] fix: renormalize reflectance and transmittance by their
 common sum

---
 nidn/training/losses/spectrum_loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/training/losses/spectrum_loss.py b/nidn/training/losses/spectrum_loss.py
index 8f36ded..2de94f7 100644
--- a/nidn/training/losses/spectrum_loss.py
+++ b/nidn/training/losses/spectrum_loss.py
@@ -47,8 +47,9 @@ def _spectrum_loss_fn(
             logger.warning(
                 f"R+T>1 for freq={freq:.4f}. Renormalizing this point in the loss..."
             )
-            prod_R = prod_R / (prod_R + prod_T)
-            prod_T = prod_T / (prod_R + prod_T)
+            total = prod_R + prod_T
+            prod_R = prod_R / total
+            prod_T = prod_T / total
             renormalized = True
 
         # Accumulate losses
-- 
2.43.0


From 81ac701811f1e3ccde9f24dfdbd04438a62f1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:52 +0000
Subject: [PATCH 08/33] fix: keep a copy of the initial model state to reload
 after a failed iteration

---
 nidn/training/run_training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index c746fbc..60723e5 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -95,7 +95,7 @@ def run_training(
 
     # And store the best results
     best_loss = np.inf
-    run_cfg.best_model_state_dict = run_cfg.model.state_dict()
+    run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
     logger.trace("Starting training...")
     # Training Loop
-- 
2.43.0


From 92c11b29ab3e2db4a729fa93454d16455d357463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:52 +0000
Subject: [PATCH 09/33] fix: an unphysical iteration whose model is not stored
 no longer blocks later best models

---
 nidn/training/run_training.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index 60723e5..4063baf 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -155,14 +155,13 @@ def run_training(
             )
         # We store the model if it has the lowest loss yet
         # (this is to avoid losing good results during a run that goes wild)
-        if loss < best_loss:
+        if loss < best_loss and not renormalized:
             best_loss = loss
             logger.info(
                 f"###  New Best={loss.item():<6.4f} with SpectrumLoss={spectrum_loss:<6.4f} ### L1={L1err.detach().item():.4f}"
             )
-            if not renormalized:
-                logger.debug("Saving model state...")
-                run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
+            logger.debug("Saving model state...")
+            run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
         # Update the loss trend indicators
         weighted_average.append(loss.item())
-- 
2.43.0


From 27e78a6e49751a141b86dade20f7fa05f35b18c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:04 +0000
Subject: [PATCH 10/33] fix: resetting the grid also clears the field history
 of the PML

---
 nidn/fdtd/boundaries.py | 15 +++++++++++++++
 nidn/fdtd/grid.py       |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/nidn/fdtd/boundaries.py b/nidn/fdtd/boundaries.py
index 4e92aa0..6bdcd67 100644
--- a/nidn/fdtd/boundaries.py
+++ b/nidn/fdtd/boundaries.py
@@ -104,6 +104,9 @@ class Boundary:
             this method is called *after* the grid fields are updated
         """
 
+    def reset(self):
+        """Forget the field history (only the PML keeps one)"""
+
     def __repr__(self):
         return f"PML(name={repr(self.name)})"
 
@@ -395,6 +398,18 @@ class PML(Boundary):
             / (self.sigmaH * self.k + self.a * self.k**2)
         )
 
+    def reset(self):
+        """Forget the field history"""
+        for psi in (
+            self.psi_Ex,
+            self.psi_Ey,
+            self.psi_Ez,
+            self.psi_Hx,
+            self.psi_Hy,
+            self.psi_Hz,
+        ):
+            psi *= 0.0
+
     def update_E(self):
         """Update electric field of the grid
 
diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 4bd9001..10fb15c 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -334,6 +334,8 @@ class Grid:
         self.H *= 0.0
         self.E *= 0.0
         self.time_steps_passed *= 0
+        for boundary in self.boundaries:
+            boundary.reset()
 
     def add_source(self, name, source):
         """add a source to the grid"""
-- 
2.43.0


From cb1e1e2e0169affb13c604097fe6b6d6ca782cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:39 +0000
Subject: [PATCH 11/33] fix: a point source can emit a ricker pulse

---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index 6713223..df9ea76 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -112,7 +112,7 @@ class PointSource:
             # By experimental value, the ricker wavelet signal converges to zero after 6 times the grid points per wavelength, so just set the source-signal to zero after this
             t1 = self.grid_points_per_wavelength * 6
             if q < t1:
-                vsrcect = self.amplitude * _ricker(
+                src = self.amplitude * _ricker(
                     q, self.grid_points_per_wavelength, 1, self.courant
                 )
             else:
-- 
2.43.0


From 77eff1de8634e23854031597f5dea84b8982138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:39 +0000
Subject: [PATCH 12/33] fix: a soft point source can be given a name

---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index df9ea76..b061ac1 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -616,7 +616,7 @@ class SoftArbitraryPointSource:
         self.x, self.y, self.z = grid._handle_tuple((x, y, z))
 
         if self.name is not None:
-            detector_name += "_I"
+            detector_name = self.name + "_I"
         else:
             detector_name = None
 
-- 
2.43.0


From ff924129468888160cc298aceebef20fa7af8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:39 +0000
Subject: [PATCH 13/33] fix: refuse a line source of a single cell given by
 index instead of emitting NaN

---
 nidn/fdtd/sources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index b061ac1..5e29cc7 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -246,6 +246,10 @@ class LineSource:
                 raise IndexError(
                     "sources require grid to be indexed with slices or equal length list-indices"
                 )
+            if len(x) < 2:
+                raise ValueError(
+                    "a LineSource should consist of at least two gridpoints"
+                )
             x = [self.grid._handle_distance(_x) for _x in x]
             y = [self.grid._handle_distance(_y) for _y in y]
             z = [self.grid._handle_distance(_z) for _z in z]
-- 
2.43.0


From 3ab95c34f60d22f064a5d7d06daa7faa3a322259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:39 +0000
Subject: [PATCH 14/33] fix: block and current detectors cover exactly the
 cells of their slices

---
 nidn/fdtd/detectors.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/nidn/fdtd/detectors.py b/nidn/fdtd/detectors.py
index f0f9998..a7ef0e4 100644
--- a/nidn/fdtd/detectors.py
+++ b/nidn/fdtd/detectors.py
@@ -218,11 +218,11 @@ class BlockDetector:
         # convert the list-indices to slices.
         # TODO: maybe issue a warning here?
         if isinstance(x, list):
-            x = slice(x[0], x[-1], None)
+            x = slice(x[0], x[-1] + 1, None)
         if isinstance(y, list):
-            y = slice(y[0], y[-1], None)
+            y = slice(y[0], y[-1] + 1, None)
         if isinstance(z, list):
-            z = slice(z[0], z[-1], None)
+            z = slice(z[0], z[-1] + 1, None)
 
         # if we get here, we can assume slices:
         x0 = x.start if x.start is not None else 0
@@ -233,9 +233,9 @@ class BlockDetector:
         z1 = z.stop if z.stop is not None else self.grid.Nz
 
         # we can now convert these coordinates into index lists
-        x = [v.item() for v in bd.arange(x0, x1 + 1)]
-        y = [v.item() for v in bd.arange(y0, y1 + 1)]
-        z = [v.item() for v in bd.arange(z0, z1 + 1)]
+        x = [v.item() for v in bd.arange(x0, x1)]
+        y = [v.item() for v in bd.arange(y0, y1)]
+        z = [v.item() for v in bd.arange(z0, z1)]
         return x, y, z
 
     def detect_E(self):
@@ -378,11 +378,11 @@ class CurrentDetector:
         # convert the list-indices to slices.
         # TODO: maybe issue a warning here?
         if isinstance(x, list):
-            x = slice(x[0], x[-1], None)
+            x = slice(x[0], x[-1] + 1, None)
         if isinstance(y, list):
-            y = slice(y[0], y[-1], None)
+            y = slice(y[0], y[-1] + 1, None)
         if isinstance(z, list):
-            z = slice(z[0], z[-1], None)
+            z = slice(z[0], z[-1] + 1, None)
 
         # if we get here, we can assume slices:
         x0 = x.start if x.start is not None else 0
@@ -393,9 +393,9 @@ class CurrentDetector:
         z1 = z.stop if z.stop is not None else self.grid.Nz
 
         # we can now convert these coordinates into index lists
-        x = [v.item() for v in bd.arange(x0, x1 + 1)]
-        y = [v.item() for v in bd.arange(y0, y1 + 1)]
-        z = [v.item() for v in bd.arange(z0, z1 + 1)]
+        x = [v.item() for v in bd.arange(x0, x1)]
+        y = [v.item() for v in bd.arange(y0, y1)]
+        z = [v.item() for v in bd.arange(z0, z1)]
         return x, y, z
 
     def detect_E(self):
-- 
2.43.0


From e890a4321283f262f29fc1a6bbe05be7f7581778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:39 +0000
Subject: [PATCH 15/33] fix: current detector averages the loop currents of two
 cells

---
 nidn/fdtd/detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/detectors.py b/nidn/fdtd/detectors.py
index a7ef0e4..1b3b5e6 100644
--- a/nidn/fdtd/detectors.py
+++ b/nidn/fdtd/detectors.py
@@ -454,7 +454,7 @@ class CurrentDetector:
             (self.grid.H[px, py - 1, pz - 1, FDTD_X])
             - (self.grid.H[px, py, pz - 1, FDTD_X])
         ) * self.grid.grid_spacing
-        current_vector_2 += (
+        current_vector_2 = (
             (self.grid.H[px, py, pz - 1, FDTD_Y])
             - (self.grid.H[px - 1, py, pz - 1, FDTD_Y])
         ) * self.grid.grid_spacing
-- 
2.43.0


From 2e10b77598aa93040bc0ac34b7cf3b8dfa4d8fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 16/33] fix: a signal of exactly two windows is too short to
 look for its transient

---
 .../calculate_transmission_reflection_coefficients.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
index 723e9d3..db1cdb1 100644
--- a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
+++ b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
@@ -309,7 +309,7 @@ def _eliminate_transient_part(signal, wavelength, cfg, is_freespace=False, plot=
 
     # Check signal is still long enough
     signal_length = len(signal)
-    if signal_length < 2 * window_size:
+    if signal_length <= 2 * window_size:
         logger.error(
             "FDTD Signal is too short to compute R,T,A. Please increase FDTD_niter in the config. Aborting transient removal."
         )
-- 
2.43.0


From 90673177c94b1c04d8d4fcf4eda3dcae03265cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:31 +0000
Subject: [PATCH 17/33] fix: the configuration validation refuses an unknown
 solver

---
 nidn/utils/validate_config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index 4a3e8f1..64bc7d2 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -188,6 +188,9 @@ def _check_value_ranges(cfg: DotMap):
     ):
         raise RuntimeError(f"PER_LAYER_THICKNESS must have length 1 or N_layers")
 
+    if not cfg.solver in ["FDTD", "TRCWA"]:
+        raise RuntimeError(f'The solver must either be "FDTD" or "TRCWA"')
+
     if not (cfg.freq_distribution == "linear" or cfg.freq_distribution == "log"):
         raise RuntimeError(f"freq_distribution must be either 'linear' or 'log'")
 
-- 
2.43.0


From 1b1937e52c0e0ad395b15b9fd9db3b1a4b7e9cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 18/33] fix: only drop Fourier components of epsilon that are
 small in magnitude

---
 nidn/trcwa/utils/fft_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index df91d0b..f77cf00 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -32,7 +32,7 @@ def Epsilon_fft(dN, eps_grid, G):
     # Set very small components to zero for torch
     for i in range(eps2.shape[0]):
         for j in range(eps2.shape[1]):
-            if eps2[i][j].real < 1e-14 and eps2[i][j].imag < 1e-14:
+            if abs(eps2[i][j].real) < 1e-14 and abs(eps2[i][j].imag) < 1e-14:
                 eps2[i][j] = 0 + 0j
 
     return epsinv, eps2
-- 
2.43.0


From bb3111c722e78065d141147c90dde799bfabb00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 19/33] fix: a grid of three pixels along x is not an
 anisotropic permittivity

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 3b25b61..ed537a2 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -227,7 +227,7 @@ class TRCWA:
             Ny = self.GridLayer_Nxy_list[ptri][1]
             dN = 1.0 / Nx / Ny
 
-            if len(ep_all) == 3 and ep_all[0].ndim > 0:
+            if len(ep_all) == 3 and ep_all[0].ndim == 1:
                 ep_grid = [
                     torch.reshape(ep_all[0][ptr : ptr + Nx * Ny], [Nx, Ny]),
                     torch.reshape(ep_all[1][ptr : ptr + Nx * Ny], [Nx, Ny]),
-- 
2.43.0


From a09a60f7cc0bdca3bf65e1b8fc0442647f48d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 20/33] fix: keep the zeroth order when a single order is
 requested

---
 nidn/trcwa/utils/kbloch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index fc7f0dd..8646707 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -135,7 +135,7 @@ def Gsel_circular(nG, Lk1, Lk2):
     for i in range(nGtmp - 1, -1, -1):
         if torch.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-    nG = i
+    nG = max(i, 1)
 
     # final G
     G = torch.zeros((nG, 2), dtype=int)
-- 
2.43.0


From 667e6c25888e59a3712c3d98fcc28a3042f30b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 21/33] fix: use torch.inverse, torch has no inv

---
 nidn/trcwa/trcwa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index ed537a2..d9d7946 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -276,7 +276,7 @@ class TRCWA:
         # patterned layer
         elif self.id_list[i][0] == 1:
             if component == "zz":
-                epk = torch.inv(self.Patterned_epinv_list[self.id_list[i][2]])
+                epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
             elif component == "xx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
             elif component == "xy":
@@ -862,7 +862,7 @@ def SolveInterior(which_layer, a0, bN, q_list, phi_list, kp_list, thickness_list
     )
 
     # tmp = inv(1-S12*pS21)
-    tmp = torch.inv(torch_eye(nG2) - torch_dot(S12, pS21))
+    tmp = torch.inverse(torch_eye(nG2) - torch_dot(S12, pS21))
     # ai = tmp * (S11 a0 + S12 pS22 bN)
     ai = torch_dot(tmp, torch_dot(S11, a0) + torch_dot(S12, torch_dot(pS22, bN)))
     # bi = pS21 ai + pS22 bN
-- 
2.43.0


From fa2900f2a65a96344c390f70728cb6cd84606f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 22/33] fix: isinstance is not part of torch

---
 nidn/trcwa/trcwa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index d9d7946..421696c 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -451,7 +451,7 @@ class TRCWA:
         ai0, bi0 = self.GetAmplitudes_noTranslate(which_layer)
         # ai, bi = self.GetAmplitudes(which_layer,z_offset)
 
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             zl = [z_offset]
         else:
             zl = z_offset
@@ -504,7 +504,7 @@ class TRCWA:
             torch.tensor: Tensor containing the field amplitudes [[Ex,Ey,Ez], [Hx,Hy,Hz]] in Fourier space for each z-offset
         """
 
-        if torch.isinstance(Nxy, type(None)):
+        if Nxy is None:
             Nxy = self.GridLayer_Nxy_list[self.id_list[which_layer][3]]
         Nx = Nxy[0]
         Ny = Nxy[1]
@@ -524,7 +524,7 @@ class TRCWA:
             hy = get_ifft(Nx, Ny, fh[1], self.G)
             hz = get_ifft(Nx, Ny, fh[2], self.G)
             eh.append([[ex, ey, ez], [hx, hy, hz]])
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             eh = eh[0]
         return eh
 
-- 
2.43.0


From 3cea051143de648cc93902fabf3e1c54ef0ff60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 23/33] fix: inverse FFT lives in torch.fft

---
 nidn/trcwa/utils/fft_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index f77cf00..6d5d153 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -83,5 +83,5 @@ def get_ifft(Nx, Ny, s_in, G):
         stmp[x, y] = 1.0
         s0 = s0 + s_in[i] * stmp
 
-    s_out = torch.ifft2(s0) / dN
+    s_out = torch.fft.ifft2(s0) / dN
     return s_out
-- 
2.43.0


From 6a83d0a4930b631d528a533058038a04118a9eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 24/33] fix: stack the vectors of Gmeshgrid

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 421696c..d2a23f9 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -989,6 +989,6 @@ def Gmeshgrid(x):
     qj = []
     for i in range(N):
         qj.append(x)
-    qj = torch.tensor(qj)
+    qj = torch.stack(qj)
     qi = torch_transpose(qj)
     return qi, qj
-- 
2.43.0


From b583d4e1105613389205766deb6244dfa5488bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 25/33] fix: torch_dot accepts scalars as numpy does

---
 nidn/trcwa/utils/torch_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nidn/trcwa/utils/torch_functions.py b/nidn/trcwa/utils/torch_functions.py
index cbd388d..7d17c78 100644
--- a/nidn/trcwa/utils/torch_functions.py
+++ b/nidn/trcwa/utils/torch_functions.py
@@ -71,6 +71,8 @@ def torch_dot(a, b):
         elif b.dtype == torch.cfloat or b.dtype == torch.cdouble:
             a = a.type(b.dtype)
     # to be compatible with numpy broadcasting
+    if len(a.shape) == 0 or len(b.shape) == 0:
+        return a * b
     if len(a.shape) == 2 and len(b.shape) == 1:
         return torch.mv(a, b)
     if len(a.shape) > 1:
-- 
2.43.0


From 079dfa8110d2e53b79f9321dd314cc4a53256830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 26/33] fix: Return_eps mirrored the pattern

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index d2a23f9..49d6942 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -286,7 +286,7 @@ class TRCWA:
             elif component == "yy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
 
-            return get_ifft(Nx, Ny, epk[0, :], self.G)
+            return get_ifft(Nx, Ny, epk[:, 0], self.G)
 
     def RT_Solve(self, normalize=0, byorder=0):
         """
-- 
2.43.0


From 9858237ec9eb133fc04764aa42e40fd2baf77331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:58 +0000
Subject: [PATCH 27/33] fix: keep the pixel axes of a grid that is one pixel
 wide along x

---
 nidn/trcwa/init_trcwa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/trcwa/init_trcwa.py b/nidn/trcwa/init_trcwa.py
index 5a56ddb..fbf38a4 100644
--- a/nidn/trcwa/init_trcwa.py
+++ b/nidn/trcwa/init_trcwa.py
@@ -20,8 +20,9 @@ def _init_trcwa(eps_grid, target_frequency, run_cfg):
     Nx, Ny, N_layers = eps_grid.shape[0:3]
 
     # Squeeze out Nx=1, Ny=1 dimension (for uniform layer)
-    eps_grid = eps_grid.squeeze(0)  # squeeze X
-    eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
+    if Nx == 1 and Ny == 1:
+        eps_grid = eps_grid.squeeze(0)  # squeeze X
+        eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
 
     # Adding a small imaginary part to the frequency to avoid singularities in RCWA
     # See page 2 of arxiv.org/pdf/2005.04840v1.pdf
-- 
2.43.0


From 5f570ccd015ff575359e46c4f1f5ac71edfe0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:58 +0000
Subject: [PATCH 28/33] fix: parallelogramic truncation used functions torch
 does not have

---
 nidn/trcwa/utils/kbloch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index 8646707..bc58798 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -61,13 +61,13 @@ def Gsel_parallelogramic(nG, Lk1, Lk2):
     v = torch.norm(Lk2)
     uv = torch.dot(Lk1, Lk2)
 
-    NGroot = int(torch.sqrt(nG))
-    if torch.mod(NGroot, 2) == 0:
+    NGroot = int(np.sqrt(nG))
+    if NGroot % 2 == 0:
         NGroot -= 1
 
     M = NGroot // 2
 
-    xG = range(-M, NGroot - M)
+    xG = torch.arange(-M, NGroot - M)
     G1, G2 = torch.meshgrid(xG, xG, indexing="ij")
     G1 = G1.flatten()
     G2 = G2.flatten()
-- 
2.43.0


From 86a39eafef1330304c3cb70cb7ef2c60528811c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:27 +0000
Subject: [PATCH 29/33] fix: Volume_integral paired the amplitudes with the
 conjugate phases

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 49d6942..02d721d 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -568,7 +568,7 @@ class TRCWA:
 
         Mt = Matrix_zintegral(q, self.thickness_list[which_layer])
         # overall
-        abM = abMatrix * Mt
+        abM = abMatrix * torch_transpose(Mt)
 
         # F matrix
         Faxy = torch_dot(torch_dot(kp, phi), torch.diag(1.0 / self.omega / q))
-- 
2.43.0


From db19ff9235c4b769a8a583a4feedb6bc8130bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:45 +0000
Subject: [PATCH 30/33] fix: the permittivities along x and y were exchanged in
 anisotropic layers

---
 nidn/trcwa/trcwa.py          | 4 ++--
 nidn/trcwa/utils/fft_funs.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 02d721d..7eda7d4 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -278,13 +278,13 @@ class TRCWA:
             if component == "zz":
                 epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
             elif component == "xx":
-                epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
+                epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
             elif component == "xy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, self.nG :]
             elif component == "yx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, : self.nG]
             elif component == "yy":
-                epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
+                epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
 
             return get_ifft(Nx, Ny, epk[:, 0], self.G)
 
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index 6d5d153..2d830dc 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -15,8 +15,9 @@ def Epsilon_fft(dN, eps_grid, G):
         epsz_fft = get_conv(dN, eps_grid[2], G)
         epsinv = torch.inverse(epsz_fft)
 
-        tmp1 = torch.vstack((epsx_fft, torch.zeros_like(epsx_fft)))
-        tmp2 = torch.vstack((torch.zeros_like(epsx_fft), epsy_fft))
+        # eps2 acts on (-Ey, Ex)
+        tmp1 = torch.vstack((epsy_fft, torch.zeros_like(epsy_fft)))
+        tmp2 = torch.vstack((torch.zeros_like(epsy_fft), epsx_fft))
         eps2 = torch.hstack((tmp1, tmp2))
 
     elif eps_grid[0].ndim == 1:
-- 
2.43.0


From 594340975b058ae3125460668229067cad837503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:18 +0000
Subject: [PATCH 31/33] fix: keep regression training with noise differentiable

---
 nidn/training/model/model_to_eps_grid.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index ca34ec9..2ddafc0 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -199,20 +199,23 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
     # Adds noise scaled to desired eps range times noise_scale
     if run_cfg.add_noise:
-        eps.real += (
+        noisy_real = eps.real + (
             (torch.randn_like(eps.real) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.real_max_eps - run_cfg.real_min_eps)
         )
-        eps.real = eps.real.clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
-        eps.imag += (
+        noisy_imag = eps.imag + (
             (torch.randn_like(eps.imag) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         )
-        eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
+        # A new tensor, as autograd still needs the values before clipping
+        eps = torch.complex(
+            noisy_real.clip(run_cfg.real_min_eps, run_cfg.real_max_eps),
+            noisy_imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps),
+        )
 
     if run_cfg.avoid_zero_eps:
         _avoid_zero_eps(eps)
-- 
2.43.0


From 0871222eeb3f7bddfdb96563486299ba938dd4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 32/33] fix: keep the gradient of a pattern given as a flat
 vector

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 7eda7d4..f2c8789 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -237,7 +237,7 @@ class TRCWA:
                 ep_grid = ep_all[:, :, i - 1]
             else:
                 ep_grid = torch.reshape(
-                    torch.tensor(ep_all[ptr : ptr + Nx * Ny]), [Nx, Ny]
+                    torch.as_tensor(ep_all[ptr : ptr + Nx * Ny]), [Nx, Ny]
                 )
 
             epinv, ep2 = Epsilon_fft(dN, ep_grid, self.G)
-- 
2.43.0


From 4e0dcc033401e424a80d814166457d6a77300b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:44 +0000
Subject: [PATCH 33/33] fix: plot all frequencies when a run has fewer than
 four

---
 nidn/plots/plot_model_grid_per_freq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nidn/plots/plot_model_grid_per_freq.py b/nidn/plots/plot_model_grid_per_freq.py
index 41041b2..6ca660c 100644
--- a/nidn/plots/plot_model_grid_per_freq.py
+++ b/nidn/plots/plot_model_grid_per_freq.py
@@ -5,18 +5,21 @@ from ..utils.convert_units import freq_to_wl
 from ..training.model.model_to_eps_grid import model_to_eps_grid
 
 
-def plot_model_grid_per_freq(run_cfg, freq_idx=[0, 1, 2, 3], save_path=None):
+def plot_model_grid_per_freq(run_cfg, freq_idx=None, save_path=None):
     """Plots the real and imaginary part of the permittivity in two separate plots for
     frequencies in target_frequencies defined by freq_idx. Optionally saves it.
 
     Args:
         run_cfg (dict): The run configuration.
-        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to [0, 1, 2, 3].
+        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to None, then the first four (or all, if fewer) are plotted.
         save_path (str, optional): Folder to save the plot in. Defaults to None, then the plot will not be saved.
     """
     Nx, Ny, N_layers = run_cfg.Nx, run_cfg.Ny, run_cfg.N_layers
     eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
 
+    if freq_idx is None:
+        freq_idx = list(range(min(4, eps.shape[3])))
+
     x = torch.linspace(-1, 1, Nx)
     y = torch.linspace(-1, 1, Ny)
     z = torch.linspace(-1, 1, N_layers)
-- 
2.43.0

