From 4e0b13f4e51e635480e25a79864d62f54ffac1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 01/30] fix: renormalize R and T in the spectrum loss by the
 same total

prod_R was overwritten before prod_T was divided by R+T, so the renormalized pair did not sum to 1.
---
 nidn/training/losses/spectrum_loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/training/losses/spectrum_loss.py b/nidn/training/losses/spectrum_loss.py
index 8f36ded..2de94f7 100644
--- a/nidn/training/losses/spectrum_loss.py
+++ b/nidn/training/losses/spectrum_loss.py
@@ -47,8 +47,9 @@ def _spectrum_loss_fn(
             logger.warning(
                 f"R+T>1 for freq={freq:.4f}. Renormalizing this point in the loss..."
             )
-            prod_R = prod_R / (prod_R + prod_T)
-            prod_T = prod_T / (prod_R + prod_T)
+            total = prod_R + prod_T
+            prod_R = prod_R / total
+            prod_T = prod_T / total
             renormalized = True
 
         # Accumulate losses
-- 
2.43.0


From d052610831a777d14aaac31b47a6e1bc40168ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 02/30] fix: keep a copy of the initial model state as fallback

state_dict() references the live parameters, so the initial "best" state followed every optimizer step and a NaN model was reloaded as itself.
---
 nidn/training/run_training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index c746fbc..60723e5 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -95,7 +95,7 @@ def run_training(
 
     # And store the best results
     best_loss = np.inf
-    run_cfg.best_model_state_dict = run_cfg.model.state_dict()
+    run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
     logger.trace("Starting training...")
     # Training Loop
-- 
2.43.0


From fdf39cfc04339ee6451da178e6161fdede55bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 03/30] fix: do not let unstored renormalized iterations raise
 the best-loss bar

An iteration with R+T>1 is not stored, but it updated best_loss, so later physical iterations that were better than the stored one were dropped.
---
 nidn/training/run_training.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index 60723e5..1d20f2a 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -155,14 +155,14 @@ def run_training(
             )
         # We store the model if it has the lowest loss yet
         # (this is to avoid losing good results during a run that goes wild)
-        if loss < best_loss:
+        # Unphysical (renormalized) spectra are never stored and hence must not raise the bar
+        if loss < best_loss and not renormalized:
             best_loss = loss
             logger.info(
                 f"###  New Best={loss.item():<6.4f} with SpectrumLoss={spectrum_loss:<6.4f} ### L1={L1err.detach().item():.4f}"
             )
-            if not renormalized:
-                logger.debug("Saving model state...")
-                run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
+            logger.debug("Saving model state...")
+            run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
         # Update the loss trend indicators
         weighted_average.append(loss.item())
-- 
2.43.0


From 57c08294b85e6a1f0dea751fac039fde5a0ca3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 04/30] fix: reject negative thicknesses, source positions and
 target spectra

all(list) > 0.0 compares a bool, so negative entries passed the validation. TRCWA_L_grid is nested, may contain zeros and has its own ordering checks.
---
 nidn/utils/validate_config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index de54dc8..4a3e8f1 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -153,7 +153,6 @@ def _check_value_ranges(cfg: DotMap):
         raise RuntimeError(f"TRCWA_L_grid dim0 must be ordered from high to low")
 
     all_positive_list_keys = [
-        "TRCWA_L_grid",
         "PER_LAYER_THICKNESS",
         "FDTD_grid",
         "FDTD_source_position",
@@ -164,10 +163,10 @@ def _check_value_ranges(cfg: DotMap):
     ]
 
     for key in all_positive_list_keys:
-        if key in cfg.keys() and not (all(cfg[key]) > 0.0):
+        if key in cfg.keys() and not all(value > 0.0 for value in cfg[key]):
             raise RuntimeError(f"All elements in {key} must be a positive integer")
     for key in all_positive_or_zero_list_keys:
-        if not (all(cfg[key]) >= 0.0):
+        if not all(value >= 0.0 for value in cfg[key]):
             raise RuntimeError(
                 f"All elements in {key} must be a positive integer or zero"
             )
-- 
2.43.0


From 6b1ecdcb5b839db40089021b83b692d2bd472200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 05/30] fix: only drop negligible Fourier coefficients of the
 permittivity

The sign was ignored, so every coefficient with negative real and imaginary part was set to zero.
---
 nidn/trcwa/utils/fft_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index df91d0b..a984845 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -32,7 +32,7 @@ def Epsilon_fft(dN, eps_grid, G):
     # Set very small components to zero for torch
     for i in range(eps2.shape[0]):
         for j in range(eps2.shape[1]):
-            if eps2[i][j].real < 1e-14 and eps2[i][j].imag < 1e-14:
+            if eps2[i][j].abs() < 1e-14:
                 eps2[i][j] = 0 + 0j
 
     return epsinv, eps2
-- 
2.43.0


From 3d7866d6fa867d1d7fa47d51fd4b65dd6743b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 06/30] fix: patterned layers with Nx=3 or Nx=1 in RCWA

A grid with Nx=3 was mistaken for an anisotropic epsilon list, and one with Nx=1, Ny>1 lost its first dimension.
---
 nidn/trcwa/init_trcwa.py | 5 +++--
 nidn/trcwa/trcwa.py      | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/nidn/trcwa/init_trcwa.py b/nidn/trcwa/init_trcwa.py
index 5a56ddb..fbf38a4 100644
--- a/nidn/trcwa/init_trcwa.py
+++ b/nidn/trcwa/init_trcwa.py
@@ -20,8 +20,9 @@ def _init_trcwa(eps_grid, target_frequency, run_cfg):
     Nx, Ny, N_layers = eps_grid.shape[0:3]
 
     # Squeeze out Nx=1, Ny=1 dimension (for uniform layer)
-    eps_grid = eps_grid.squeeze(0)  # squeeze X
-    eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
+    if Nx == 1 and Ny == 1:
+        eps_grid = eps_grid.squeeze(0)  # squeeze X
+        eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
 
     # Adding a small imaginary part to the frequency to avoid singularities in RCWA
     # See page 2 of arxiv.org/pdf/2005.04840v1.pdf
diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 3b25b61..82718c9 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -227,14 +227,14 @@ class TRCWA:
             Ny = self.GridLayer_Nxy_list[ptri][1]
             dN = 1.0 / Nx / Ny
 
-            if len(ep_all) == 3 and ep_all[0].ndim > 0:
+            if torch.is_tensor(ep_all) and ep_all.ndim == 3:
+                ep_grid = ep_all[:, :, i - 1]
+            elif len(ep_all) == 3 and ep_all[0].ndim > 0:
                 ep_grid = [
                     torch.reshape(ep_all[0][ptr : ptr + Nx * Ny], [Nx, Ny]),
                     torch.reshape(ep_all[1][ptr : ptr + Nx * Ny], [Nx, Ny]),
                     torch.reshape(ep_all[2][ptr : ptr + Nx * Ny], [Nx, Ny]),
                 ]
-            elif len(ep_all.shape) == 3:
-                ep_grid = ep_all[:, :, i - 1]
             else:
                 ep_grid = torch.reshape(
                     torch.tensor(ep_all[ptr : ptr + Nx * Ny]), [Nx, Ny]
-- 
2.43.0


From 2a415ddb11aa2923946fbe8f4332b1af5e77d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 07/30] fix: keep the frequency dimension of the material
 tensor for a single frequency

squeeze() also removed the frequency (or material) dimension when it had length 1, which made classification grids have the wrong shape.
---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 3054c26..5991026 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -79,7 +79,7 @@ class MaterialCollection:
 
         # Create a single tensor of all materials
         logger.trace("Creating material tensor")
-        self.epsilon_matrix = torch.stack(eps_list).squeeze()  # .cuda()
+        self.epsilon_matrix = torch.stack(eps_list).squeeze(-1)  # .cuda()
         self.N_materials = len(self.material_names)
 
     def _load_material_data(self, name):
-- 
2.43.0


From 105a54acfe35c6667a2950fcff9d3a23e8b8b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:40 +0000
Subject: [PATCH 08/30] fix: load materials in a defined order

glob returns files in file system order, so material indices (and seeded trainings) differed between machines.
---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 5991026..0b951e3 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -57,7 +57,7 @@ class MaterialCollection:
         logger.trace(f"Loading materials from folder: {self.materials_folder}")
 
         # Load materials data
-        files = glob(self.materials_folder + "/*.csv")
+        files = sorted(glob(self.materials_folder + "/*.csv"))
         logger.debug("Found the following files")
         logger.debug(files)
 
-- 
2.43.0


From 8b702facf349de945ad1a18677562db1d51f96a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:08 +0000
Subject: [PATCH 09/30] fix: use the network output of each grid point for the
 epsilon of that point

The network maps one (x,y,z,freq) point to [real,imag]. Reshaping to 2*N_freq and splitting in halves mixed up real and imaginary parts and frequencies for N_freq > 1.
---
 nidn/training/model/model_to_eps_grid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 85da34a..db6cb8a 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -163,9 +163,9 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
     else:
 
         # Reshape the output to have a 4D tensor again
-        # Note we ouput real and imaginary parts separatly, hence 2*N_freq
+        # Note we ouput real and imaginary parts separatly, hence the last dimension is 2
         out = out.reshape(
-            Nx_undersampled, Ny_undersampled, run_cfg.N_layers, 2 * run_cfg.N_freq
+            Nx_undersampled, Ny_undersampled, run_cfg.N_layers, run_cfg.N_freq, 2
         )
 
         # Oversample the created eps grid
@@ -179,8 +179,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
 
         # Net out is [0,1] thus we transform to desired real and imaginary ranges
-        # first half contains real entries
-        eps.real = out[:, :, :, 0 : run_cfg.N_freq]
+        # first entry is real
+        eps.real = out[..., 0]
 
         # scale up to [0 , (max-min_eps)]
         eps.real = eps.real * (run_cfg.real_max_eps - run_cfg.real_min_eps)
@@ -193,8 +193,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         if run_cfg.avoid_zero_eps:
             _avoid_zero_eps(eps)
 
-        # second half imaginary
-        eps.imag = out[:, :, :, run_cfg.N_freq :]
+        # second entry is imaginary
+        eps.imag = out[..., 1]
         eps.imag = (eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
         )
-- 
2.43.0


From f97d2ef9b50123dd200d03b416ab742a1db4c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:08 +0000
Subject: [PATCH 10/30] fix: translate the imaginary part to [imag_min_eps,
 imag_max_eps]

Only the real part was shifted by its minimum, so with imag_min_eps != 0 part of the allowed range could not be reached.
---
 nidn/training/model/model_to_eps_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index db6cb8a..5351f05 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -195,7 +195,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
         # second entry is imaginary
         eps.imag = out[..., 1]
-        eps.imag = (eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)).clip(
+        eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
+        eps.imag = (eps.imag + run_cfg.imag_min_eps).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
         )
 
-- 
2.43.0


From 8624091ef3e56ec76b4f1084b29c711016dae6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:08 +0000
Subject: [PATCH 11/30] fix: avoid zero epsilon also for voxel models and after
 adding noise

---
 nidn/training/model/model_to_eps_grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 5351f05..5ac9d75 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -190,9 +190,6 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
             run_cfg.real_min_eps, run_cfg.real_max_eps
         )
 
-        if run_cfg.avoid_zero_eps:
-            _avoid_zero_eps(eps)
-
         # second entry is imaginary
         eps.imag = out[..., 1]
         eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
@@ -217,6 +214,9 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
         eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
 
+    if run_cfg.avoid_zero_eps:
+        _avoid_zero_eps(eps)
+
     return eps
 
 
-- 
2.43.0


From 229afef0c9bd404f008a0eb4d3b5ae5012bd2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:08 +0000
Subject: [PATCH 12/30] fix: ricker pulse of the point source

The value was assigned to a misspelled variable, so every simulation with it failed.
---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index 6713223..df9ea76 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -112,7 +112,7 @@ class PointSource:
             # By experimental value, the ricker wavelet signal converges to zero after 6 times the grid points per wavelength, so just set the source-signal to zero after this
             t1 = self.grid_points_per_wavelength * 6
             if q < t1:
-                vsrcect = self.amplitude * _ricker(
+                src = self.amplitude * _ricker(
                     q, self.grid_points_per_wavelength, 1, self.courant
                 )
             else:
-- 
2.43.0


From ad1ff42017a161f61369df348aea3e1680d1f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:08 +0000
Subject: [PATCH 13/30] fix: signals of exactly two windows are too short for
 transient removal

Merging the last two chunks leaves a single one, and the maximum of an empty tensor was taken.
---
 .../calculate_transmission_reflection_coefficients.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
index 723e9d3..db1cdb1 100644
--- a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
+++ b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
@@ -309,7 +309,7 @@ def _eliminate_transient_part(signal, wavelength, cfg, is_freespace=False, plot=
 
     # Check signal is still long enough
     signal_length = len(signal)
-    if signal_length < 2 * window_size:
+    if signal_length <= 2 * window_size:
         logger.error(
             "FDTD Signal is too short to compute R,T,A. Please increase FDTD_niter in the config. Aborting transient removal."
         )
-- 
2.43.0


From 2901d3e058c6f48661c93a034587d7246c918712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:08 +0000
Subject: [PATCH 14/30] fix: NERF with 3 or 4 hidden layers

The skip connection was concatenated to the input of the output layer, or to the output itself, which do not expect it.
---
 nidn/training/utils/nerf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/utils/nerf.py b/nidn/training/utils/nerf.py
index 0f5ab59..10f7e7b 100644
--- a/nidn/training/utils/nerf.py
+++ b/nidn/training/utils/nerf.py
@@ -56,7 +56,8 @@ class NERF(nn.Module):
         # compute all other layers and apply skip where requested
         for layer_idx in range(1, len(self.net)):
             out = self.net[layer_idx].forward(out)
-            if layer_idx in self.skip:
+            # (the output layer and its input have no skip connection)
+            if layer_idx in self.skip and layer_idx < len(self.net) - 2:
                 out = torch.cat([out, identity], dim=1)
 
         return out
-- 
2.43.0


From ebff3ded30394326cf9cd8d53760b0158555f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:08 +0000
Subject: [PATCH 15/30] fix: always keep the zeroth order in the circular
 truncation

TRCWA_NG = 1 left no order at all and crashed.
---
 nidn/trcwa/utils/kbloch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index fc7f0dd..8646707 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -135,7 +135,7 @@ def Gsel_circular(nG, Lk1, Lk2):
     for i in range(nGtmp - 1, -1, -1):
         if torch.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-    nG = i
+    nG = max(i, 1)
 
     # final G
     G = torch.zeros((nG, 2), dtype=int)
-- 
2.43.0


From d09aa78120504b4117de67e5a4f8e4a4ede43049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:08 +0000
Subject: [PATCH 16/30] fix: do not overwrite a run saved in the same second

---
 nidn/training/save_run.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nidn/training/save_run.py b/nidn/training/save_run.py
index 8c6a74b..5ba258c 100644
--- a/nidn/training/save_run.py
+++ b/nidn/training/save_run.py
@@ -22,6 +22,14 @@ def save_run(run_cfg, subfolder=""):
 
     filename = "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string + "_run.pk"
 
+    # Never overwrite a run that was saved in the same second
+    suffix = 1
+    while Path(filename).exists():
+        filename = (
+            "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string + f"_{suffix}_run.pk"
+        )
+        suffix += 1
+
     logger.info("Saving run to file: {}".format(filename))
     with open(filename, "wb") as handle:
         pk.dump(run_cfg, handle, protocol=pk.HIGHEST_PROTOCOL)
-- 
2.43.0


From 2efd578c0c332d6700fd0ee7fe94a1e279a9dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:08 +0000
Subject: [PATCH 17/30] fix: reject unknown solvers

compute_spectrum silently returned None for them.
---
 nidn/utils/validate_config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index 4a3e8f1..25a1a55 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -147,6 +147,9 @@ def _check_value_ranges(cfg: DotMap):
     if cfg.type != "classification" and cfg.type != "regression":
         raise RuntimeError(f"type must be either 'classification' or 'regression'")
 
+    if cfg.solver != "TRCWA" and cfg.solver != "FDTD":
+        raise RuntimeError(f"solver must be either 'TRCWA' or 'FDTD'")
+
     if not cfg.TRCWA_L_grid[1][0] < cfg.TRCWA_L_grid[1][1]:
         raise RuntimeError(f"TRCWA_L_grid dim1 must be ordered from low to high")
     if not cfg.TRCWA_L_grid[0][0] > cfg.TRCWA_L_grid[0][1]:
-- 
2.43.0


From aa6b3d90f757d3bd400b5ab727de625d11f879b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:21 +0000
Subject: [PATCH 18/30] fix: FDTD does not overwrite the layer thickness in the
 config

A single thickness was replaced by one per layer, so changing N_layers afterwards made the config invalid.
---
 nidn/fdtd_integration/compute_spectrum_fdtd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/compute_spectrum_fdtd.py b/nidn/fdtd_integration/compute_spectrum_fdtd.py
index 772ed26..b593c69 100644
--- a/nidn/fdtd_integration/compute_spectrum_fdtd.py
+++ b/nidn/fdtd_integration/compute_spectrum_fdtd.py
@@ -32,10 +32,13 @@ def compute_spectrum_fdtd(permittivity, cfg: DotMap):
     logger.debug(physical_wavelengths)
     logger.debug("Number of layers: " + str(len(permittivity[0, 0, :, 0])))
 
+    cfg.FDTD_grid_scaling = _compute_fdtd_grid_scaling(cfg)
+
     if (len(cfg.PER_LAYER_THICKNESS) == 1) and (cfg.N_layers > 1):
+        # Copied, so that the thickness in the passed config remains as it was set
+        cfg = cfg.copy()
         cfg.PER_LAYER_THICKNESS = cfg.PER_LAYER_THICKNESS * cfg.N_layers
 
-    cfg.FDTD_grid_scaling = _compute_fdtd_grid_scaling(cfg)
     # For each wavelength, calculate transmission and reflection coefficents
     disable_progress_bar = logger._core.min_level >= 20
     for i in tqdm(range(len(physical_wavelengths)), disable=disable_progress_bar):
-- 
2.43.0


From 5c27cd108f6dec89260232d044c2adb6022b1bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:07 +0000
Subject: [PATCH 19/30] fix: check the types of hidden_layers, iterations,
 learning_rate and absorption_loss

---
 nidn/utils/validate_config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index 25a1a55..ed0afef 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -70,11 +70,11 @@ def _check_for_keys(cfg: DotMap):
 def _check_entry_types(cfg: DotMap):
     """Check that all entries in the config are of the correct type"""
     # fmt: off
-    integer_keys = ["Nx","Ny","N_layers","N_freq","encoding_dim","n_neurons","eps_oversampling","seed",
+    integer_keys = ["Nx","Ny","N_layers","N_freq","encoding_dim","n_neurons","hidden_layers","iterations","eps_oversampling","seed",
                     "TRCWA_NG","FDTD_niter","FDTD_gridpoints_from_material_to_detector","FDTD_min_gridpoints_per_unit_magnitude"]
-    float_keys = ["L","real_min_eps","real_max_eps","imag_min_eps","imag_max_eps","siren_omega","noise_scale","reg_loss_weight",
+    float_keys = ["L","learning_rate","real_min_eps","real_max_eps","imag_min_eps","imag_max_eps","siren_omega","noise_scale","reg_loss_weight",
                   "TRCWA_TOP_LAYER_EPS","TRCWA_BOTTOM_LAYER_EPS","FDTD_free_space_distance","FDTD_pml_thickness",]
-    boolean_keys = ["use_regularization_loss","add_noise","use_gpu","avoid_zero_eps",]
+    boolean_keys = ["absorption_loss","use_regularization_loss","add_noise","use_gpu","avoid_zero_eps",]
     string_keys = ["model_type","type","name","freq_distribution","solver","FDTD_source_type","FDTD_pulse_type",]
     list_keys = ["PER_LAYER_THICKNESS","TRCWA_L_grid","FDTD_source_position","target_reflectance_spectrum","target_transmittance_spectrum",
                  "physical_wavelength_range",]
-- 
2.43.0


From 469ba50a086997779f9e45f1f8a5df0f0f07f6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:52 +0000
Subject: [PATCH 20/30] fix: create the file of a saved run exclusively so that
 concurrent saves keep both runs

---
 nidn/training/save_run.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nidn/training/save_run.py b/nidn/training/save_run.py
index 5ba258c..f9c0a77 100644
--- a/nidn/training/save_run.py
+++ b/nidn/training/save_run.py
@@ -22,14 +22,18 @@ def save_run(run_cfg, subfolder=""):
 
     filename = "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string + "_run.pk"
 
-    # Never overwrite a run that was saved in the same second
+    # Never overwrite a run that was saved in the same second (possibly by another process)
     suffix = 1
-    while Path(filename).exists():
-        filename = (
-            "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string + f"_{suffix}_run.pk"
-        )
-        suffix += 1
+    while True:
+        try:
+            handle = open(filename, "xb")
+            break
+        except FileExistsError:
+            filename = (
+                "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string + f"_{suffix}_run.pk"
+            )
+            suffix += 1
 
     logger.info("Saving run to file: {}".format(filename))
-    with open(filename, "wb") as handle:
+    with handle:
         pk.dump(run_cfg, handle, protocol=pk.HIGHEST_PROTOCOL)
-- 
2.43.0


From 58e70b338673052d75b4a37b53fa1ac2f849bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:52 +0000
Subject: [PATCH 21/30] fix: noise on the permittivities no longer breaks the
 backward pass

---
 nidn/training/model/model_to_eps_grid.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 5ac9d75..c672bf5 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -199,20 +199,25 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
     # Adds noise scaled to desired eps range times noise_scale
     if run_cfg.add_noise:
-        eps.real += (
+        # Not in-place, the values before are needed for the gradient
+        real_noise = (
             (torch.randn_like(eps.real) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.real_max_eps - run_cfg.real_min_eps)
         )
-        eps.real = eps.real.clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
-        eps.imag += (
+        eps.real = (eps.real + real_noise).clip(
+            run_cfg.real_min_eps, run_cfg.real_max_eps
+        )
+        imag_noise = (
             (torch.randn_like(eps.imag) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         )
-        eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
+        eps.imag = (eps.imag + imag_noise).clip(
+            run_cfg.imag_min_eps, run_cfg.imag_max_eps
+        )
 
     if run_cfg.avoid_zero_eps:
         _avoid_zero_eps(eps)
-- 
2.43.0


From 09fdadb71738dd058b56860772c7bdaa4e155c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:20 +0000
Subject: [PATCH 22/30] fix: finite gradients for patterns with degenerate
 modes

---
 nidn/trcwa/trcwa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 82718c9..2cedd77 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -728,6 +728,12 @@ def SolveLayerEigensystem(omega, kx, ky, kp, ep2):
     kkT = torch_dot(k, torch_transpose(k))
     M = torch_dot(ep2, kp) - kkT
 
+    # Symmetric patterns have degenerate modes, for which the gradient of the
+    # eigendecomposition is not defined (NaN). A negligible shift (far below the
+    # effect of TRCWA_Q_ABS) separates them.
+    shift = torch.sin(torch.arange(1.0, 2 * nG + 1)) ** 2
+    M = M + 1e-8 * omega**2 * torch.diag(shift)
+
     q, phi = torch.linalg.eig(M)
 
     q = torch.sqrt(q)
-- 
2.43.0


From 9b2e793a52110b88e4c2bd8647415c8544b76d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:25 +0000
Subject: [PATCH 23/30] fix: keep the gradient of Fourier coefficients that are
 zero

---
 nidn/trcwa/utils/fft_funs.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index a984845..a72f644 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -29,11 +29,9 @@ def Epsilon_fft(dN, eps_grid, G):
     else:
         raise ValueError("Wrong eps_grid type")
 
-    # Set very small components to zero for torch
-    for i in range(eps2.shape[0]):
-        for j in range(eps2.shape[1]):
-            if eps2[i][j].abs() < 1e-14:
-                eps2[i][j] = 0 + 0j
+    # Set very small components to zero for torch (the value only, they still have a gradient)
+    negligible = eps2.detach().abs() < 1e-14
+    eps2 = eps2 - torch.where(negligible, eps2.detach(), torch.zeros_like(eps2))
 
     return epsinv, eps2
 
-- 
2.43.0


From cdadeea30a16cf655cde6fcae98fb30707121513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:07 +0000
Subject: [PATCH 24/30] fix: plot_model_grid_per_freq works for runs with fewer
 than four frequencies

---
 nidn/plots/plot_model_grid_per_freq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nidn/plots/plot_model_grid_per_freq.py b/nidn/plots/plot_model_grid_per_freq.py
index 41041b2..ad8761d 100644
--- a/nidn/plots/plot_model_grid_per_freq.py
+++ b/nidn/plots/plot_model_grid_per_freq.py
@@ -5,18 +5,21 @@ from ..utils.convert_units import freq_to_wl
 from ..training.model.model_to_eps_grid import model_to_eps_grid
 
 
-def plot_model_grid_per_freq(run_cfg, freq_idx=[0, 1, 2, 3], save_path=None):
+def plot_model_grid_per_freq(run_cfg, freq_idx=None, save_path=None):
     """Plots the real and imaginary part of the permittivity in two separate plots for
     frequencies in target_frequencies defined by freq_idx. Optionally saves it.
 
     Args:
         run_cfg (dict): The run configuration.
-        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to [0, 1, 2, 3].
+        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to None, then the first four (or all, if there are fewer) are plotted.
         save_path (str, optional): Folder to save the plot in. Defaults to None, then the plot will not be saved.
     """
     Nx, Ny, N_layers = run_cfg.Nx, run_cfg.Ny, run_cfg.N_layers
     eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
 
+    if freq_idx is None:
+        freq_idx = list(range(min(4, eps.shape[3])))
+
     x = torch.linspace(-1, 1, Nx)
     y = torch.linspace(-1, 1, Ny)
     z = torch.linspace(-1, 1, N_layers)
-- 
2.43.0


From 9d654ea3cd0f969c6ec5608c18d436de0f47b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:07 +0000
Subject: [PATCH 25/30] fix: print_cfg prints entries without string formatting
 support (models, results, None)

---
 nidn/utils/print_cfg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nidn/utils/print_cfg.py b/nidn/utils/print_cfg.py
index ac040b7..b9d05a4 100644
--- a/nidn/utils/print_cfg.py
+++ b/nidn/utils/print_cfg.py
@@ -21,8 +21,8 @@ def print_cfg(cfg: DotMap):
             print()
         else:
             if idx % 3 == 2:
-                print(f"{key:<23}: {value:<15}|")
+                print(f"{key:<23}: {str(value):<15}|")
             else:
-                print(f"{key:<23}: {value:<15}|", end="")
+                print(f"{key:<23}: {str(value):<15}|", end="")
         idx += 1
     print()
-- 
2.43.0


From 1e9f7ba979f09b65c9c9563713c87a4626436224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:20 +0000
Subject: [PATCH 26/30] fix: rectangular truncation (Gmethod=1) of the plane
 wave orders works

---
 nidn/trcwa/utils/kbloch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index 8646707..bc58798 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -61,13 +61,13 @@ def Gsel_parallelogramic(nG, Lk1, Lk2):
     v = torch.norm(Lk2)
     uv = torch.dot(Lk1, Lk2)
 
-    NGroot = int(torch.sqrt(nG))
-    if torch.mod(NGroot, 2) == 0:
+    NGroot = int(np.sqrt(nG))
+    if NGroot % 2 == 0:
         NGroot -= 1
 
     M = NGroot // 2
 
-    xG = range(-M, NGroot - M)
+    xG = torch.arange(-M, NGroot - M)
     G1, G2 = torch.meshgrid(xG, xG, indexing="ij")
     G1 = G1.flatten()
     G2 = G2.flatten()
-- 
2.43.0


From 30c499d7dcaf9bee4e5f93c0a7f9ca44f34fa52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:20 +0000
Subject: [PATCH 27/30] fix: fields inside the layers can be computed
 (torch.inverse, isinstance, torch.fft.ifft2)

---
 nidn/trcwa/trcwa.py          | 8 ++++----
 nidn/trcwa/utils/fft_funs.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 2cedd77..9b4404b 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -451,7 +451,7 @@ class TRCWA:
         ai0, bi0 = self.GetAmplitudes_noTranslate(which_layer)
         # ai, bi = self.GetAmplitudes(which_layer,z_offset)
 
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, (float, int)):
             zl = [z_offset]
         else:
             zl = z_offset
@@ -504,7 +504,7 @@ class TRCWA:
             torch.tensor: Tensor containing the field amplitudes [[Ex,Ey,Ez], [Hx,Hy,Hz]] in Fourier space for each z-offset
         """
 
-        if torch.isinstance(Nxy, type(None)):
+        if Nxy is None:
             Nxy = self.GridLayer_Nxy_list[self.id_list[which_layer][3]]
         Nx = Nxy[0]
         Ny = Nxy[1]
@@ -524,7 +524,7 @@ class TRCWA:
             hy = get_ifft(Nx, Ny, fh[1], self.G)
             hz = get_ifft(Nx, Ny, fh[2], self.G)
             eh.append([[ex, ey, ez], [hx, hy, hz]])
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, (float, int)):
             eh = eh[0]
         return eh
 
@@ -868,7 +868,7 @@ def SolveInterior(which_layer, a0, bN, q_list, phi_list, kp_list, thickness_list
     )
 
     # tmp = inv(1-S12*pS21)
-    tmp = torch.inv(torch_eye(nG2) - torch_dot(S12, pS21))
+    tmp = torch.inverse(torch_eye(nG2) - torch_dot(S12, pS21))
     # ai = tmp * (S11 a0 + S12 pS22 bN)
     ai = torch_dot(tmp, torch_dot(S11, a0) + torch_dot(S12, torch_dot(pS22, bN)))
     # bi = pS21 ai + pS22 bN
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index a72f644..a00bb3f 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -81,5 +81,5 @@ def get_ifft(Nx, Ny, s_in, G):
         stmp[x, y] = 1.0
         s0 = s0 + s_in[i] * stmp
 
-    s_out = torch.ifft2(s0) / dN
+    s_out = torch.fft.ifft2(s0) / dN
     return s_out
-- 
2.43.0


From 59ba9a909fe982bd6cccd6d0b808aae4342581a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:20 +0000
Subject: [PATCH 28/30] fix: Return_eps returns the permittivity of patterned
 layers, not its mirror image

---
 nidn/trcwa/trcwa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 9b4404b..91affb0 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -276,7 +276,7 @@ class TRCWA:
         # patterned layer
         elif self.id_list[i][0] == 1:
             if component == "zz":
-                epk = torch.inv(self.Patterned_epinv_list[self.id_list[i][2]])
+                epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
             elif component == "xx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
             elif component == "xy":
@@ -286,7 +286,7 @@ class TRCWA:
             elif component == "yy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
 
-            return get_ifft(Nx, Ny, epk[0, :], self.G)
+            return get_ifft(Nx, Ny, epk[:, 0], self.G)
 
     def RT_Solve(self, normalize=0, byorder=0):
         """
-- 
2.43.0


From cb614224d72cf19fc228a371767f08d092416290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:20 +0000
Subject: [PATCH 29/30] fix: x and y permittivities of anisotropic layers are
 not interchanged

---
 nidn/trcwa/trcwa.py          | 8 ++++----
 nidn/trcwa/utils/fft_funs.py | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 91affb0..4910fee 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -277,13 +277,13 @@ class TRCWA:
         elif self.id_list[i][0] == 1:
             if component == "zz":
                 epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
-            elif component == "xx":
+            elif component == "yy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
-            elif component == "xy":
-                epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, self.nG :]
             elif component == "yx":
+                epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, self.nG :]
+            elif component == "xy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, : self.nG]
-            elif component == "yy":
+            elif component == "xx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
 
             return get_ifft(Nx, Ny, epk[:, 0], self.G)
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index a00bb3f..f944bad 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -15,8 +15,9 @@ def Epsilon_fft(dN, eps_grid, G):
         epsz_fft = get_conv(dN, eps_grid[2], G)
         epsinv = torch.inverse(epsz_fft)
 
-        tmp1 = torch.vstack((epsx_fft, torch.zeros_like(epsx_fft)))
-        tmp2 = torch.vstack((torch.zeros_like(epsx_fft), epsy_fft))
+        # eps2 acts on (-Ey, Ex)
+        tmp1 = torch.vstack((epsy_fft, torch.zeros_like(epsx_fft)))
+        tmp2 = torch.vstack((torch.zeros_like(epsx_fft), epsx_fft))
         eps2 = torch.hstack((tmp1, tmp2))
 
     elif eps_grid[0].ndim == 1:
-- 
2.43.0


From 1c42c41d05e9fc07683761ebb231792310c600f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:20 +0000
Subject: [PATCH 30/30] fix: Volume_integral computes the absorbed power of a
 layer

---
 nidn/trcwa/trcwa.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 4910fee..7246340 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -549,7 +549,9 @@ class TRCWA:
         phi = self.phi_list[which_layer]
 
         if self.id_list[which_layer][0] == 0:
-            epinv = 1.0 / self.Uniform_ep_list[self.id_list[which_layer][2]]
+            epinv = (
+                torch_eye(self.nG) / self.Uniform_ep_list[self.id_list[which_layer][2]]
+            )
         else:
             epinv = self.Patterned_epinv_list[self.id_list[which_layer][2]]
 
@@ -568,7 +570,7 @@ class TRCWA:
 
         Mt = Matrix_zintegral(q, self.thickness_list[which_layer])
         # overall
-        abM = abMatrix * Mt
+        abM = abMatrix * torch_transpose(Mt)
 
         # F matrix
         Faxy = torch_dot(torch_dot(kp, phi), torch.diag(1.0 / self.omega / q))
@@ -995,6 +997,6 @@ def Gmeshgrid(x):
     qj = []
     for i in range(N):
         qj.append(x)
-    qj = torch.tensor(qj)
+    qj = torch.stack(qj)
     qi = torch_transpose(qj)
     return qi, qj
-- 
2.43.0

