From 91833402deb01a2a496607f1582211ae1e0ce6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 01/26] fix: keep staggered backward PML region inside the
 half-grid for small models

---
 src/deepwave/acoustic.py | 2 +-
 src/deepwave/elastic.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index dbb1540..9e6f7c6 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1095,7 +1095,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 3de44c5..4bab3ed 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1709,7 +1709,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
-- 
2.43.0


From 354d71c5c6e86d49d51798b2d020f717a8f10afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 02/26] fix: compute Hicks grid offsets with floor instead of
 truncating a rounded sum

---
 src/deepwave/location_interpolation.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index dc30377..e2d3d19 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -57,18 +57,14 @@ def _get_hicks_for_one_location_dim(
         locations = torch.tensor([location]).round().long().to(beta.device)
         weights = torch.ones(1, dtype=beta.dtype, device=beta.device)
     else:
-        key = (int((location - int(location)) / eps), halfwidth, int(monopole))
-        x = (
-            torch.arange(
-                -halfwidth + 1,
-                halfwidth + 1,
-                dtype=beta.dtype,
-                device=beta.device,
-            )
-            - location
-            + int(location)
-        )
-        locations = (location + x).long()
+        # Use floor, rather than truncation, so that locations between a free
+        # surface and the first grid point (negative) have a fraction in [0, 1).
+        location_floor = math.floor(location)
+        fraction = location - location_floor
+        key = (int(fraction / eps), halfwidth, int(monopole))
+        offsets = torch.arange(-halfwidth + 1, halfwidth + 1, device=beta.device)
+        x = offsets.to(beta.dtype) - fraction
+        locations = offsets + location_floor
 
         if key in hicks_weight_cache:
             weights = hicks_weight_cache[key].clone()
-- 
2.43.0


From 9462de2205fe2d1d77debce66b694cedf753341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 03/26] fix: do not let free surface folding modify cached
 Hicks weights

---
 src/deepwave/location_interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index e2d3d19..7240193 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -83,7 +83,8 @@ def _get_hicks_for_one_location_dim(
                     * torch.i0(beta * (1 - (x / halfwidth) ** 2).sqrt())
                     / torch.i0(beta)
                 )
-            hicks_weight_cache[key] = weights
+            # The weights may be modified in place below, so store a copy
+            hicks_weight_cache[key] = weights.clone()
         if free_surface[0] and locations[0].item() < free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
-- 
2.43.0


From 6bdc12fad8a34e971929a61beddb62b6bda1ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 04/26] fix: give elastic 3D callbacks the models that their
 names refer to

---
 src/deepwave/elastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 4bab3ed..8897846 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1482,6 +1482,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
@@ -1813,6 +1814,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
-- 
2.43.0


From 2dab8cbe69c7b30dc0379db710754ce500850b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 05/26] fix: skip unused diagonal entries when naming eager
 elastic callback wavefields

---
 src/deepwave/elastic.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 8897846..bfeffb0 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -2359,11 +2359,13 @@ def elastic_python(
         ]
         v_mem_normal_names = ["m_vyy_0", "m_vxx_0"]
         v_mem_shear_names = [
-            ["m_vyx_0", "m_vxy_0"],
+            ["m_vyx_0"],
+            ["m_vxy_0"],
         ]
         s_mem_normal_names = ["m_sigmayyy_0", "m_sigmaxxx_0"]
         s_mem_shear_names = [
-            ["m_sigmaxyx_0", "m_sigmaxyy_0"],
+            ["m_sigmaxyx_0"],
+            ["m_sigmaxyy_0"],
         ]
 
     else:
@@ -2508,17 +2510,21 @@ def elastic_python(
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
             for i in range(len(shear_s_names)):
                 callback_wavefields.update(
-                    dict(zip(shear_s_names[i], shear_stresses[i]))
+                    dict(zip(shear_s_names[i], shear_stresses[i][i + 1 :]))
                 )
             callback_wavefields.update(dict(zip(v_mem_normal_names, v_mem_vars_normal)))
             for i in range(len(v_mem_shear_names)):
+                # The diagonal entries are unused
+                off_diagonal = [*v_mem_vars_shear[i][:i], *v_mem_vars_shear[i][i + 1 :]]
                 callback_wavefields.update(
-                    dict(zip(v_mem_shear_names[i], v_mem_vars_shear[i]))
+                    dict(zip(v_mem_shear_names[i], off_diagonal))
                 )
             callback_wavefields.update(dict(zip(s_mem_normal_names, s_mem_vars_normal)))
             for i in range(len(s_mem_shear_names)):
+                # The diagonal entries are unused
+                off_diagonal = [*s_mem_vars_shear[i][:i], *s_mem_vars_shear[i][i + 1 :]]
                 callback_wavefields.update(
-                    dict(zip(s_mem_shear_names[i], s_mem_vars_shear[i]))
+                    dict(zip(s_mem_shear_names[i], off_diagonal))
                 )
             forward_callback(
                 deepwave.common.CallbackState(
-- 
2.43.0


From 113c52fd5359ce62df942d3981db3c0c3c4d0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 06/26] fix: refuse unsupported double backpropagation through
 acoustic

---
 src/deepwave/acoustic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 9e6f7c6..be1e80a 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1007,6 +1007,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         return (*[w[s] for w in wavefields], *receiver_amplitudes)
 
     @staticmethod
+    @torch.autograd.function.once_differentiable
     def backward(ctx: Any, *args: torch.Tensor) -> Tuple[Optional[torch.Tensor], ...]:
         """Computes gradients during backward pass."""
         # Unpack
-- 
2.43.0


From 83310d3db36ab4147b8bf3fa3d22271964b0d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 07/26] fix: allow a tensor of ignored locations together with
 initial wavefields

---
 src/deepwave/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 1f8e302..72ed48f 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1928,6 +1928,8 @@ def check_locations_within_extents(
             for dim in range(location.shape[-1]):
                 dim_location = location[..., dim]
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
+                if dim_location.numel() == 0:
+                    continue
                 if (
                     dim_location.min() < extents[dim][0]
                     or extents[dim][1] <= dim_location.max()
-- 
2.43.0


From 6c318004973563d84657d2b5e42fbf8c173ce558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 08/26] fix: use the whole model when survey_pad is given but
 all locations are ignored

---
 src/deepwave/common.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 72ed48f..a5bf36a 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1761,16 +1761,20 @@ def get_survey_extents_one_side(
         Min/max index as int.
 
     """
-    # if pad < 0, return the edge of the model in that direction (0 if left,
-    # the model shape if right). Otherwise, initialise extreme_location to
+    # if pad < 0, or there are no active locations, return the edge of the model
+    # in that direction (0 if left, the model shape if right). Otherwise, initialise extreme_location to
     # the other side of the model so that we can find the min (left) or
     # max (right) location below.
+    has_locations = any(
+        location is not None and bool((location[..., dim] != IGNORE_LOCATION).any())
+        for location in locations
+    )
     if side == "left":
-        if pad < 0 or not any(location is not None for location in locations):
+        if pad < 0 or not has_locations:
             return 0
         extreme_location = shape
     else:
-        if pad < 0 or not any(location is not None for location in locations):
+        if pad < 0 or not has_locations:
             return shape
         extreme_location = 0
 
-- 
2.43.0


From 38da17ca61ae063cfc68c0123a0d7452a5017e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 09/26] fix: avoid NaN wavefields when pml_freq is zero

---
 src/deepwave/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index a5bf36a..e597559 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2557,6 +2557,8 @@ def setup_pml(
     a = torch.exp(-sigmaalpha * abs(dt))
     b = sigma / sigmaalpha * (a - 1)
     a[pml_frac == 0] = 0
+    # sigma is zero here, but if alpha is too (pml_freq of 0) then b was 0 / 0
+    b[pml_frac == 0] = 0
     return a, b
 
 
-- 
2.43.0


From cb4dd6471e21cabaaf33352c11bee05dc9421f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 10/26] fix: reject NaN and partially ignored locations instead
 of misplacing them

---
 src/deepwave/common.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index e597559..9f25cdc 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1616,6 +1616,14 @@ def check_locations_are_within_model(
 
     for location in locations:
         if location is not None:
+            ignored = location == IGNORE_LOCATION
+            if bool((ignored.any(dim=-1) & ~ignored.all(dim=-1)).any()):
+                raise RuntimeError(
+                    "All coordinates of a location must be IGNORE_LOCATION for it to "
+                    "be ignored.",
+                )
+            if bool(torch.isnan(location).any()):
+                raise RuntimeError("Locations must not be NaN.")
             for dim, model_dim_shape in enumerate(model_shape):
                 dim_location = location[..., dim]
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
-- 
2.43.0


From 7a85e0611a10b6160635ac27083b4302d568f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 11/26] fix: propagate all time steps when nt is not a multiple
 of the gradient sampling interval

---
 src/deepwave/acoustic.py    | 31 ++++++++++++++++----------
 src/deepwave/common.py      |  2 +-
 src/deepwave/elastic.py     | 31 ++++++++++++++++----------
 src/deepwave/scalar.py      | 33 +++++++++++++++++-----------
 src/deepwave/scalar_born.py | 43 +++++++++++++++++++++++--------------
 5 files changed, 89 insertions(+), 51 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index be1e80a..34a5853 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -906,8 +906,10 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The final step may contain fewer than step_ratio time steps
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         # Wavefield names for callback
         # Same order as wavefields list
@@ -946,7 +948,7 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         # Main Loop
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wf_names, wavefields))
                     forward_callback(
@@ -960,7 +962,8 @@ class AcousticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
 
                 if (
                     forward(
@@ -974,7 +977,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list,
@@ -1142,8 +1145,10 @@ class AcousticForwardFunc(torch.autograd.Function):
         )
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The final step may contain fewer than step_ratio time steps
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wf_names = ["pressure_0"]
         if ndim == 3:
@@ -1180,8 +1185,10 @@ class AcousticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                chunk_end = min(step * step_ratio, nt)
+                chunk_nt = chunk_end - (step - step_nt) * step_ratio
                 if (
                     backward(
                         *[m.data_ptr() for m in models],
@@ -1197,7 +1204,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list_for_grad,
@@ -1214,7 +1221,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         ],
                         *model_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        chunk_end,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1223,7 +1230,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     (
                         grad_wavefields[-ndim:],
                         aux_wavefields[:],
@@ -1477,7 +1484,9 @@ def acoustic_python(
 
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    # The final step may contain fewer than step_ratio time steps
+    n_steps = -(-nt // step_ratio)
+    for step in range(n_steps):
         if forward_callback is not None and step % callback_frequency == 0:
             current_wavefields = [p, *velocities, *phi, *psi]
             callback_wavefields = dict(zip(wf_names, current_wavefields))
@@ -1493,7 +1502,7 @@ def acoustic_python(
                 )
             )
 
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             # Record receivers
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 9f25cdc..84da7b9 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -184,7 +184,7 @@ class StorageManager:
         temporary_storage: Optional[TemporaryStorage] = None
 
         if requires_grad and self.storage_mode != StorageMode.NONE:
-            num_steps_stored = self.nt // self.step_ratio
+            num_steps_stored = -(-self.nt // self.step_ratio)
 
             if self.storage_mode == StorageMode.DEVICE:  # Device
                 if self.storage_compression:
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index bfeffb0..ba8127c 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1434,8 +1434,10 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The final step may contain fewer than step_ratio time steps
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wavefield_names = []
         model_names = []
@@ -1498,7 +1500,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_wavefields = {}
 
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wavefield_names, wavefields))
                     forward_callback(
@@ -1512,7 +1514,8 @@ class ElasticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
 
                 if (
                     forward(
@@ -1526,7 +1529,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot,
@@ -1766,8 +1769,10 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The final step may contain fewer than step_ratio time steps
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wavefield_names = []
         model_names = []
@@ -1830,8 +1835,10 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                chunk_end = min(step * step_ratio, nt)
+                chunk_nt = chunk_end - (step - step_nt) * step_ratio
                 if (
                     backward(
                         *[model.data_ptr() for model in models],
@@ -1847,7 +1854,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *[
@@ -1872,7 +1879,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         mu_batched,
                         buoyancy_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        chunk_end,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1881,7 +1888,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     if ndim == 3:
                         (
                             grad_wavefields[9:14],
@@ -2504,7 +2511,9 @@ def elastic_python(
         model_names.extend(["lamb", "mu", "buoyancy_x"])
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    # The final step may contain fewer than step_ratio time steps
+    n_steps = -(-nt // step_ratio)
+    for step in range(n_steps):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = dict(zip(v_names, velocities))
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
@@ -2537,7 +2546,7 @@ def elastic_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             for ridx in range(ndim):
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index b74ac33..0ce27d0 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -840,15 +840,17 @@ class ScalarForwardFunc(torch.autograd.Function):
         # If no callback is provided, the entire propagation can be done in a
         # single call to the backend function. We achieve this by setting the
         # callback frequency to be the total number of steps.
+        # The final step may contain fewer than step_ratio time steps
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         # The main time-stepping loop. The propagation is chunked into segments
         # of `callback_frequency` steps to allow for callbacks.
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 # If a `forward_callback` is provided, call it with the current
                 # state.
                 if forward_callback is not None:
@@ -871,7 +873,8 @@ class ScalarForwardFunc(torch.autograd.Function):
                         )
                     )
                 # `step_nt` is the number of steps to propagate in this chunk.
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
                 # Call the C/CUDA backend function to perform the wave
                 # propagation.
                 if (
@@ -891,7 +894,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -916,7 +919,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                 # PML variables. If an odd number of time steps were performed
                 # in the chunk, the pointers to the current and previous time
                 # step buffers need to be swapped for the next iteration.
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     wfc, wfp = wfp, wfc
                     psi, psin = psin, psi
 
@@ -1241,14 +1244,18 @@ class ScalarBackwardFunc(torch.autograd.Function):
         # This initial negation is the first part of that trick.
         grad_wfp = -grad_wfp
 
+        # The final step may contain fewer than step_ratio time steps
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfc.numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                chunk_end = min(step * step_ratio, nt)
+                chunk_nt = chunk_end - (step - step_nt) * step_ratio
                 if (
                     backward(
                         v2dt2.data_ptr(),
@@ -1268,7 +1275,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         receivers_i.data_ptr(),
                         *rdx,
                         *rdx2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1282,7 +1289,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         != deepwave.common.StorageMode.NONE,
                         v_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        chunk_end,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1291,7 +1298,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     grad_wfc, grad_wfp = grad_wfp, grad_wfc
                     grad_psi, grad_psin = grad_psin, grad_psi
                     grad_zeta, grad_zetan = grad_zetan, grad_zeta
@@ -2042,7 +2049,9 @@ def scalar_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    # The final step may contain fewer than step_ratio time steps
+    n_steps = -(-nt // step_ratio)
+    for step in range(n_steps):
         if forward_callback is not None and step % callback_frequency == 0:
             wavefield_dict = {
                 "wavefield_0": wavefields[0],
@@ -2064,7 +2073,7 @@ def scalar_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 7b06e44..c9a4927 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -820,14 +820,16 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
+        # The final step may contain fewer than step_ratio time steps
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
         callback_wavefields = {}
 
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = {
                         "wavefield_0": wfc,
@@ -855,7 +857,8 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
                 if (
                     forward(
                         v.data_ptr(),
@@ -882,7 +885,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -908,7 +911,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     wfc, wfp, psi, psin = (
                         wfp,
                         wfc,
@@ -1160,15 +1163,19 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             grad_wfp = -grad_wfp
         grad_wfpsc = -grad_wfpsc
 
+        # The final step may contain fewer than step_ratio time steps
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfcsc.numel() > 0 and nt > 0:
             if non_sc:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    chunk_end = min(step * step_ratio, nt)
+                    chunk_nt = chunk_end - (step - step_nt) * step_ratio
                     if (
                         backward(
                             v.data_ptr(),
@@ -1201,7 +1208,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            chunk_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1221,7 +1228,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            chunk_end,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1230,7 +1237,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if chunk_nt % 2 != 0:
                         (
                             grad_wfc,
                             grad_wfp,
@@ -1293,8 +1300,10 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             )
                         )
             else:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    chunk_end = min(step * step_ratio, nt)
+                    chunk_nt = chunk_end - (step - step_nt) * step_ratio
                     if (
                         backward_sc(
                             v.data_ptr(),
@@ -1315,7 +1324,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            chunk_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudessc_requires_grad,
@@ -1330,7 +1339,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            chunk_end,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1339,7 +1348,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if chunk_nt % 2 != 0:
                         (
                             grad_wfcsc,
                             grad_wfpsc,
@@ -1646,7 +1655,9 @@ def scalar_born_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    # The final step may contain fewer than step_ratio time steps
+    n_steps = -(-nt // step_ratio)
+    for step in range(n_steps):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = {
                 "wavefield_0": wavefields[0],
@@ -1677,7 +1688,7 @@ def scalar_born_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
-- 
2.43.0


From cb8c771dc2fedfcf1b36ca1bb3f23e879922703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 12/26] fix: report storage file errors instead of ignoring
 them

---
 src/deepwave/acoustic.c      | 18 ++++++------
 src/deepwave/elastic.c       | 16 ++++++-----
 src/deepwave/scalar.c        | 16 ++++++-----
 src/deepwave/scalar_born.c   | 29 ++++++++++---------
 src/deepwave/storage_utils.c | 56 ++++++++++++++++++++----------------
 src/deepwave/storage_utils.h | 30 +++++++++----------
 6 files changed, 90 insertions(+), 75 deletions(-)

diff --git a/src/deepwave/acoustic.c b/src/deepwave/acoustic.c
index 708aa01..e2e9fb2 100644
--- a/src/deepwave/acoustic.c
+++ b/src/deepwave/acoustic.c
@@ -288,8 +288,9 @@ __declspec(dllexport)
 #endif
 
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 
@@ -612,7 +613,7 @@ __declspec(dllexport)
 #define SAVE_SNAPSHOT(name, grad_cond)                                     \
   if (grad_cond) {                                                         \
     int64_t const step_idx = t / step_ratio;                               \
-    STORAGE_FUNC(save_snapshot_cpu)(                                       \
+    io_error |= STORAGE_FUNC(save_snapshot_cpu)(                           \
         name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
         DIM_ARGS);                                                         \
@@ -629,7 +630,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name)) io_error = 1;
 
     CLOSE_FILE(k_grad)
 #if DW_NDIM >= 3
@@ -640,7 +641,7 @@ __declspec(dllexport)
 #endif
     CLOSE_FILE(bx_grad)
   }
-  return 0;
+  return io_error;
 }
 
 #ifdef _WIN32
@@ -844,8 +845,9 @@ __declspec(dllexport)
 #endif
 
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #ifdef _OPENMP
@@ -949,7 +951,7 @@ __declspec(dllexport)
           (int64_t)shot_bytes_comp;                                          \
   if ((grad_cond) && ((t % step_ratio) == 0)) {                              \
     int64_t const step_idx = t / step_ratio;                                 \
-    STORAGE_FUNC(load_snapshot_cpu)(                                         \
+    io_error |= STORAGE_FUNC(load_snapshot_cpu)(                             \
         (void *)name##_store_1_t, name##_store_2_t, fp_##name, storage_mode, \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,   \
         DIM_ARGS);                                                           \
@@ -1211,7 +1213,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name)) io_error = 1;
 
     CLOSE_FILE(k_grad)
 #if DW_NDIM >= 3
@@ -1242,5 +1244,5 @@ __declspec(dllexport)
   }
 #endif /* _OPENMP */
 
-  return 0;
+  return io_error;
 }
diff --git a/src/deepwave/elastic.c b/src/deepwave/elastic.c
index 88d0dae..9968477 100644
--- a/src/deepwave/elastic.c
+++ b/src/deepwave/elastic.c
@@ -625,8 +625,9 @@ __declspec(dllexport)
   int64_t const pml_bounds_xh[] = {FD_PAD, pml_x0, MAX(pml_x0, pml_x1 - 1),
                                    nx - FD_PAD};
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -1236,7 +1237,7 @@ __declspec(dllexport)
 #define SAVE_SNAPSHOT(name, grad_cond)                                     \
   if (grad_cond) {                                                         \
     int64_t const step_idx = t / step_ratio;                               \
-    STORAGE_FUNC(save_snapshot_cpu)(                                       \
+    io_error |= STORAGE_FUNC(save_snapshot_cpu)(                           \
         name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
         DIM_ARGS);                                                         \
@@ -1258,7 +1259,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name)) io_error = 1;
 
 #if DW_NDIM >= 3
     CLOSE_FILE(dvzdbuoyancy)
@@ -1274,7 +1275,7 @@ __declspec(dllexport)
     CLOSE_FILE(dvxdbuoyancy)
     CLOSE_FILE(dvxdx)
   }
-  return 0;
+  return io_error;
 }
 
 #ifdef _WIN32
@@ -1529,8 +1530,9 @@ __declspec(dllexport)
   int64_t const pml_bounds_xh[] = {FD_PAD, pml_x0, MAX(pml_x0, pml_x1 - 1),
                                    nx - FD_PAD};
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -1661,7 +1663,7 @@ __declspec(dllexport)
           (int64_t)shot_bytes_comp;                                          \
   if ((grad_cond) && ((t % step_ratio) == 0)) {                              \
     int64_t const step_idx = t / step_ratio;                                 \
-    STORAGE_FUNC(load_snapshot_cpu)(                                         \
+    io_error |= STORAGE_FUNC(load_snapshot_cpu)(                             \
         (void *)name##_store_1_t, name##_store_2_t, fp_##name, storage_mode, \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,   \
         DIM_ARGS);                                                           \
@@ -2250,5 +2252,5 @@ __declspec(dllexport)
                          nx);
   }
 #endif /* _OPENMP */
-  return 0;
+  return io_error;
 }
diff --git a/src/deepwave/scalar.c b/src/deepwave/scalar.c
index 06505e2..5c014e0 100644
--- a/src/deepwave/scalar.c
+++ b/src/deepwave/scalar.c
@@ -231,8 +231,9 @@ __declspec(dllexport)
 #endif
         int64_t const pml_x1, int64_t const n_threads, void *unused) {
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -398,7 +399,7 @@ __declspec(dllexport)
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(save_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -410,9 +411,9 @@ __declspec(dllexport)
                             r + t * n_shots * n_receivers_per_shot + ri,
                             n_receivers_per_shot);
     }
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w)) io_error = 1;
   }
-  return 0;
+  return io_error;
 }
 
 #ifdef _WIN32
@@ -517,8 +518,9 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -589,7 +591,7 @@ __declspec(dllexport)
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -706,5 +708,5 @@ __declspec(dllexport)
     combine_grad(grad_v, grad_v_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return io_error;
 }
diff --git a/src/deepwave/scalar_born.c b/src/deepwave/scalar_born.c
index ce76acd..77ebcb1 100644
--- a/src/deepwave/scalar_born.c
+++ b/src/deepwave/scalar_born.c
@@ -282,8 +282,9 @@ __declspec(dllexport)
         int64_t const pml_x1, int64_t const n_threads, void *unused) {
   int64_t shot;
 
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -518,13 +519,13 @@ __declspec(dllexport)
       // Save Snapshots
       if (v_or_scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(save_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(save_snapshot_cpu)(
             wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
             storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,
             DIM_ARGS);
@@ -544,10 +545,10 @@ __declspec(dllexport)
                             n_receiverssc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
-    if (fp_wsc) fclose(fp_wsc);
+    if (fp_w && fclose(fp_w)) io_error = 1;
+    if (fp_wsc && fclose(fp_wsc)) io_error = 1;
   }
-  return 0;
+  return io_error;
 }
 
 #ifdef _WIN32
@@ -697,8 +698,9 @@ __declspec(dllexport)
 #endif
   int64_t shot;
 
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -827,14 +829,14 @@ __declspec(dllexport)
 
       if (v_requires_grad_t || scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(load_snapshot_cpu)(
             wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
             storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,
             DIM_ARGS);
@@ -988,7 +990,7 @@ __declspec(dllexport)
     combine_grad(grad_scatter, grad_scatter_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return io_error;
 }
 
 #ifdef _WIN32
@@ -1098,8 +1100,9 @@ __declspec(dllexport)
 #endif
   int64_t shot;
 
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -1179,7 +1182,7 @@ __declspec(dllexport)
 
       if (scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -1291,5 +1294,5 @@ __declspec(dllexport)
     combine_grad(grad_scatter, grad_scatter_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return io_error;
 }
diff --git a/src/deepwave/storage_utils.c b/src/deepwave/storage_utils.c
index 5f9a813..f703ba9 100644
--- a/src/deepwave/storage_utils.c
+++ b/src/deepwave/storage_utils.c
@@ -8,24 +8,24 @@
 
 #if defined(DW_NDIM) && defined(DW_DTYPE)
 
-void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
-                                     void* const store_2, FILE* const fp,
-                                     int64_t const storage_mode,
-                                     bool const use_compression,
-                                     int64_t const step_idx,
-                                     size_t const step_bytes_uncomp,
-                                     size_t const step_bytes_comp,
+int STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
+                                    void* const store_2, FILE* const fp,
+                                    int64_t const storage_mode,
+                                    bool const use_compression,
+                                    int64_t const step_idx,
+                                    size_t const step_bytes_uncomp,
+                                    size_t const step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx) {
+                                    size_t nx) {
   void const* source = store_1;
   size_t size_to_write = step_bytes_uncomp;
 
-  if (storage_mode == STORAGE_NONE) return;
+  if (storage_mode == STORAGE_NONE) return 0;
 
   if (use_compression) {
     SC_FUNC(compress_cpu)(store_1, store_2,
@@ -43,33 +43,38 @@ void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
   if (storage_mode == STORAGE_DISK) {
     // Append to file
     int64_t const offset = step_idx * (int64_t)size_to_write;
-    fseek(fp, offset, SEEK_SET);
-    fwrite(source, 1, size_to_write, fp);
+    if (fp == NULL || fseek(fp, offset, SEEK_SET) != 0 ||
+        fwrite(source, 1, size_to_write, fp) != size_to_write) {
+      return 1;
+    }
   }
+  return 0;
 }
 
-void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
-                                     FILE* const fp, int64_t const storage_mode,
-                                     bool const use_compression,
-                                     int64_t const step_idx,
-                                     size_t const step_bytes_uncomp,
-                                     size_t const step_bytes_comp,
+int STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
+                                    FILE* const fp, int64_t const storage_mode,
+                                    bool const use_compression,
+                                    int64_t const step_idx,
+                                    size_t const step_bytes_uncomp,
+                                    size_t const step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx) {
-  if (storage_mode == STORAGE_NONE) return;
+                                    size_t nx) {
+  if (storage_mode == STORAGE_NONE) return 0;
 
   if (storage_mode == STORAGE_DISK) {
     void* const read_dst = use_compression ? store_2 : store_1;
     size_t const size_to_read =
         use_compression ? step_bytes_comp : step_bytes_uncomp;
     int64_t const offset = step_idx * (int64_t)size_to_read;
-    fseek(fp, offset, SEEK_SET);
-    fread(read_dst, 1, size_to_read, fp);
+    if (fp == NULL || fseek(fp, offset, SEEK_SET) != 0 ||
+        fread(read_dst, 1, size_to_read, fp) != size_to_read) {
+      return 1;
+    }
   }
 
   if (use_compression) {
@@ -82,6 +87,7 @@ void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
 #endif
                           nx);
   }
+  return 0;
 }
 
 #endif
\ No newline at end of file
diff --git a/src/deepwave/storage_utils.h b/src/deepwave/storage_utils.h
index 0927968..9384342 100644
--- a/src/deepwave/storage_utils.h
+++ b/src/deepwave/storage_utils.h
@@ -20,18 +20,18 @@ extern "C" {
 #define SS_CAT(name, ndim, dtype) SS_CAT_I(name, ndim, dtype)
 #define STORAGE_FUNC(name) SS_CAT(name, DW_NDIM, DW_DTYPE)
 
-void STORAGE_FUNC(save_snapshot_cpu)(void const* store_1, void* store_2,
-                                     FILE* fp, int64_t storage_mode,
-                                     bool use_compression, int64_t step_idx,
-                                     size_t step_bytes_uncomp,
-                                     size_t step_bytes_comp,
+int STORAGE_FUNC(save_snapshot_cpu)(void const* store_1, void* store_2,
+                                    FILE* fp, int64_t storage_mode,
+                                    bool use_compression, int64_t step_idx,
+                                    size_t step_bytes_uncomp,
+                                    size_t step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx);
+                                    size_t nx);
 
 int STORAGE_FUNC(save_snapshot_gpu)(void const* store_1, void* store_2,
                                     void* store_3, FILE* fp,
@@ -46,17 +46,17 @@ int STORAGE_FUNC(save_snapshot_gpu)(void const* store_1, void* store_2,
 #endif
                                     size_t nx, void* stream);
 
-void STORAGE_FUNC(load_snapshot_cpu)(void* store_1, void* store_2, FILE* fp,
-                                     int64_t storage_mode, bool use_compression,
-                                     int64_t step_idx, size_t step_bytes_uncomp,
-                                     size_t step_bytes_comp,
+int STORAGE_FUNC(load_snapshot_cpu)(void* store_1, void* store_2, FILE* fp,
+                                    int64_t storage_mode, bool use_compression,
+                                    int64_t step_idx, size_t step_bytes_uncomp,
+                                    size_t step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx);
+                                    size_t nx);
 
 int STORAGE_FUNC(load_snapshot_gpu)(void* store_1, void* store_2, void* store_3,
                                     FILE* fp, int64_t storage_mode,
-- 
2.43.0


From 59823dd0682ecd96372eba80617a542df037f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 13/26] fix: avoid overflow when compressing snapshots of very
 small values

---
 src/deepwave/simple_compress.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/deepwave/simple_compress.c b/src/deepwave/simple_compress.c
index ef3d20f..afee12d 100644
--- a/src/deepwave/simple_compress.c
+++ b/src/deepwave/simple_compress.c
@@ -91,8 +91,13 @@ void SC_FUNC(compress_cpu)(void const *const input, void *const output,
         size_t const block_idx = bz * nby * nbx + by * nbx + bx;
         max_abs_vals[block_idx] = max_abs;
 
+        /* 127 / max_abs would overflow for smaller values */
+        DW_DTYPE const smallest =
+            (DW_DTYPE)127.0 / (sizeof(DW_DTYPE) == sizeof(float)
+                                   ? (DW_DTYPE)FLT_MAX
+                                   : (DW_DTYPE)DBL_MAX);
         DW_DTYPE const scale =
-            (max_abs > 0) ? ((DW_DTYPE)127.0 / max_abs) : 0;
+            (max_abs > smallest) ? ((DW_DTYPE)127.0 / max_abs) : 0;
 
         /* Quantize */
 #if DW_NDIM >= 3
-- 
2.43.0


From 92da46a6d35447e58936e544909cedf0be98a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 14/26] fix: include m_sigmaxxx_0 in elastic backward callbacks

---
 src/deepwave/elastic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index ba8127c..0383531 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1927,9 +1927,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         )
 
                 if backward_callback is not None:
-                    callback_wavefields = dict(
-                        zip(wavefield_names, grad_wavefields[:-1])
-                    )
+                    callback_wavefields = dict(zip(wavefield_names, grad_wavefields))
                     backward_callback(
                         deepwave.common.CallbackState(
                             dt,
-- 
2.43.0


From 6e3a4e9491ffb7f27d5258ee844da6de87b73608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 15/26] fix: zero Hicks weights on a free surface at the edge
 of the window

---
 src/deepwave/location_interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 7240193..6ae837a 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -85,7 +85,7 @@ def _get_hicks_for_one_location_dim(
                 )
             # The weights may be modified in place below, so store a copy
             hicks_weight_cache[key] = weights.clone()
-        if free_surface[0] and locations[0].item() < free_surface_loc[0]:
+        if free_surface[0] and locations[0].item() <= free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
             idx0 = math.ceil(free_surface_loc[0] - locations[0].item())
@@ -96,7 +96,7 @@ def _get_hicks_for_one_location_dim(
             flipped_weights = weights[:idx1].flip(0)
             weights[idx0 : idx0 + len(flipped_weights)] -= flipped_weights
             weights = weights[idx0:]
-        if free_surface[1] and locations[-1].item() > free_surface_loc[1]:
+        if free_surface[1] and locations[-1].item() >= free_surface_loc[1]:
             idx0 = (
                 len(weights) - 1 - math.ceil(locations[-1].item() - free_surface_loc[1])
             )
-- 
2.43.0


From baa9813f9a6206300e3351c232f93195b1330e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 16/26] fix: make padded wavefields contiguous whatever the
 memory format of the input

---
 src/deepwave/common.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 84da7b9..c2ec8d1 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2600,10 +2600,13 @@ def create_or_pad(
     if tensor.numel() == 0:
         return torch.zeros(size, device=device, dtype=dtype)
     if max(fd_pad) == 0:
-        return tensor.clone()
+        return tensor.clone(memory_format=torch.contiguous_format)
     reversed_fd_pad = reverse_pad(fd_pad)
-    return (torch.nn.functional.pad(tensor, reversed_fd_pad)).requires_grad_(
-        tensor.requires_grad
+    # pad preserves the memory format, so the result might not be contiguous
+    return (
+        torch.nn.functional.pad(tensor, reversed_fd_pad)
+        .contiguous()
+        .requires_grad_(tensor.requires_grad)
     )
 
 
-- 
2.43.0


From fddf7708145cbca0fa9962255d9dc9d2c56e58e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 17/26] fix: remove temporary storage on exit

---
 src/deepwave/common.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index c2ec8d1..afba0b2 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -5,12 +5,12 @@ Deepwave propagators. These functions handle tasks such as input validation,
 PML setup, and data preparation for wave propagation simulations.
 """
 
-import contextlib
 import ctypes
 import math
 import os
 import shutil
 import warnings
+import weakref
 from collections import abc
 from enum import IntEnum
 from pathlib import Path
@@ -58,6 +58,10 @@ class TemporaryStorage:
         """
         self.base_dir = Path(base_path) / f"deepwave_tmp_{os.getpid()}_{uuid4().hex}"
         self.base_dir.mkdir(parents=True, exist_ok=True)
+        # Runs on destruction, and on exit if that does not happen before
+        self._finalizer = weakref.finalize(
+            self, shutil.rmtree, self.base_dir, ignore_errors=True
+        )
         self.filenames: List[bytes] = []
 
         for i in range(num_files):
@@ -71,13 +75,7 @@ class TemporaryStorage:
 
     def close(self) -> None:
         """Close the storage and remove the temporary directory."""
-        if self.base_dir.exists():
-            with contextlib.suppress(OSError):
-                shutil.rmtree(self.base_dir)
-
-    def __del__(self) -> None:
-        """Destructor to ensure cleanup."""
-        self.close()
+        self._finalizer()
 
 
 class IntermediateStorage:
-- 
2.43.0


From 2ddcc7a29d62c745d9b4a70fbae1097f823d01ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 18/26] fix: use an absolute path for temporary storage

---
 src/deepwave/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index afba0b2..3fa866c 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -56,7 +56,10 @@ class TemporaryStorage:
             base_path: The base path for the temporary directory.
             num_files: The number of files to create.
         """
-        self.base_dir = Path(base_path) / f"deepwave_tmp_{os.getpid()}_{uuid4().hex}"
+        # Absolute, so that changing the working directory does not matter
+        self.base_dir = (
+            Path(base_path).absolute() / f"deepwave_tmp_{os.getpid()}_{uuid4().hex}"
+        )
         self.base_dir.mkdir(parents=True, exist_ok=True)
         # Runs on destruction, and on exit if that does not happen before
         self._finalizer = weakref.finalize(
-- 
2.43.0


From 9f7fb495787cde61d1cee6632a46a999ded22746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 19/26] fix: leave temporary storage in place when a forked
 copy is destroyed

---
 src/deepwave/common.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 3fa866c..ea67fc5 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -63,7 +63,7 @@ class TemporaryStorage:
         self.base_dir.mkdir(parents=True, exist_ok=True)
         # Runs on destruction, and on exit if that does not happen before
         self._finalizer = weakref.finalize(
-            self, shutil.rmtree, self.base_dir, ignore_errors=True
+            self, self._remove, self.base_dir, os.getpid()
         )
         self.filenames: List[bytes] = []
 
@@ -76,6 +76,12 @@ class TemporaryStorage:
         """Return a pointer to the array of filenames."""
         return self.filenames_ptr
 
+    @staticmethod
+    def _remove(base_dir: Path, owner: int) -> None:
+        """Remove the directory, unless in a forked copy of its owner."""
+        if os.getpid() == owner:
+            shutil.rmtree(base_dir, ignore_errors=True)
+
     def close(self) -> None:
         """Close the storage and remove the temporary directory."""
         self._finalizer()
-- 
2.43.0


From 837df69014bcc8e38412967b39e05930e3380bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 20/26] fix: do not make padded wavefields require gradients

---
 src/deepwave/common.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index ea67fc5..7f98547 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2610,11 +2610,7 @@ def create_or_pad(
         return tensor.clone(memory_format=torch.contiguous_format)
     reversed_fd_pad = reverse_pad(fd_pad)
     # pad preserves the memory format, so the result might not be contiguous
-    return (
-        torch.nn.functional.pad(tensor, reversed_fd_pad)
-        .contiguous()
-        .requires_grad_(tensor.requires_grad)
-    )
+    return torch.nn.functional.pad(tensor, reversed_fd_pad).contiguous()
 
 
 def zero_interior(
-- 
2.43.0


From 1dac0044b034dbebe574066b9687765389683d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 21/26] fix: Hicks rejects dipole dimensions other than 0 and 1
 and locations without two coordinates

---
 src/deepwave/location_interpolation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 6ae837a..230e425 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -309,6 +309,8 @@ class Hicks:
             raise TypeError("locations must be a torch.Tensor.")
         if locations.ndim != 3:
             raise RuntimeError("locations must have three dimensions.")
+        if locations.shape[2] != 2:
+            raise RuntimeError("locations must have dimensions [shot, per_shot, 2].")
         if not isinstance(dtype, torch.dtype):
             raise TypeError("dtype must be a torch.dtype.")
         if not isinstance(halfwidth, int):
@@ -359,6 +361,13 @@ class Hicks:
             or dipole_dim.shape[1] != locations.shape[1]
         ):
             raise RuntimeError("dipole_dim must have dimensions [shot, per_shot]")
+        dipole_dims = torch.as_tensor(dipole_dim)
+        if not (
+            torch.as_tensor(monopole).to(dipole_dims.device).bool()
+            | (dipole_dims == 0)
+            | (dipole_dims == 1)
+        ).all():
+            raise RuntimeError("dipole_dim of dipoles must be 0 or 1")
         betas = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]
         beta = torch.tensor(betas[halfwidth - 1]).to(dtype).to(locations.device)
         self.locations = locations
-- 
2.43.0


From 33d4091b495fd1f365ae0151687395a661fbde96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 22/26] fix: the Python backend of the acoustic propagator
 rejects storage compression like the others

---
 src/deepwave/acoustic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 34a5853..dfc601c 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1370,6 +1370,10 @@ def acoustic_python(
         raise RuntimeError(
             "Specifying storage mode is not supported in Python backend."
         )
+    if storage_compression:
+        raise RuntimeError(
+            "Storage compression is not supported in the Python backend."
+        )
 
     is_batched = any(deepwave.common.is_inside_vmap(x) for x in args)
     ndim = len(grid_spacing)
-- 
2.43.0


From c2984f70d5936267c639db54c272b689faa5c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 23/26] fix: up/downsampling zeroes the Nyquist frequency also
 when the taper is shorter than one sample

---
 src/deepwave/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 7f98547..e56b56b 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1350,8 +1350,8 @@ def upsample(
     nt = signal.shape[-1]
     up_nt = nt * step_ratio
     signal_f = torch.fft.rfft(signal, norm="ortho") * math.sqrt(step_ratio)
-    if freq_taper_frac > 0.0:
-        freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    if freq_taper_len > 0:
         signal_f = cosine_taper_end(signal_f, freq_taper_len)
     elif signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
@@ -1442,8 +1442,8 @@ def downsample(
     nt = signal.shape[-1]
     down_nt = nt // step_ratio
     signal_f = torch.fft.rfft(signal, norm="ortho")[..., : down_nt // 2 + 1]
-    if freq_taper_frac > 0.0:
-        freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    if freq_taper_len > 0:
         signal_f = cosine_taper_end(signal_f, freq_taper_len)
     elif signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
-- 
2.43.0


From 4810929e455495c51b4c2c93d320a16c2c8e1ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 24/26] fix: amplitudes of ignored sources do not reach the
 gradients of the models

---
 src/deepwave/common.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index e56b56b..a0ad977 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -611,6 +611,14 @@ def setup_propagator(
             dtype,
         )
     )
+    # Ignored sources are not used, but their amplitudes must not reach the
+    # gradients of the models that the amplitudes are multiplied by
+    source_amplitudes_out = [
+        amplitudes.masked_fill(locations == IGNORE_LOCATION, 0)
+        if amplitudes.numel() > 0
+        else amplitudes
+        for amplitudes, locations in zip(source_amplitudes_out, source_locations_out)
+    ]
     return (
         models_out,
         source_amplitudes_out,
-- 
2.43.0


From daaa921b76469e305d65254046ac6bd4f3e71177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 25/26] fix: compute resampling windows and shifts in the
 signal's dtype

They were created in PyTorch's default dtype. With torch.set_default_dtype(torch.float64),
single precision propagation with an internal time step smaller than dt and time_taper
passed double precision source amplitudes to the single precision backend.
---
 src/deepwave/common.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index a0ad977..fbcc665 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1237,7 +1237,11 @@ def cosine_taper_end(signal: torch.Tensor, n_taper: int) -> torch.Tensor:
     if n_taper > 0:
         taper_values = (
             torch.cos(
-                torch.arange(1, n_taper + 1, device=signal.device) / n_taper * math.pi
+                torch.arange(
+                    1, n_taper + 1, device=signal.device, dtype=signal.real.dtype
+                )
+                / n_taper
+                * math.pi
             )
             + 1
         ).to(signal.dtype) / 2
@@ -1374,6 +1378,7 @@ def upsample(
             signal.shape[-1],
             periodic=False,
             device=signal.device,
+            dtype=signal.dtype,
         )
     return signal
 
@@ -1439,6 +1444,7 @@ def downsample(
             signal.shape[-1],
             periodic=False,
             device=signal.device,
+            dtype=signal.dtype if signal.is_floating_point() else None,
         )
     n_time_pad = (
         int(time_pad_frac * (signal.shape[-1] // step_ratio))
@@ -1456,9 +1462,9 @@ def downsample(
     elif signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
     if shift != 0.0:
-        freqs = torch.fft.rfftfreq(signal.shape[-1], device=signal.device)[
-            : down_nt // 2 + 1
-        ]
+        freqs = torch.fft.rfftfreq(
+            signal.shape[-1], device=signal.device, dtype=signal_f.real.dtype
+        )[: down_nt // 2 + 1]
         signal_f *= torch.exp(-1j * 2 * math.pi * freqs * shift)
     signal = torch.fft.irfft(signal_f, n=down_nt, norm="ortho") / math.sqrt(step_ratio)
     if n_time_pad > 0:
-- 
2.43.0


From 84c862cf64499274c9f1855fd3e5d7b417735886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 26/26] fix: create the Kaiser window parameter of Hicks in the
 requested dtype

It was rounded to PyTorch's default dtype first.
---
 src/deepwave/location_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 230e425..db08d5b 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -369,7 +369,7 @@ class Hicks:
         ).all():
             raise RuntimeError("dipole_dim of dipoles must be 0 or 1")
         betas = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]
-        beta = torch.tensor(betas[halfwidth - 1]).to(dtype).to(locations.device)
+        beta = torch.tensor(betas[halfwidth - 1], dtype=dtype, device=locations.device)
         self.locations = locations
         self.hicks_locations, self.idxs, self.weights = (
             _get_hicks_locations_and_weights(
-- 
2.43.0

