From e3e44893354bf13571853086652d46804ce4c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 01/60] fix: fixed-value weight clipping must not push a weight
 outside its device bounds

---
 src/rpucuda/rpu_pulsed_device.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index bb4ae5c..8e73ece 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -459,8 +459,9 @@ template <typename T> void PulsedRPUDevice<T>::clipWeights(T **weights, T clip)
   } else {
     PRAGMA_SIMD
     for (int i = 0; i < this->size_; ++i) {
-      w[i] = MIN(w[i], MIN(max_bound[i], clip));
-      w[i] = MAX(w[i], MAX(min_bound[i], -clip));
+      w[i] = MIN(MAX(w[i], -clip), clip);
+      w[i] = MIN(w[i], max_bound[i]);
+      w[i] = MAX(w[i], min_bound[i]);
     }
   }
   applyUpdateWriteNoise(weights);
-- 
2.43.0


From dfe9d446bb4aaf898c911d0374e0372cc5d2b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 02/60] fix: voltage offsets must be drawn once (MAX evaluated
 the draw twice, giving negative offsets)

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 329d62b..27221e6 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -259,7 +259,8 @@ void ForwardBackwardPassIOManaged<T>::populateFBParameter(
     if ((mv_pars.v_offset.size() != out_size) && io.hasVoltageOffsets()) {
       mv_pars.v_offset.resize(out_size);
       for (size_t i = 0; i < out_size; i++) {
-        mv_pars.v_offset[i] = MAX(io.v_offset_std * rng_->sampleGauss(), (T)0.0);
+        T v_offset = io.v_offset_std * rng_->sampleGauss(); // one draw: MAX evaluates twice
+        mv_pars.v_offset[i] = MAX(v_offset, (T)0.0);
       }
     }
 
-- 
2.43.0


From 0514d395b4903241430294a16fbad4e971820317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 03/60] fix: a negative output must not hide an earlier clipped
 positive output from bound management

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 27221e6..68a0eef 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -706,7 +706,9 @@ inline bool finalizeOutputImplStage5(ARGS) {
         bound_test_passed = false;
       } else if (value < -bound) {
         value = -bound;
-        bound_test_passed = !io.bm_test_negative_bound;
+        if (io.bm_test_negative_bound) {
+          bound_test_passed = false;
+        }
       }
     } else {
       value = value > bound ? bound : value;
-- 
2.43.0


From a19cd4c275030c37f18222c26effdd296f15942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 04/60] fix: copying a forward/backward pass keeps its running
 input average

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 68a0eef..39fa6f2 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -205,6 +205,7 @@ ForwardBackwardPassIOManaged<T>::ForwardBackwardPassIOManaged(
   f_io_ = other.f_io_;
   b_io_ = other.b_io_;
   checked_implemented_ = other.checked_implemented_;
+  aux_nm_value_ = other.aux_nm_value_;
   rng_ = other.rng_;
 }
 
@@ -235,6 +236,7 @@ ForwardBackwardPassIOManaged<T>::operator=(ForwardBackwardPassIOManaged<T> &&oth
   f_io_ = other.f_io_;
   b_io_ = other.b_io_;
   checked_implemented_ = other.checked_implemented_;
+  aux_nm_value_ = other.aux_nm_value_;
   rng_ = std::move(other.rng_);
 
   return *this;
-- 
2.43.0


From 08567253714eb9af8621e992be0d0b4ac7ef9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 05/60] fix: swapping forward/backward passes swaps the running
 input average too

---
 src/rpucuda/rpu_forward_backward_pass.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpucuda/rpu_forward_backward_pass.h b/src/rpucuda/rpu_forward_backward_pass.h
index e4bb949..4ec5d0a 100644
--- a/src/rpucuda/rpu_forward_backward_pass.h
+++ b/src/rpucuda/rpu_forward_backward_pass.h
@@ -106,6 +106,7 @@ public:
     swap(a.f_io_, b.f_io_);
     swap(a.b_io_, b.b_io_);
     swap(a.checked_implemented_, b.checked_implemented_);
+    swap(a.aux_nm_value_, b.aux_nm_value_);
     swap(a.rng_, b.rng_);
 
     // others are tmps so far
-- 
2.43.0


From dacc34c843f6c3f45de8c12ad71661cf368fadef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 06/60] fix: forward and backward noise management must not
 share one running input average

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 7 ++++++-
 src/rpucuda/rpu_forward_backward_pass.h   | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 39fa6f2..83afb63 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -206,6 +206,7 @@ ForwardBackwardPassIOManaged<T>::ForwardBackwardPassIOManaged(
   b_io_ = other.b_io_;
   checked_implemented_ = other.checked_implemented_;
   aux_nm_value_ = other.aux_nm_value_;
+  aux_nm_value_bwd_ = other.aux_nm_value_bwd_;
   rng_ = other.rng_;
 }
 
@@ -237,6 +238,7 @@ ForwardBackwardPassIOManaged<T>::operator=(ForwardBackwardPassIOManaged<T> &&oth
   b_io_ = other.b_io_;
   checked_implemented_ = other.checked_implemented_;
   aux_nm_value_ = other.aux_nm_value_;
+  aux_nm_value_bwd_ = other.aux_nm_value_bwd_;
   rng_ = std::move(other.rng_);
 
   return *this;
@@ -1006,7 +1008,7 @@ void ForwardBackwardPassIOManaged<T>::backwardVector(
   // io managed version
   b_io_.bound_management = BoundManagementType::None; // not supported
   T nm_scale_value = computeNoiseManagement(
-      d_input, this->d_size_, d_inc, b_io_.noise_management, aux_nm_value_, b_io_);
+      d_input, this->d_size_, d_inc, b_io_.noise_management, aux_nm_value_bwd_, b_io_);
   bool nm = b_io_.noise_management != NoiseManagementType::None;
   T out_scale = b_io_.out_scale * alpha;
   bool scaling = nm && nm_scale_value > (T)0.0;
@@ -1039,6 +1041,7 @@ void ForwardBackwardPassIOManaged<T>::dumpExtra(RPU::state_t &extra, const std::
 
   RPU::state_t state;
   RPU::insert(state, "aux_nm_value", aux_nm_value_);
+  RPU::insert(state, "aux_nm_value_bwd", aux_nm_value_bwd_);
   RPU::insertWithPrefix(extra, state, prefix);
 }
 
@@ -1050,6 +1053,8 @@ void ForwardBackwardPassIOManaged<T>::loadExtra(
 
   auto state = RPU::selectWithPrefix(extra, prefix);
   RPU::load(state, "aux_nm_value", aux_nm_value_, strict);
+  // not strict: absent in states saved by earlier versions
+  RPU::load(state, "aux_nm_value_bwd", aux_nm_value_bwd_, false);
 }
 
 template class ForwardBackwardPassIOManaged<float>;
diff --git a/src/rpucuda/rpu_forward_backward_pass.h b/src/rpucuda/rpu_forward_backward_pass.h
index 4ec5d0a..575d3f6 100644
--- a/src/rpucuda/rpu_forward_backward_pass.h
+++ b/src/rpucuda/rpu_forward_backward_pass.h
@@ -107,6 +107,7 @@ public:
     swap(a.b_io_, b.b_io_);
     swap(a.checked_implemented_, b.checked_implemented_);
     swap(a.aux_nm_value_, b.aux_nm_value_);
+    swap(a.aux_nm_value_bwd_, b.aux_nm_value_bwd_);
     swap(a.rng_, b.rng_);
 
     // others are tmps so far
@@ -239,7 +240,8 @@ private:
 
   T **neg_weights_ = nullptr;
 
-  T aux_nm_value_ = -1.0;
+  T aux_nm_value_ = -1.0;     // running input average of the forward pass
+  T aux_nm_value_bwd_ = -1.0; // and of the backward pass
   IOMetaParameter<T> f_io_;
   IOMetaParameter<T> b_io_;
   bool checked_implemented_ = false;
-- 
2.43.0


From faf3e930d8af91265f679ca2e07728c0fa314fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 07/60] fix: pulsed updates without bit trains honour the sign
 of the learning rate

---
 src/rpucuda/dense_bit_line_maker.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/dense_bit_line_maker.cpp b/src/rpucuda/dense_bit_line_maker.cpp
index c66f0be..8a68284 100644
--- a/src/rpucuda/dense_bit_line_maker.cpp
+++ b/src/rpucuda/dense_bit_line_maker.cpp
@@ -303,9 +303,9 @@ int *DenseBitLineMaker<T>::makeCoincidences(
     // x counts
     generateCountsMean(
         x_counts_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.res, up.sto_round, lr);
-    // d counts
+    // d counts (the sign of the learning rate is already in the x counts)
     generateCountsMean(
-        d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round, lr);
+        d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round, (T)1.0);
 
     generateCoincidences(coincidences_, x_counts_, x_size_, d_counts_, d_size_, BL);
     break;
@@ -317,9 +317,10 @@ int *DenseBitLineMaker<T>::makeCoincidences(
     generateDetImplicit(
         x_values_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.x_res_implicit, up.sto_round, lr);
 
-    // d counts
+    // d counts (the sign of the learning rate is already in the x counts)
     generateDetImplicit(
-        d_values_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round, lr);
+        d_values_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round,
+        (T)1.0);
 
     generateCoincidencesDetI(coincidences_, x_values_, x_size_, d_values_, d_size_, BL);
   } break;
-- 
2.43.0


From ccf1a6685cf313b7a6085c32f821b9daa1254bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 08/60] fix: update resolutions given as a number of steps are
 converted to bin widths

---
 src/rpucuda/rpu_pulsed_meta_parameter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_meta_parameter.cpp b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
index 8bff996..a0b9590 100644
--- a/src/rpucuda/rpu_pulsed_meta_parameter.cpp
+++ b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
@@ -139,9 +139,9 @@ template <typename T> void PulsedUpdateMetaParameter<T>::initialize() {
     // always turn on UM for UBL management
     update_management = update_management || update_bl_management;
 
-    detail::checkRes(res);
-    detail::checkRes(x_res_implicit);
-    detail::checkRes(d_res_implicit);
+    res = detail::checkRes(res);
+    x_res_implicit = detail::checkRes(x_res_implicit);
+    d_res_implicit = detail::checkRes(d_res_implicit);
   }
 
   if (_currently_tuning) {
-- 
2.43.0


From cccd12d6fea89ac872fc9adb4e66824be33df7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 09/60] fix: set_mapping_scales with a float must also apply
 when scales already exist

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 4747399..76f287d 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -524,7 +524,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if isinstance(mapping_scales, float):
             if self.mapping_scales is None:
                 self.mapping_scales = ones((1,), dtype=self.get_dtype(), device=self.device)
-                self.mapping_scales[:] = mapping_scales
+            self.mapping_scales[:] = mapping_scales
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-- 
2.43.0


From 4670c2de20276a0525fd25a784e7eab4dc1bb98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 10/60] fix: program_weights must work with reference weights
 and with given x_values

---
 src/aihwkit/simulator/tiles/periphery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 76f287d..810e6a4 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -278,12 +278,12 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         if not from_reference or self.reference_combined_weights is None:
             self.reference_combined_weights = self.tile.get_weights()
-            target_weights = self.reference_combined_weights
+        target_weights = self.reference_combined_weights
 
         if x_values is None:
             x_values = eye(self.tile.get_x_size())
-            x_values = x_values.to(self.device)
-            target_values = x_values @ target_weights.to(self.device).T
+        x_values = x_values.to(self.device)
+        target_values = x_values @ target_weights.to(self.device).T
 
         target_max = target_values.abs().max().item()
         if isinstance(w_init, Tensor):
-- 
2.43.0


From 81c53bc36d14449dde1c75cce88091e9e10f0bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 11/60] fix: uniform random weights of the custom tile must lie
 in the requested range

---
 src/aihwkit/simulator/tiles/custom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index 22c19b4..c30bf67 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -213,7 +213,7 @@ class CustomSimulatorTile(SimulatorTile, Module):
         """
         if bmin >= bmax:
             raise TileError("Bmin should be smaller than bmax")
-        self.set_weights(rand_like(self.get_weights()) / (bmax - bmin) - bmin)
+        self.set_weights(rand_like(self.get_weights()) * (bmax - bmin) + bmin)
 
     def get_meta_parameters(self) -> Any:
         """Returns meta parameters."""
-- 
2.43.0


From cac2e335c373966eb31854c4b9c7ae0409830f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 12/60] fix: out_noise_std must scale the output-to-output
 noise variation of the torch tile

---
 src/aihwkit/simulator/tiles/torch_tile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 6bae2a2..b654d2b 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -62,7 +62,9 @@ class TorchSimulatorTile(SimulatorTile, Module):
         self._modifier = rpu_config.modifier
         dtype = rpu_config.runtime.data_type.as_torch()
         if self._f_io.out_noise_std > 0:
-            out_noise_values = (self._f_io.out_noise * (1.0 + randn((d_size,), dtype=dtype))).abs()
+            out_noise_values = (
+                self._f_io.out_noise * (1.0 + self._f_io.out_noise_std * randn((d_size,), dtype=dtype))
+            ).abs()
             self.register_buffer("out_noise_values", out_noise_values)
         else:
             self.out_noise_values = None
-- 
2.43.0


From 62cb0083191bda048fc5f4df305bc35a5b595963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 13/60] fix: the input range gradient_scale must not depend on
 gradient_relative

---
 src/aihwkit/simulator/tiles/inference_torch.py | 2 +-
 src/aihwkit/simulator/tiles/periphery.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 305e6b6..966e40b 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -56,7 +56,7 @@ class InputRangeForward(Function):
 
             if ir_params.gradient_relative:
                 ir_grad *= input_range
-                ir_grad *= ir_params.gradient_scale
+            ir_grad *= ir_params.gradient_scale
 
             if ir_params.manage_output_clipping:
                 raise NotImplementedError
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 810e6a4..7d2e382 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1123,7 +1123,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
             if ir_params.gradient_relative:
                 grad *= self.input_range
-                grad *= ir_params.gradient_scale
+            grad *= ir_params.gradient_scale
 
             zero_grad_msk = (
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
-- 
2.43.0


From eb178ae703b9841f8a42043b927e6be24829a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 14/60] fix: a perfect forward pass has no output bound to mask
 gradients with

---
 src/aihwkit/simulator/tiles/rpucuda.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/rpucuda.py b/src/aihwkit/simulator/tiles/rpucuda.py
index 639a925..be218e8 100644
--- a/src/aihwkit/simulator/tiles/rpucuda.py
+++ b/src/aihwkit/simulator/tiles/rpucuda.py
@@ -120,7 +120,11 @@ class RPUCudaSimulatorTileWrapper(SimulatorTileWrapper):
         """Helper for getting the output bound to correct the
         gradients using the AnalogFunction.
         """
-        if hasattr(self.rpu_config, "forward") and self.rpu_config.forward.out_bound > 0:
+        if (
+            hasattr(self.rpu_config, "forward")
+            and not self.rpu_config.forward.is_perfect
+            and self.rpu_config.forward.out_bound > 0
+        ):
             return self.rpu_config.forward.out_scale * self.rpu_config.forward.out_bound * 0.999
         return None
 
-- 
2.43.0


From 138f4abcb72341ad3d53f488f710446e8fed56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:23 +0000
Subject: [PATCH 15/60] fix: convolutions must recompute their fold indices
 when the image shape changes

---
 src/aihwkit/nn/modules/conv.py        | 12 +++++-------
 src/aihwkit/nn/modules/conv_mapped.py |  9 ++++-----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv.py b/src/aihwkit/nn/modules/conv.py
index 6859e95..a2d25ae 100644
--- a/src/aihwkit/nn/modules/conv.py
+++ b/src/aihwkit/nn/modules/conv.py
@@ -10,7 +10,7 @@
 
 from typing import Optional, Tuple, Union, List, Type
 
-from torch import Tensor, arange, cat, float64, int32, ones
+from torch import Size, Tensor, arange, cat, float64, int32, ones
 from torch.autograd import no_grad
 from torch.nn.functional import pad, unfold
 from torch.nn.modules.conv import _ConvNd, Conv1d, Conv2d, Conv3d
@@ -91,7 +91,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
             self.use_indexed = False
 
         self.fold_indices = Tensor().detach()
-        self.input_size = 0
+        self.input_size = Size()
         self.tensor_view = (-1,)  # type: Tuple[int, ...]
 
         # Unregister weight/bias as a parameter but keep it for syncs
@@ -128,9 +128,8 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
     def _recalculate_indexes(self, x_input: Tensor) -> None:
         """Calculate and set the indexes of the analog tile."""
 
-        self.fold_indices, image_sizes, self.input_size = self._calculate_indexes(
-            x_input, self.in_channels
-        )
+        self.fold_indices, image_sizes, _ = self._calculate_indexes(x_input, self.in_channels)
+        self.input_size = x_input.shape[1:]
         self.analog_module.set_indexed(self.fold_indices, image_sizes)
 
     @no_grad()
@@ -164,8 +163,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
         if not use_indexed and self.NEEDS_INDEXED:
             raise ModuleError("Tile module does not support indexed computation.")
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not self.analog_module.is_indexed():
+            if self.input_size != x_input.shape[1:] or not self.analog_module.is_indexed():
                 self._recalculate_indexes(x_input)
             return self.analog_module(x_input, tensor_view=self.tensor_view)
 
diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 65caa2f..f65ba0a 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -10,7 +10,7 @@
 
 from typing import Optional, Tuple, Union, List, Type, Any
 
-from torch import Tensor, arange, cat, float64, int32, split, no_grad
+from torch import Size, Tensor, arange, cat, float64, int32, split, no_grad
 from torch.nn.functional import pad, unfold
 from torch.nn.modules.conv import _ConvNd, Conv1d, Conv2d, Conv3d
 from torch.nn.modules.utils import _single, _pair, _triple
@@ -109,7 +109,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
             self.use_indexed = True
         self.use_indexed = self.use_indexed and analog_tile.supports_indexed
 
-        self.input_size = 0
+        self.input_size = Size()
         self.fold_indices_lst = []  # type: List[Tensor]
         self.tensor_view = (-1,)  # type: Tuple[int, ...]
 
@@ -194,7 +194,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
             dimensional
 
         """
-        self.input_size = x_input.numel() / x_input.size(0)
+        self.input_size = x_input.shape[1:]
         if x_input.ndim < 3:
             raise ModuleError("Expect >2-dim inputs to convolutions")
         channel_dim = 1
@@ -234,8 +234,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
         use_indexed = self.use_indexed and analog_tile.supports_indexed
 
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not analog_tile.is_indexed():
+            if self.input_size != x_input.shape[1:] or not analog_tile.is_indexed():
                 self._recalculate_indexes(x_input)
 
         if self.analog_tile_count() == 1:
-- 
2.43.0


From 589774dad32928e8e5009702a8bea17cf07efe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 16/60] fix: the output clipping percentage must be relative to
 the number of outputs

---
 src/aihwkit/simulator/tiles/periphery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 7d2e382..7188c02 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1129,7 +1129,9 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
             )
             if ir_params.manage_output_clipping and zero_grad_msk is not None:
-                output_percentage = 1.0 - zero_grad_msk.count_nonzero().item() / d_output.numel()
+                output_percentage = (
+                    1.0 - zero_grad_msk.count_nonzero().item() / zero_grad_msk.numel()
+                )
                 grad -= (
                     (1.0 - output_percentage)
                     * self.input_range
-- 
2.43.0


From a3578d670b3ccd724dff05250ff5c893c7038637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 17/60] fix: an ideal forward pass has no output bound to mask
 gradients with

---
 src/aihwkit/simulator/tiles/rpucuda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/rpucuda.py b/src/aihwkit/simulator/tiles/rpucuda.py
index be218e8..279c300 100644
--- a/src/aihwkit/simulator/tiles/rpucuda.py
+++ b/src/aihwkit/simulator/tiles/rpucuda.py
@@ -16,6 +16,7 @@ from torch.autograd import no_grad
 
 from aihwkit.exceptions import CudaError
 from aihwkit.simulator.parameters.base import RPUConfigGeneric
+from aihwkit.simulator.parameters.enums import AnalogMVType
 from aihwkit.simulator.rpu_base import cuda, tiles
 from aihwkit.simulator.tiles.base import SimulatorTileWrapper
 from aihwkit.exceptions import ArgumentError
@@ -123,6 +124,7 @@ class RPUCudaSimulatorTileWrapper(SimulatorTileWrapper):
         if (
             hasattr(self.rpu_config, "forward")
             and not self.rpu_config.forward.is_perfect
+            and self.rpu_config.forward.mv_type != AnalogMVType.IDEAL
             and self.rpu_config.forward.out_bound > 0
         ):
             return self.rpu_config.forward.out_scale * self.rpu_config.forward.out_bound * 0.999
-- 
2.43.0


From 3fb93eeefe795afad39c3a847d666419c31c14b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:56 +0000
Subject: [PATCH 18/60] fix: reading weights with given inputs must work with
 an analog bias

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 7188c02..f8ad9d4 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -416,7 +416,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         # calculate pseudo inverse (with bias, if necessary)
         if self.analog_bias:
-            ones_column = ones(self.in_size * over_sampling, 1, device=self.device, dtype=dtype)
+            ones_column = ones(x_values.size(0), 1, device=self.device, dtype=dtype)
             x_values = cat([x_values, ones_column], axis=1)
 
         est_weight = lstsq(x_values, y_values).solution.T.cpu()  # pylint: disable=not-callable
-- 
2.43.0


From 6574fbbb0f57722eaa3d1b31b71ad56d58a9f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 19/60] fix: noise models must keep a given reference for the
 programming coefficients

---
 src/aihwkit/inference/noise/hermes.py | 3 ++-
 src/aihwkit/inference/noise/pcm.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/inference/noise/hermes.py b/src/aihwkit/inference/noise/hermes.py
index c7a84ff..8ed8c51 100644
--- a/src/aihwkit/inference/noise/hermes.py
+++ b/src/aihwkit/inference/noise/hermes.py
@@ -133,7 +133,8 @@ class HermesNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 20.7 or 10.35 uS. Need to
diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index fbaa4c5..e121326 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -81,7 +81,8 @@ class PCMLikeNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 25.0 uS. Need to
-- 
2.43.0


From 994064b8c488da0f6090233a8603fefb19842e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 20/60] fix: ReRamWan2022NoiseModel must refer its coefficients
 to the reference conductance

---
 src/aihwkit/inference/noise/reram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index d154953..9f38765 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -80,7 +80,8 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if coeff_g_max_reference is None:
-            self.coeff_g_max_reference = self.g_max
+            coeff_g_max_reference = self.g_max
+        self.coeff_g_max_reference = coeff_g_max_reference
 
         if coeff_dic is None:
             # standard g_max are defined in respect to 40.0 uS. Need to
@@ -91,7 +92,7 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
                 3600 * 24.0: [-16.458, 47.095, -50.773, 22.086, 0.701][::-1],
                 3600 * 24.0 * 2: [-11.934, 37.062, -43.507, 20.274, 0.782][::-1],
             }
-            self.prog_coeff_g_max_reference = 40.0
+            self.coeff_g_max_reference = 40.0
         self.coeff_dic = coeff_dic
         self.noise_scale = noise_scale
 
-- 
2.43.0


From f4a42eff02b5565445acc4a5aeea5334def7d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 21/60] fix: apply_noise must return the programmed weights
 when there is no drift time

---
 src/aihwkit/inference/noise/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/inference/noise/base.py b/src/aihwkit/inference/noise/base.py
index b20bf89..0e0b3ef 100644
--- a/src/aihwkit/inference/noise/base.py
+++ b/src/aihwkit/inference/noise/base.py
@@ -63,9 +63,8 @@ class BaseNoiseModel:
             g_prog = self.apply_programming_noise_to_conductance(g_target)
             if t_inference > 0:
                 nu_drift = self.generate_drift_coefficients(g_target)
-                noisy_conductances.append(
-                    self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
-                )
+                g_prog = self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
+            noisy_conductances.append(g_prog)
 
         noisy_weights = self.g_converter.convert_back_to_weights(noisy_conductances, params)
 
-- 
2.43.0


From dc41f368a1b5e0fec38ad457e441fefe9eb3f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 22/60] fix: SingleDeviceConductanceConverter must convert
 matrices of equal weights

---
 src/aihwkit/inference/converter/conductance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/conductance.py b/src/aihwkit/inference/converter/conductance.py
index bf19ea0..f1c79c6 100644
--- a/src/aihwkit/inference/converter/conductance.py
+++ b/src/aihwkit/inference/converter/conductance.py
@@ -376,7 +376,7 @@ class SingleDeviceConductanceConverter(BaseConductanceConverter):
     def convert_to_conductances(self, weights: Tensor) -> Tuple[List[Tensor], Dict]:
         w_min = weights.min()
         w_max = weights.max()
-        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min)
+        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min).clamp(min=_ZERO_CLIP)
         scaled_weights = (weights - w_min) * scale_ratio
         conductance = scaled_weights + self.g_min
         params = {"scale_ratio": scale_ratio, "min": w_min}
-- 
2.43.0


From 141ab4c82778eef7d75b7bb4d60c00e66766e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 23/60] fix: the fusion converter must return rows of equal
 weights unchanged

---
 src/aihwkit/inference/converter/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/fusion.py b/src/aihwkit/inference/converter/fusion.py
index b85cc10..0b5c776 100644
--- a/src/aihwkit/inference/converter/fusion.py
+++ b/src/aihwkit/inference/converter/fusion.py
@@ -68,7 +68,7 @@ class FusionConductanceConverter(BaseConductanceConverter):
 
         weights = conductances[0] * sign(params["original_weights"])
         for col in range(weights.shape[0]):
-            reg = LinearRegression().fit(
+            reg = LinearRegression(fit_intercept=False).fit(
                 weights[col].flatten().numpy().reshape(-1, 1),
                 params["original_weights"][col].flatten().numpy().reshape(-1, 1),
             )
-- 
2.43.0


From 761e07c76d8d82b670c5295825bae33d9e654b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 24/60] fix: NPairConductanceConverter must refuse any negative
 factor

---
 src/aihwkit/inference/converter/conductance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/conductance.py b/src/aihwkit/inference/converter/conductance.py
index f1c79c6..c6e5260 100644
--- a/src/aihwkit/inference/converter/conductance.py
+++ b/src/aihwkit/inference/converter/conductance.py
@@ -110,7 +110,7 @@ class NPairConductanceConverter(BaseConductanceConverter):
         if not isinstance(f_lst, list):
             raise ValueError("f_lst parameter must be a list of F factors")
 
-        if max(f_lst) < 0.0:
+        if min(f_lst) < 0.0:
             raise ValueError("f_lst parameter contains negative value")
 
         self.g_max = 25.0 if g_max is None else g_max
-- 
2.43.0


From c99ec0d173c1c835a4a050d3d9b747c84b34c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:19 +0000
Subject: [PATCH 25/60] fix: remapping zero weights in the torch tile must not
 divide by zero

---
 src/aihwkit/simulator/tiles/torch_tile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index b654d2b..273fec2 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -130,10 +130,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
+            new_scale[new_scale <= 0.0] = 1.0
             self.weight.data = scaled_weights / new_scale
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
+            new_scale[new_scale <= 0.0] = 1.0
             self.weight.data = scaled_weights / new_scale.view(-1, 1)
             return new_scale
 
-- 
2.43.0


From 269ed28e461b94d57bf1843be9d739dfe6627a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:19 +0000
Subject: [PATCH 26/60] fix: discretizing weights in the torch tile failed for
 zero weights or per sample

---
 src/aihwkit/simulator/tiles/torch_tile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 273fec2..3eac391 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -240,11 +240,13 @@ class TorchSimulatorTile(SimulatorTile, Module):
 
         assumed_wmax = modifier.assumed_wmax
         if modifier.rel_to_actual_wmax:
-            assumed_wmax = inp_weight.abs().max()
+            with no_grad():
+                assumed_wmax = inp_weight.abs().max()
+                assumed_wmax[assumed_wmax <= 0.0] = 1.0
 
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
-            out_weight = inp_weight.clone().view(target_shape)
+            out_weight = inp_weight.expand(target_shape).clone()
             out_weight = UniformQuantize.apply(
                 out_weight, modifier.res, assumed_wmax, modifier.sto_round
             )
-- 
2.43.0


From 8bce96c4b2ba73bb64403ca9733ac2b7d48820d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:51 +0000
Subject: [PATCH 27/60] fix: copies of a torch tile must keep the mapping scale
 compensation of the weight gradient

---
 .../simulator/tiles/inference_torch.py        | 38 +++++++++----------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 966e40b..56a8e34 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -160,26 +160,19 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
             return False
         return True
 
-    def set_scales(self, scales: Tensor) -> None:
-        """Set all scales with a new scale.
-
-        This will set the mapping scales to ``scales`` and set all other scales to 1.
-
-        Args:
-            scales: scales to set.
-        """
-
-        super().set_scales(scales)
-
-        # - Remove old hook
-        if self._backward_hook_handle is not None:
-            self._backward_hook_handle.remove()
-
-        def hook(grad: Tensor) -> Tensor:
-            return grad / scales.to(grad.device).view(-1, 1) ** 2
-
-        if self.tile.weight.requires_grad:
-            self._backward_hook_handle = self.tile.register_weight_hook(hook)
+    def _compensate_mapping_scales(self, grad: Tensor) -> Tensor:
+        """Weight gradient hook to compensate for the mapping scales."""
+        scales = self.get_mapping_scales()
+        if scales is None:
+            return grad
+        return grad / scales.to(grad.device).view(-1, 1) ** 2
+
+    def __getstate__(self) -> Dict:
+        state = super().__getstate__()
+        # hooks are neither copied nor pickled, see ``pre_forward``
+        if "_backward_hook_handle" in state:
+            state["_backward_hook_handle"] = None
+        return state
 
     def pre_forward(
         self, x_input: Tensor, dim: int, is_test: bool = False, ctx: Any = None
@@ -200,6 +193,11 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         """
 
         # pylint: disable=unused-argument
+        if self._backward_hook_handle is None and self.tile.weight.requires_grad:
+            self._backward_hook_handle = self.tile.register_weight_hook(
+                self._compensate_mapping_scales
+            )
+
         if self.input_range is not None:
             x_input = self.apply_input_range(x_input, not is_test)
 
-- 
2.43.0


From 9a7fa220a7dfa0deeaa8f4f6b230ad5187e78a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:51 +0000
Subject: [PATCH 28/60] fix: models loaded from a state dict must not share the
 RPU configuration with its source

---
 src/aihwkit/simulator/tiles/module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 7f94187..5b4e126 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -424,4 +424,6 @@ class TileModule(Module, TileModuleBase):
                 raise TileModuleError(msg)
 
             analog_state["rpu_config"] = analog_tile.rpu_config
+        else:
+            analog_state["rpu_config"] = deepcopy(analog_state["rpu_config"])
         analog_tile.__setstate__(analog_state)
-- 
2.43.0


From 5efd5fe882cb2fec4c1b030af995e128f84fb4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:25 +0000
Subject: [PATCH 29/60] fix: drift compensation per column must scale the
 output channels of indexed convolutions

---
 src/aihwkit/simulator/tiles/inference.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index ccc5c4a..c3f7031 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -278,7 +278,11 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             and self.rpu_config.drift_compensation is not None
         ):
             # only do drift compensation in eval mode
-            return x_output * self.alpha
+            alpha = self.alpha
+            if alpha.dim() == 1:
+                # align with the output dimension (e.g. for convolutions)
+                alpha = alpha.view(-1, *((1,) * (x_output.dim() - 1 - dim)))
+            return x_output * alpha
         return x_output
 
     @no_grad()
-- 
2.43.0


From 175600664028c1e88e3628a4c30dbca1142a9c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:47 +0000
Subject: [PATCH 30/60] fix: state of tiles with drift compensation could not
 be loaded into new tiles

---
 src/aihwkit/simulator/tiles/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 5b4e126..af1a2e8 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -417,6 +417,11 @@ class TileModule(Module, TileModuleBase):
         # look like a direct user write to the logical read-only context.
         state_dict.pop(prefix + AnalogTileStateNames.CONTEXT, None)
 
+        # the shape of the drift compensation factor depends on its type
+        alpha = state_dict.get(prefix + "alpha", None)
+        if isinstance(alpha, Tensor) and isinstance(getattr(analog_tile, "alpha", None), Tensor):
+            analog_tile.alpha = analog_tile.alpha.new_ones(alpha.shape)
+
         analog_state = state_dict.pop(analog_state_name).copy()
         if not analog_tile.load_rpu_config:
             success, msg = analog_tile.compatible_with(analog_state["rpu_config"])
-- 
2.43.0


From 0ecdfb35795b4979684c3189087d75bae76560fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:47 +0000
Subject: [PATCH 31/60] fix: drift compensation of transposed tiles must read
 out along the inputs

---
 src/aihwkit/simulator/tiles/inference.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index c3f7031..c0388ea 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -129,7 +129,7 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 .to(self.device)
             )
             if self.in_trans:
-                self.drift_readout_tensor = self.drift_readout_tensor.tranpose(
+                self.drift_readout_tensor = self.drift_readout_tensor.transpose(
                     0, 1
                 ).clone()
         else:
@@ -143,9 +143,6 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 input_ = input_.T
 
             output = (input_ @ self.reference_combined_weights.T)  # type: ignore
-            if self.out_trans:
-                output = output.T
-
         else:
             output = self.tile.forward(
                 self.drift_readout_tensor,
@@ -155,6 +152,8 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 True,
                 self.non_blocking,
             )
+            if self.out_trans:
+                output = output.T
 
         return output
 
-- 
2.43.0


From 12246dfb550057ca127d77bcd37adb9766dd2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:23 +0000
Subject: [PATCH 32/60] fix: programming weights again must not keep the old
 drift compensation factor

---
 src/aihwkit/simulator/tiles/inference.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index c0388ea..4496658 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -213,6 +213,14 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             and self.rpu_config.drift_compensation is not None
         ):
             self.drift_baseline = self.rpu_config.drift_compensation.init_baseline(self)
+            self._set_alpha(ones((1,), dtype=self.get_dtype(), device=self.device))
+
+    def _set_alpha(self, alpha: Tensor) -> None:
+        """Set the drift compensation factor."""
+        if isinstance(self, Module):
+            # somehow legacy is incompatible with torch buffers
+            self.__dict__.pop("alpha", None)
+        self.alpha = alpha
 
     @no_grad()
     def drift_weights(self, t_inference: float = 0.0) -> None:
@@ -256,13 +264,9 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             and self.rpu_config.drift_compensation is not None
         ):
             forward_output = self._forward_drift_readout_tensor()
-            alpha = self.rpu_config.drift_compensation.apply(
-                forward_output, self.drift_baseline
+            self._set_alpha(
+                self.rpu_config.drift_compensation.apply(forward_output, self.drift_baseline)
             )
-            if isinstance(self, Module):
-                # somehow legacy is incompatible with torch buffers
-                self.__dict__.pop("alpha", None)
-            self.alpha = alpha
 
     def post_forward(
         self, x_output: Tensor, dim: int, is_test: bool = False, ctx: Any = None
-- 
2.43.0


From 6461095c01eb525778c3abd76a88b6479bca6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:23 +0000
Subject: [PATCH 33/60] fix: weights set after drift must be programmed before
 they drift

---
 src/aihwkit/simulator/tiles/inference.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index 4496658..f866ec5 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -101,6 +101,18 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             )
             self.set_mapping_scales(mapping_scales)
 
+    @no_grad()
+    def set_weights(self, *args: Any, **kwargs: Any) -> None:
+        """Set the tile weights (and biases), see
+        :meth:`~aihwkit.simulator.tiles.periphery.TileWithPeriphery.set_weights`.
+
+        New weights need to be programmed again before they can drift.
+        """
+        if self.programmed_weights is not None:
+            self.programmed_weights = None
+            self._set_alpha(ones((1,), dtype=self.get_dtype(), device=self.device))
+        super().set_weights(*args, **kwargs)
+
     @no_grad()
     def _forward_drift_readout_tensor(
         self, reset_if: bool = False, exact_reference: bool = False
-- 
2.43.0


From 69a7b277dd61822c267ca3b317df13a117396882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:23 +0000
Subject: [PATCH 34/60] fix: weight clipping of the torch tile must not clip
 without a positive bound

---
 src/aihwkit/simulator/tiles/torch_tile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 3eac391..1ad2cd4 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -154,12 +154,14 @@ class TorchSimulatorTile(SimulatorTile, Module):
         """
 
         if clip.type == WeightClipType.FIXED_VALUE:
-            self.weight.data = clamp(self.weight, -clip.fixed_value, clip.fixed_value)
+            if clip.fixed_value > 0:
+                self.weight.data = clamp(self.weight, -clip.fixed_value, clip.fixed_value)
         elif clip.type == WeightClipType.LAYER_GAUSSIAN:
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data = clamp(self.weight, -alpha, alpha)
+            if alpha > 0:
+                self.weight.data = clamp(self.weight, -alpha, alpha)
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
-- 
2.43.0


From 5655379012887a1dcc1d7f76b40f45e216d874fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:52 +0000
Subject: [PATCH 35/60] fix: weights loaded from a state dict must not be
 replaced by earlier programmed weights

---
 src/aihwkit/simulator/tiles/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index af1a2e8..bab95ef 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -431,4 +431,9 @@ class TileModule(Module, TileModuleBase):
             analog_state["rpu_config"] = analog_tile.rpu_config
         else:
             analog_state["rpu_config"] = deepcopy(analog_state["rpu_config"])
+        # references that belong to earlier weights do not apply to the loaded ones
+        for name in ("reference_combined_weights", "programmed_weights"):
+            if name in analog_tile.__dict__ and name not in analog_state:
+                setattr(analog_tile, name, None)
+
         analog_tile.__setstate__(analog_state)
-- 
2.43.0


From b2c48853affc9e74b8adc641aee8ff3d46f10a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:29 +0000
Subject: [PATCH 36/60] fix: state dicts with analog weights could not be
 deep-copied

---
 src/aihwkit/optim/weight_view.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 6cb614a..41112fe 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -206,6 +206,11 @@ class PlaceholderDataView(Tensor):
                 f"device={raw.device})"
             )
 
+    def __deepcopy__(self, memo: Any) -> "PlaceholderDataView":
+        """Copy the placeholder (e.g. as part of a state dict); there are no values to read."""
+        with DisableTorchFunction():  # pylint: disable=not-context-manager
+            return PlaceholderDataView(self.as_subclass(Tensor).detach().clone())
+
     def __setitem__(self, key: Any, value: Any) -> None:
         """Block item assignment on the placeholder."""
         _raise_placeholder_read_error("__setitem__")
-- 
2.43.0


From 1dcec355890db6c44a6965d2720c1eced9e88b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:34 +0000
Subject: [PATCH 37/60] fix: optimizers must keep updating analog weights after
 a state dict is loaded

---
 src/aihwkit/simulator/tiles/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index b39a084..9f619c1 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -700,6 +700,9 @@ class SimulatorTileWrapper:
 
         # pylint: disable=too-many-locals, too-many-statements, too-many-branches
 
+        # only for state-dict load: optimizers might refer to this object
+        current_ctx = getattr(self, "analog_ctx", None)
+
         if getattr(self, "ignore_analog_state", False) or state.get("ignore_analog_state", False):
             self.__dict__.update(state)
             analog_ctx = self.analog_ctx
@@ -793,7 +796,12 @@ class SimulatorTileWrapper:
                 self.tile.load_extra(extra, False)
 
         # map location should be applied to tensors in state_dict
-        self.analog_ctx = AnalogContext(self)
+        if isinstance(current_ctx, AnalogContext) and current_ctx.analog_tile is self:
+            current_ctx._replace_raw_data(self._get_tile_weights_ref())
+            current_ctx.set_indexed(False)
+            current_ctx.reset(self)
+        else:
+            self.analog_ctx = AnalogContext(self)
 
         if analog_ctx is not None:
             # Keep the object ID and device
-- 
2.43.0


From a48a46274e8ee3f63075335f0e11a4101397f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:06 +0000
Subject: [PATCH 38/60] fix: drift of weights with an offset of the minimal
 conductance

The conductance (w - w_offset) / wg_ratio + g_offset decays by the power law,
so that the weight changes by (g_offset * wg_ratio - w_offset) * (scale - 1)
in addition to w * scale; the sign of w_offset was wrong.
---
 src/rpucuda/cuda/weight_drifter_cuda.cu | 2 +-
 src/rpucuda/weight_drifter.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/cuda/weight_drifter_cuda.cu b/src/rpucuda/cuda/weight_drifter_cuda.cu
index 20978ea..7b0ddaf 100644
--- a/src/rpucuda/cuda/weight_drifter_cuda.cu
+++ b/src/rpucuda/cuda/weight_drifter_cuda.cu
@@ -220,7 +220,7 @@ template <typename T> void WeightDrifterCuda<T>::apply(T *weights, T time_since_
   auto s = context_->getStream();
 
   current_t_ += time_since_last_call / par_.t0;
-  T a = par_.g_offset * par_.wg_ratio + par_.w_offset;
+  T a = par_.g_offset * par_.wg_ratio - par_.w_offset;
   if ((T)fabsf(a) < par_.reset_tol) {
     a = (T)0.0;
   }
diff --git a/src/rpucuda/weight_drifter.cpp b/src/rpucuda/weight_drifter.cpp
index 258721c..09756a0 100644
--- a/src/rpucuda/weight_drifter.cpp
+++ b/src/rpucuda/weight_drifter.cpp
@@ -115,7 +115,7 @@ void WeightDrifter<T>::apply(T *weights, T time_since_last_call, RNG<T> &rng) {
   current_t_ += time_since_last_call / par_.t0;
   T reset_tol = par_.reset_tol;
   bool simple = par_.isSimpleDrift();
-  T a = par_.g_offset * par_.wg_ratio + par_.w_offset;
+  T a = par_.g_offset * par_.wg_ratio - par_.w_offset;
   if ((T)fabsf(a) < reset_tol) {
     a = (T)0.0;
   }
-- 
2.43.0


From 670f145db3f00975e74bc8207749a81cb101ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:31 +0000
Subject: [PATCH 39/60] fix: copies of a tile after an implicit pulsed update
 lost the values of its bit line maker

---
 src/rpucuda/dense_bit_line_maker.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpucuda/dense_bit_line_maker.h b/src/rpucuda/dense_bit_line_maker.h
index 5ea6f07..3f105c8 100644
--- a/src/rpucuda/dense_bit_line_maker.h
+++ b/src/rpucuda/dense_bit_line_maker.h
@@ -31,6 +31,8 @@ public:
     swap(a.containers_allocated_, b.containers_allocated_);
     swap(a.d_counts_, b.d_counts_);
     swap(a.x_counts_, b.x_counts_);
+    swap(a.d_values_, b.d_values_);
+    swap(a.x_values_, b.x_values_);
     swap(a.coincidences_, b.coincidences_);
     swap(a.rw_rng_, b.rw_rng_);
   }
-- 
2.43.0


From 07d9c7f154286e6315b6b0d4912720556e0763c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:31 +0000
Subject: [PATCH 40/60] fix: copies of a tile must keep using modified weights
 in evaluation

---
 src/rpucuda/rpu.cpp           | 2 ++
 src/rpucuda/weight_modifier.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 8057803..7cab763 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -315,6 +315,8 @@ template <typename T> RPUSimple<T>::RPUSimple(const RPUSimple<T> &other) : RPUAb
     RPU::math::copy<T>(this->x_size_ * this->d_size_, other.fb_weights_[0], 1, fb_weights_[0], 1);
     fb_weight_modifier_ =
         RPU::make_unique<WeightModifier<T>>(this->x_size_, this->d_size_); // no copy
+    // but the kept modified weights need to be used as before
+    fb_weight_modifier_->setEnableDuringTest(other.fb_weight_modifier_->enableDuringTest());
   }
 
   use_delayed_update_ = other.use_delayed_update_;
diff --git a/src/rpucuda/weight_modifier.h b/src/rpucuda/weight_modifier.h
index 768c795..c246aaf 100644
--- a/src/rpucuda/weight_modifier.h
+++ b/src/rpucuda/weight_modifier.h
@@ -155,6 +155,7 @@ public:
   void apply(T *new_weights, const T *weights, const WeightModifierParameter<T> &wmpar);
 
   inline bool enableDuringTest() { return enable_during_test_; };
+  inline void setEnableDuringTest(bool enable) { enable_during_test_ = enable; };
 
   void dumpExtra(RPU::state_t &extra, const std::string prefix);
   void loadExtra(const RPU::state_t &extra, const std::string prefix, bool strict);
-- 
2.43.0


From 21a611abb8728b1883646f0dab056d1a75cc6cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:31 +0000
Subject: [PATCH 41/60] fix: a loaded tile must use its modified weights in
 evaluation as the saved one

---
 src/rpucuda/rpu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 7cab763..6b1af4e 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -465,6 +465,7 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
         fb_weight_modifier_ = RPU::make_unique<WeightModifier<T>>(this->x_size_, this->d_size_);
       }
       RPU::math::copy<T>(tmp.size(), tmp.data(), 1, fb_weights_[0], 1);
+      fb_weight_modifier_->loadExtra(state, "fb_weight_modifier", strict);
     }
   }
 
-- 
2.43.0


From b10956722bd320de41c1f5f29fc55f6a07d1a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:31 +0000
Subject: [PATCH 42/60] fix: the drift history of a saved tile was not loaded

---
 src/rpucuda/rpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 6b1af4e..e9cc8fa 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -469,7 +469,7 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
     }
   }
 
-  if (state.count("wdrifter")) {
+  if (!RPU::selectWithPrefix(state, "wdrifter").empty()) {
     if (!wdrifter_) {
       wdrifter_ = RPU::make_unique<WeightDrifter<T>>(this->x_size_ * this->d_size_, getPar().drift);
     }
-- 
2.43.0


From 6c122fc74246d9f9ac072d354362aa6f8dfdff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:43 +0000
Subject: [PATCH 43/60] fix: copies of compound devices keep the weightening of
 their devices

---
 src/rpucuda/rpu_vector_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_vector_device.cpp b/src/rpucuda/rpu_vector_device.cpp
index fa3c74a..c76809f 100644
--- a/src/rpucuda/rpu_vector_device.cpp
+++ b/src/rpucuda/rpu_vector_device.cpp
@@ -132,12 +132,12 @@ template <typename T>
 VectorRPUDevice<T>::VectorRPUDevice(const VectorRPUDevice<T> &other)
     : PulsedRPUDeviceBase<T>(other) {
 
+  allocateContainers(other.n_devices_); // note: also clears the weightening
+
   reduce_weightening_ = other.reduce_weightening_;
   current_device_idx_ = other.current_device_idx_;
   current_update_idx_ = other.current_update_idx_;
 
-  allocateContainers(other.n_devices_);
-
   if (other.weights_vec_ != nullptr) {
     RPU::math::copy<T>(
         this->size_ * n_devices_, other.weights_vec_[0][0], 1, weights_vec_[0][0], 1);
-- 
2.43.0


From 3f00f265af4e65c925cf551a6c69d2a87eec2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:43 +0000
Subject: [PATCH 44/60] fix: transfer compound is only fully hidden when no
 leading device contributes

---
 src/rpucuda/rpu_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index db8c7fd..7dcc593 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -150,7 +150,7 @@ void TransferRPUDeviceMetaParameter<T>::initializeWithSize(int x_size, int d_siz
     }
     T g = 0;
     for (size_t i = 0; i < n_devices - 1; i++) {
-      g += this->gamma_vec[i];
+      g += (T)fabsf((float)this->gamma_vec[i]); // only zero if none is visible
     }
     if (this->gamma_vec[n_devices - 1] == (T)0.0) {
       RPU_FATAL(
-- 
2.43.0


From 2f10d3930ef83e507ff3968fe1f6adcdb300bc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:43 +0000
Subject: [PATCH 45/60] fix: transfer interval of later devices scales with the
 number of transferred vectors

---
 src/rpucuda/rpu_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 7dcc593..ad154e5 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -184,7 +184,7 @@ void TransferRPUDeviceMetaParameter<T>::initializeWithSize(int x_size, int d_siz
     T n = transfer_every;
     for (size_t i = 0; i < n_devices; i++) {
       transfer_every_vec.push_back(n);
-      n *= (T)_out_size / (T)n_reads_per_transfer;
+      n *= (T)_in_size / (T)n_reads_per_transfer;
     }
     if (no_self_transfer) {
       transfer_every_vec[n_devices - 1] = 0;
-- 
2.43.0


From e26e21ed23d88c54f23f0e49eb38806902017882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 46/60] fix: reset on transfer only clears the column that was
 just read

---
 src/rpucuda/rpu_transfer_device.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index ad154e5..ad9743e 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -466,7 +466,8 @@ void TransferRPUDevice<T>::readAndUpdate(
       // potentially reset here (because of possible same device to-from):
       // NOTE that with_reset_prob is COL-wise prob (elem device prob is 1)
       T **W_from = getDeviceWeights(from_device_idx);
-      this->rpu_device_vec_[from_device_idx]->resetCols(W_from, i_slice, n_vec, 1, this->rw_rng_);
+      this->rpu_device_vec_[from_device_idx]->resetCols(
+          W_from, i_slice + (int)i, 1, 1, this->rw_rng_);
     }
 
     // update according to device
-- 
2.43.0


From b16fbb0b94126d911532a969a15eec4cbb6eda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 47/60] fix: moving a buffered transfer device keeps its buffer

---
 src/rpucuda/rpu_buffered_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_buffered_transfer_device.cpp b/src/rpucuda/rpu_buffered_transfer_device.cpp
index 4e71de7..387b3ca 100644
--- a/src/rpucuda/rpu_buffered_transfer_device.cpp
+++ b/src/rpucuda/rpu_buffered_transfer_device.cpp
@@ -109,7 +109,7 @@ template <typename T>
 BufferedTransferRPUDevice<T> &
 BufferedTransferRPUDevice<T>::operator=(BufferedTransferRPUDevice<T> &&other) noexcept {
   TransferRPUDevice<T>::operator=(std::move(other));
-  transfer_buffer_vec_ = std::move(transfer_buffer_vec_);
+  transfer_buffer_vec_ = std::move(other.transfer_buffer_vec_);
 
   return *this;
 }
-- 
2.43.0


From 6ab264f06b752162866bf4939b49fb2f11277dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 48/60] fix: row transfer of buffered devices overran the read
 buffer

---
 src/rpucuda/rpu_buffered_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_buffered_transfer_device.cpp b/src/rpucuda/rpu_buffered_transfer_device.cpp
index 387b3ca..47e9876 100644
--- a/src/rpucuda/rpu_buffered_transfer_device.cpp
+++ b/src/rpucuda/rpu_buffered_transfer_device.cpp
@@ -156,10 +156,10 @@ void BufferedTransferRPUDevice<T>::readAndUpdate(
     return;
   }
 
-  this->transfer_tmp_.resize(this->d_size_);
   const auto &par = getPar();
   int in_size = par.getInSize();
   int out_size = par.getOutSize();
+  this->transfer_tmp_.resize(out_size);
 
   T weight_granularity = this->rpu_device_vec_[to_device_idx]->getWeightGranularity();
   T buffer_granularity = par.thres_scale * weight_granularity;
-- 
2.43.0


From adf994814527237ef0973205bf4a89f4ee9df2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 49/60] fix: mixed precision update used wrong gradients if
 only one input was quantized

---
 src/rpucuda/rpu_mixedprec_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device.cpp b/src/rpucuda/rpu_mixedprec_device.cpp
index 117cf00..99ddf16 100644
--- a/src/rpucuda/rpu_mixedprec_device.cpp
+++ b/src/rpucuda/rpu_mixedprec_device.cpp
@@ -279,7 +279,7 @@ void MixedPrecRPUDevice<T>::doDirectVectorUpdate(
         d = RPU_ROUNDFUNF(d / d_width + stoch_value);
         d = MIN(MAX(d, -half_d_bins), half_d_bins) * d_width;
       }
-      qd_[i] = d;
+      qd_[j] = d;
     }
 
     RPU::math::ger<T>(
-- 
2.43.0


From 3477512d823db923c20ca0da947435e0c3a0fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 50/60] fix: setting the parameters of a mixed precision device
 sets chi

---
 src/rpucuda/rpu_mixedprec_device_base.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rpucuda/rpu_mixedprec_device_base.cpp b/src/rpucuda/rpu_mixedprec_device_base.cpp
index 3e94f35..461081e 100644
--- a/src/rpucuda/rpu_mixedprec_device_base.cpp
+++ b/src/rpucuda/rpu_mixedprec_device_base.cpp
@@ -425,7 +425,18 @@ void MixedPrecRPUDeviceBase<T>::setDeviceParameter(
     T **out_weights, const std::vector<T *> &data_ptrs) {
 
   CHECK_RPU_DEVICE_INIT;
+
+  std::vector<std::string> names;
+  getDPNames(names);
+
+  if (data_ptrs.size() < names.size()) {
+    RPU_FATAL("Expected " << names.size() << " data pointers!");
+  }
+
   rpu_device_->setDeviceParameter(out_weights, data_ptrs);
+
+  // "hidden weights Chi"
+  setChi(data_ptrs[names.size() - 1]);
 };
 
 template <typename T> void MixedPrecRPUDeviceBase<T>::printDP(int x_count, int d_count) const {
-- 
2.43.0


From 4f7f7040d3c59b7999fa766546291eca2d61feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 51/60] fix: setting the device parameters keeps the given
 persistent weights

---
 src/rpucuda/rpu_pulsed_device.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index 8e73ece..775bde1 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -333,8 +333,18 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
     this->setWeightGranularity(getPar().calcWeightGranularity());
   }
 
+  std::vector<T> stored_weights;
+  if (getPar().usesPersistentWeight()) {
+    stored_weights.assign(w_persistent_[0], w_persistent_[0] + this->size_);
+  }
+
   // update the weights according to the bounds
   this->onSetWeights(out_weights);
+
+  // the given persistent weights should not be overwritten with the visible ones
+  for (size_t i = 0; i < stored_weights.size(); i++) {
+    w_persistent_[0][i] = MAX(MIN(stored_weights[i], w_max_bound_[0][i]), w_min_bound_[0][i]);
+  }
 };
 
 template <typename T> int PulsedRPUDevice<T>::getHiddenWeightsCount() const {
-- 
2.43.0


From 5411c19910a8a6437e89c141b3514c09bbdf9070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 52/60] fix: visible weight of chopped transfer devices used
 the wrong choppers

---
 src/rpucuda/rpu_chopped_transfer_device.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index 6db1e4e..e63530f 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -545,11 +545,14 @@ void ChoppedTransferRPUDevice<T>::reduceToWeights(T **weights) const {
   T *A = *this->weights_vec_[0];
   int size = this->x_size_ * this->d_size_;
 
-  // Layout: W[x_idx * d_size + d_idx] (column-major, d as inner dimension)
+  const auto &d_chopper = (par.transfer_columns) ? out_chopper_ : in_chopper_;
+  const auto &x_chopper = (par.transfer_columns) ? in_chopper_ : out_chopper_;
+
+  // Layout: W[d_idx * x_size + x_idx] (row-major, x as inner dimension)
   for (int idx = 0; idx < size; idx++) {
-    int d_idx = idx % this->d_size_;
-    int x_idx = idx / this->d_size_;
-    T chop = (in_chopper_[x_idx] != out_chopper_[d_idx]) ? (T)-1.0 : (T)1.0;
+    int d_idx = idx / this->x_size_;
+    int x_idx = idx % this->x_size_;
+    T chop = (x_chopper[x_idx] != d_chopper[d_idx]) ? (T)-1.0 : (T)1.0;
     weights[0][idx] += gamma * (chop - (T)1.0) * A[idx];
   }
 }
-- 
2.43.0


From 289fe7587099b0f7f2c257f1cd0ae0c5bafcbc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 53/60] fix: loading a tile restores the hidden weights of
 compound devices

---
 src/aihwkit/simulator/tiles/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index 9f619c1..8b48e7d 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -795,6 +795,10 @@ class SimulatorTileWrapper:
             if extra is not None:
                 self.tile.load_extra(extra, False)
 
+            # setting the weights (see above) overwrites the hidden weights
+            # of compound devices, thus restore them
+            self.tile.set_hidden_parameters(hidden_parameters)
+
         # map location should be applied to tensors in state_dict
         if isinstance(current_ctx, AnalogContext) and current_ctx.analog_tile is self:
             current_ctx._replace_raw_data(self._get_tile_weights_ref())
-- 
2.43.0


From 74c7019878cec04da3414d0d0f892f6c982c44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:17 +0000
Subject: [PATCH 54/60] fix: persistent weights given as device parameters also
 survive in derived devices

---
 src/rpucuda/rpu_pulsed_device.cpp | 9 +++++++--
 src/rpucuda/rpu_pulsed_device.h   | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index 775bde1..f26321e 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -333,19 +333,24 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
     this->setWeightGranularity(getPar().calcWeightGranularity());
   }
 
+  // update the weights according to the bounds
+  this->onSetDeviceParameter(out_weights);
+};
+
+template <typename T> void PulsedRPUDevice<T>::onSetDeviceParameter(T **out_weights) {
+
   std::vector<T> stored_weights;
   if (getPar().usesPersistentWeight()) {
     stored_weights.assign(w_persistent_[0], w_persistent_[0] + this->size_);
   }
 
-  // update the weights according to the bounds
   this->onSetWeights(out_weights);
 
   // the given persistent weights should not be overwritten with the visible ones
   for (size_t i = 0; i < stored_weights.size(); i++) {
     w_persistent_[0][i] = MAX(MIN(stored_weights[i], w_max_bound_[0][i]), w_min_bound_[0][i]);
   }
-};
+}
 
 template <typename T> int PulsedRPUDevice<T>::getHiddenWeightsCount() const {
   return getPar().usesPersistentWeight() ? 1 : 0;
diff --git a/src/rpucuda/rpu_pulsed_device.h b/src/rpucuda/rpu_pulsed_device.h
index dfcc270..1ed9229 100644
--- a/src/rpucuda/rpu_pulsed_device.h
+++ b/src/rpucuda/rpu_pulsed_device.h
@@ -303,6 +303,7 @@ protected:
 
   RealWorldRNG<T> write_noise_rng_{0};
   virtual void applyUpdateWriteNoise(T **weights);
+  void onSetDeviceParameter(T **out_weights);
 
 private:
   void freeContainers();
@@ -412,7 +413,7 @@ public:
     std::vector<std::string> names;                                                                \
     PulsedRPUDevice<T>::getDPNames(names);                                                         \
     {V2DP_BODY};                                                                                   \
-    this->onSetWeights(out_weights);                                                               \
+    this->onSetDeviceParameter(out_weights);                                                       \
   }
 
 #define BUILD_PULSED_DEVICE_META_PARAMETER(                                                        \
-- 
2.43.0


From 2bc07f4adf9e67ccf17191bbd516f8a58e6f1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:08 +0000
Subject: [PATCH 55/60] fix: copies of chopped transfer devices keep the
 current update count

---
 src/rpucuda/rpu_chopped_transfer_device.cpp | 2 ++
 src/rpucuda/rpu_chopped_transfer_device.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index e63530f..311fdb8 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -202,6 +202,7 @@ ChoppedTransferRPUDevice<T>::ChoppedTransferRPUDevice(const ChoppedTransferRPUDe
   m_d_ = other.m_d_;
   d_sparsity_ = other.d_sparsity_;
   transfer_counter_ = other.transfer_counter_;
+  tmp_count_lr_ = other.tmp_count_lr_;
 }
 
 // copy assignment
@@ -232,6 +233,7 @@ ChoppedTransferRPUDevice<T>::operator=(ChoppedTransferRPUDevice<T> &&other) noex
   m_d_ = other.m_d_;
   d_sparsity_ = other.d_sparsity_;
   transfer_counter_ = other.transfer_counter_;
+  tmp_count_lr_ = other.tmp_count_lr_;
   return *this;
 }
 
diff --git a/src/rpucuda/rpu_chopped_transfer_device.h b/src/rpucuda/rpu_chopped_transfer_device.h
index fbcb1b0..a1d3da4 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.h
+++ b/src/rpucuda/rpu_chopped_transfer_device.h
@@ -126,6 +126,7 @@ public:
     swap(a.d_sparsity_, b.d_sparsity_);
     swap(a.x_signed_indices_tmp_, b.x_signed_indices_tmp_);
     swap(a.transfer_counter_, b.transfer_counter_);
+    swap(a.tmp_count_lr_, b.tmp_count_lr_);
   }
   void dumpExtra(RPU::state_t &extra, const std::string prefix) override;
   void loadExtra(const RPU::state_t &extra, const std::string prefix, bool strict) override;
-- 
2.43.0


From c69e7db30aea2f5232f0e7572aabee19f74e4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:05 +0000
Subject: [PATCH 56/60] fix: regrouping keeps the learning rate of the original
 parameter group

---
 src/aihwkit/optim/analog_optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 347693b..f22ff6a 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -37,10 +37,12 @@ class AnalogOptimizerMixin:
             rm_lst = []
             for param in group["params"]:
                 if isinstance(param, AnalogContext):
+                    # Keep the options of the original group (eg. its learning rate).
+                    analog_group = {**group, "params": [param]}
                     param.analog_tile.set_learning_rate(
-                        self.defaults["lr"]  # type: ignore[attr-defined]
+                        analog_group.get("lr", self.defaults["lr"])  # type: ignore[attr-defined]
                     )
-                    analog_param_groups.append({"params": [param]})
+                    analog_param_groups.append(analog_group)
                     rm_lst.append(id(param))
 
             group["params"] = [p for p in group["params"] if id(p) not in rm_lst]
-- 
2.43.0


From 980b055d71a806a8dc74160c15820a85120ca570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:05 +0000
Subject: [PATCH 57/60] fix: zero_grad of analog optimizers also discards the
 stored analog gradients

---
 src/aihwkit/optim/analog_optimizer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index f22ff6a..803ef7f 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -58,6 +58,20 @@ class AnalogOptimizerMixin:
         for group in analog_param_groups:
             self.add_param_group(group)  # type: ignore[attr-defined]
 
+    def zero_grad(self, *args: Any, **kwargs: Any) -> None:
+        """Reset the gradients, including those stored for the analog update.
+
+        Args:
+            args: arguments of the ``zero_grad`` of the torch optimizer
+            kwargs: keyword arguments of the ``zero_grad`` of the torch optimizer
+        """
+        super().zero_grad(*args, **kwargs)  # type: ignore[misc]
+
+        for group in self.param_groups:
+            for param in group["params"]:
+                if isinstance(param, AnalogContext):
+                    param.reset()
+
     @no_grad()
     def step(self, closure: Optional[Callable] = None, **kwargs: Any) -> Optional[float]:
         """Perform an analog-aware single optimization step.
-- 
2.43.0


From bbb78ae44c259574a82e45d892cb2eec7c2d68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:33 +0000
Subject: [PATCH 58/60] fix: several passes with different leading dimensions
 before an analog update

---
 src/aihwkit/optim/analog_optimizer.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 803ef7f..36695dc 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -7,9 +7,9 @@
 """Analog-aware inference optimizer."""
 
 from types import new_class
-from typing import Any, Callable, Dict, Optional, Type
+from typing import Any, Callable, Dict, List, Optional, Type
 
-from torch import cat
+from torch import cat, Tensor
 from torch.optim import Optimizer, SGD, Adam
 from torch.autograd import no_grad
 
@@ -58,6 +58,15 @@ class AnalogOptimizerMixin:
         for group in analog_param_groups:
             self.add_param_group(group)  # type: ignore[attr-defined]
 
+    @staticmethod
+    def _cat_passes(tensors: List[Tensor], trans: bool) -> Tensor:
+        """Concatenate the vectors of all passes (that might have different leading dimensions)."""
+        if len(tensors) == 1:
+            return cat(tensors, axis=-1 if trans else 0)
+        if trans:
+            return cat([t.reshape(t.size(0), -1) for t in tensors], axis=-1)
+        return cat([t.reshape(-1, t.size(-1)) for t in tensors], axis=0)
+
     def zero_grad(self, *args: Any, **kwargs: Any) -> None:
         """Reset the gradients, including those stored for the analog update.
 
@@ -138,11 +147,9 @@ class AnalogOptimizerMixin:
                                 ),
                             )
                     else:
-                        x_input = cat(
-                            analog_ctx.analog_input, axis=-1 if analog_tile.in_trans else 0
-                        )
-                        d_input = cat(
-                            analog_ctx.analog_grad_output, axis=-1 if analog_tile.out_trans else 0
+                        x_input = self._cat_passes(analog_ctx.analog_input, analog_tile.in_trans)
+                        d_input = self._cat_passes(
+                            analog_ctx.analog_grad_output, analog_tile.out_trans
                         )
                         analog_tile.update(
                             x_input.to(analog_tile.device) if runtime.offload_input else x_input,
-- 
2.43.0


From 94650d60b3dc137d07b3bd7011eb9e9e2e8c3d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:01 +0000
Subject: [PATCH 59/60] fix: indexed convolutions with images of different
 sizes in one step

---
 src/aihwkit/simulator/tiles/base.py      |  2 ++
 src/aihwkit/simulator/tiles/periphery.py | 25 +++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index 8b48e7d..ba367c7 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -669,6 +669,7 @@ class SimulatorTileWrapper:
 
         # this is should not be saved.
         current_dict.pop("image_sizes", None)
+        current_dict.pop("index_sets", None)
         # Shared weight tensor is rebuilt by _bind_shared_weights().
         current_dict.pop("_shared_weight_tensor", None)
 
@@ -719,6 +720,7 @@ class SimulatorTileWrapper:
             hidden_parameters_names = current_dict.pop(SN.HIDDEN_PARAMETER_NAMES, [])
             current_dict.pop("analog_alpha_scale", None)  # legacy
             current_dict.pop("image_sizes", None)  # should not be saved
+            current_dict.pop("index_sets", None)  # should not be saved
 
             # legacy
             if "non_blocking" not in current_dict:
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index f8ad9d4..ec4312a 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -9,7 +9,7 @@
 
 """Base tile with added periphery and common utility methods."""
 
-from typing import Optional, Tuple, Union, Any, List
+from typing import Optional, Tuple, Union, Any, Dict, List
 from numpy import array
 
 from torch import (
@@ -84,6 +84,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         self.bias_quantizer = None  # type: Optional[QuantizationManager]
 
         self.image_sizes = []  # type: List[int]
+        self.index_sets = {}  # type: Dict[Tuple[int, ...], Tuple[Tensor, List[int]]]
 
         if self.digital_bias:
             # Note that the bias needs to be handled on the module level
@@ -1292,8 +1293,26 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         if self.in_trans or self.out_trans:
             raise TileError("Transposed indexed versions not supported (assumes NC(D)HW)")
+        if not self.is_indexed():
+            # new simulator tile (eg. after loading or moving to another device)
+            self.index_sets = {}
         self.analog_ctx.set_indexed()
         self.image_sizes = image_sizes
+        self.index_sets[tuple(image_sizes[: (len(image_sizes) + 1) // 2])] = (indices, image_sizes)
+        self.tile.set_matrix_indices(indices)
+
+    def _select_indexed(self, x_input: Tensor) -> None:
+        """Switch to the index matrix that was set for images of the given input.
+
+        Passes with differently sized images might precede their backward and update.
+
+        Args:
+            x_input: ``[N, C_in, (D_in), H_in, (W_in)]`` tensor
+        """
+        in_sizes = tuple(x_input.shape[1:])
+        if in_sizes == tuple(self.image_sizes[: len(in_sizes)]) or in_sizes not in self.index_sets:
+            return
+        indices, self.image_sizes = self.index_sets[in_sizes]
         self.tile.set_matrix_indices(indices)
 
     @no_grad()
@@ -1320,6 +1339,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if not self.image_sizes:
             raise TileError("self.image_sizes is not initialized. Please use set_indexed()")
 
+        self._select_indexed(x_input)
         n_batch = x_input.size(0)
         channel_out = self.out_size
 
@@ -1361,6 +1381,8 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if not self.image_sizes:
             raise TileError("self.image_sizes is not initialized. Please use set_indexed()")
 
+        if ctx is not None and ctx.saved_analog_tensors:
+            self._select_indexed(ctx.saved_analog_tensors[0])
         n_batch = d_input.size(0)
 
         if len(self.image_sizes) == 3:
@@ -1392,6 +1414,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         Returns:
             None
         """
+        self._select_indexed(x_input)
         x_input, d_input = self.pre_update(x_input, 1, d_input, 1)
         return self.tile.update_indexed(x_input, d_input, self.non_blocking)  # type: ignore
 
-- 
2.43.0


From d3d7d8bd146155928e416b383142dcdd7b263eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:03 +0000
Subject: [PATCH 60/60] fix: stored analog gradients were overwritten by later
 bias gradients

---
 src/aihwkit/simulator/tiles/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index 84938a8..872f804 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -108,6 +108,8 @@ class AnalogFunction(Function):
                 store_gradients = grad_output.cpu()
             else:
                 store_gradients = grad_output
+            # Clone as autograd might accumulate into this tensor (eg. for the digital bias).
+            store_gradients = store_gradients.clone()
             analog_ctx.analog_grad_output.append(store_gradients)
 
         ctx.saved_analog_tensors = []
-- 
2.43.0

