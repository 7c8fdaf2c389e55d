From f27013f6d379102324213b96ebacbc334bb943cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 01/78] fix: keep the analog context of a tile when loading its
 state

An optimizer that was created before load_state_dict (or replace_with) kept
references to contexts which were replaced, so that the analog weights silently
stopped being updated.
---
 src/aihwkit/simulator/tiles/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index b39a084..21a7c1b 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -793,7 +793,15 @@ class SimulatorTileWrapper:
                 self.tile.load_extra(extra, False)
 
         # map location should be applied to tensors in state_dict
-        self.analog_ctx = AnalogContext(self)
+        current_ctx = getattr(self, "analog_ctx", None)
+        if isinstance(current_ctx, AnalogContext) and current_ctx.analog_tile is self:
+            # The state is loaded into an existing tile: keep its context, since
+            # an optimizer might already refer to it.
+            current_ctx._replace_raw_data(self._get_tile_weights_ref())
+            current_ctx.set_indexed(False)  # index matrix is not part of the state
+            current_ctx.reset(self)
+        else:
+            self.analog_ctx = AnalogContext(self)
 
         if analog_ctx is not None:
             # Keep the object ID and device
-- 
2.43.0


From 8b35f9206e63450a5e6e93b0fafb4ff61e9eac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 02/78] fix: allow deep copies of a state dict with analog
 contexts

copy.deepcopy(model.state_dict()), as used to keep the best model, raised since
the placeholder of the analog context rejected being copied.
---
 src/aihwkit/optim/weight_view.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 6cb614a..f9ca7f2 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -6,7 +6,7 @@
 
 """Read-only and placeholder tensor views for analog tile weights."""
 
-from typing import Any, Callable, Optional
+from typing import Any, Callable, Dict, Optional
 
 from torch import Tensor
 from torch._C import DisableTorchFunction
@@ -206,6 +206,14 @@ class PlaceholderDataView(Tensor):
                 f"device={raw.device})"
             )
 
+    def __deepcopy__(self, memo: Dict) -> "PlaceholderDataView":
+        """Copy the placeholder, e.g. when deep copying a state dict."""
+        with DisableTorchFunction():  # pylint: disable=not-context-manager
+            raw = self.as_subclass(Tensor)
+            copied = PlaceholderDataView(raw.new_empty(raw.shape))
+        memo[id(self)] = copied
+        return copied
+
     def __setitem__(self, key: Any, value: Any) -> None:
         """Block item assignment on the placeholder."""
         _raise_placeholder_read_error("__setitem__")
-- 
2.43.0


From e58b3f0fe7bf2a75745cc3187ebe6cb30fcc647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 03/78] fix: restore the hidden weights of compounds when
 loading the state of a tile

---
 src/aihwkit/simulator/tiles/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index 21a7c1b..81cf46e 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -760,6 +760,9 @@ class SimulatorTileWrapper:
             if not isinstance(weights, Tensor):
                 weights = from_numpy(array(weights))
             self.tile.set_weights(weights)
+            # Setting the weights resets the hidden weights (e.g. of unit cells),
+            # thus apply again. (Before needed as well because of the bounds.)
+            self.tile.set_hidden_parameters(hidden_parameters)
             self._copy_weights_to_shared_tensors(weights)
 
             # set_weights() fills the fresh CPU C++ tile from the serialized raw
-- 
2.43.0


From 33da44026e2148e256350e7f7b7cef38ccd94e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 04/78] fix: restore chi of mixed precision devices when
 setting the hidden parameters

---
 src/rpucuda/rpu_mixedprec_device_base.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device_base.cpp b/src/rpucuda/rpu_mixedprec_device_base.cpp
index 3e94f35..207b487 100644
--- a/src/rpucuda/rpu_mixedprec_device_base.cpp
+++ b/src/rpucuda/rpu_mixedprec_device_base.cpp
@@ -425,7 +425,19 @@ void MixedPrecRPUDeviceBase<T>::setDeviceParameter(
     T **out_weights, const std::vector<T *> &data_ptrs) {
 
   CHECK_RPU_DEVICE_INIT;
-  rpu_device_->setDeviceParameter(out_weights, data_ptrs);
+
+  std::vector<std::string> names;
+  getDPNames(names);
+
+  if (data_ptrs.size() < names.size()) {
+    RPU_FATAL("Expected " << names.size() << " data pointers!");
+  }
+
+  std::vector<T *> v(data_ptrs.begin(), data_ptrs.end() - 1);
+  rpu_device_->setDeviceParameter(out_weights, v);
+
+  // "hidden weights Chi"
+  setChi(data_ptrs[names.size() - 1]);
 };
 
 template <typename T> void MixedPrecRPUDeviceBase<T>::printDP(int x_count, int d_count) const {
-- 
2.43.0


From 7283c444f133b966fdcdbfb19fbd0b24ee924b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 05/78] fix: load the state of the weight drifter and the
 weight modifier

---
 src/rpucuda/rpu.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 8057803..bb4bea7 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -463,24 +463,26 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
         fb_weight_modifier_ = RPU::make_unique<WeightModifier<T>>(this->x_size_, this->d_size_);
       }
       RPU::math::copy<T>(tmp.size(), tmp.data(), 1, fb_weights_[0], 1);
+      fb_weight_modifier_->loadExtra(state, "fb_weight_modifier", strict);
     }
   }
 
-  if (state.count("wdrifter")) {
+  // these are stored with prefix, thus need to check for any entry
+  if (!RPU::selectWithPrefix(state, "wdrifter").empty()) {
     if (!wdrifter_) {
       wdrifter_ = RPU::make_unique<WeightDrifter<T>>(this->x_size_ * this->d_size_, getPar().drift);
     }
     wdrifter_->loadExtra(state, "wdrifter", strict);
   }
 
-  if (state.count("wclipper")) {
+  if (!RPU::selectWithPrefix(state, "wclipper").empty()) {
     if (!wclipper_) {
       wclipper_ = RPU::make_unique<WeightClipper<T>>(this->x_size_, this->d_size_);
     }
     wclipper_->loadExtra(state, "wclipper", strict);
   }
 
-  if (state.count("wremapper")) {
+  if (!RPU::selectWithPrefix(state, "wremapper").empty()) {
     if (!wremapper_) {
       wremapper_ = RPU::make_unique<WeightRemapper<T>>(this->x_size_, this->d_size_);
     }
-- 
2.43.0


From 61890b4f176533bb569fed8a0e36782bf999ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 06/78] fix: let the hidden devices of transfer compounds know
 when weights are set

---
 src/rpucuda/rpu_transfer_device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index db8c7fd..53c4073 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -575,6 +575,10 @@ template <typename T> bool TransferRPUDevice<T>::onSetWeights(T **weights) {
     }
   }
   if (fully_hidden_) {
+    // the hidden devices need to know as well (persistent weights and bounds)
+    for (int k = 0; k < last_idx; k++) {
+      this->rpu_device_vec_[k]->onSetWeights(this->weights_vec_[k]);
+    }
     // no need to copy, as we directly use the weights
     this->rpu_device_vec_[last_idx]->onSetWeights(weights);
 
-- 
2.43.0


From c0a4da0cd244adb36f8fd4f3fc175718ac1c5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 07/78] fix: restore mapping scales set after construction and
 their learning rate compensation

---
 src/aihwkit/simulator/tiles/module.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 7f94187..1a0ec7d 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -300,6 +300,15 @@ class TileModule(Module, TileModuleBase):
                 error_msgs,
             )
 
+        # The mapping scales might have been set (or changed from a single scale to
+        # column-wise scales) only after construction, e.g. by remapping.
+        scales = state_dict.get(prefix + "mapping_scales")
+        has_scales = "mapping_scales" in self._buffers and hasattr(self.rpu_config, "mapping")
+        if has_scales and isinstance(scales, Tensor) and scales.shape in [(1,), (self.out_size,)]:
+            current_scales = self.mapping_scales
+            if current_scales is None or current_scales.shape != scales.shape:
+                self.mapping_scales = scales.detach().clone().to(self.device)
+
         Module._load_from_state_dict(
             self,
             state_dict,
@@ -311,6 +320,10 @@ class TileModule(Module, TileModuleBase):
             error_msgs,
         )
 
+        if has_scales and self.mapping_scales is not None:
+            # the learning rate compensation depends on the scales
+            self.set_mapping_scales(self.mapping_scales)
+
         if not self.use_state_dict_hooks:
             TileModule._load_state_dict_post_hook(
                 self, (missing_keys, unexpected_keys)  # type: ignore
-- 
2.43.0


From e0a5abed3025bae0afea7026a59c30004629a7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 08/78] fix: use the current mapping scales in the gradient
 hook of torch tiles

---
 .../simulator/tiles/inference_torch.py        | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 305e6b6..b54931a 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -170,17 +170,42 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         """
 
         super().set_scales(scales)
+        self._register_backward_hook()
 
+    def _register_backward_hook(self) -> None:
+        """Registers the hook that scales the weight gradient according to the current
+        mapping scales."""
         # - Remove old hook
         if self._backward_hook_handle is not None:
             self._backward_hook_handle.remove()
+            self._backward_hook_handle = None
 
         def hook(grad: Tensor) -> Tensor:
+            # the scales might get changed, e.g. when loading a state
+            scales = self.get_mapping_scales()
+            if scales is None:
+                return grad
             return grad / scales.to(grad.device).view(-1, 1) ** 2
 
         if self.tile.weight.requires_grad:
             self._backward_hook_handle = self.tile.register_weight_hook(hook)
 
+    def __getstate__(self) -> Dict:
+        """Get the state for pickling (without the hook)."""
+        state = super().__getstate__()
+        if "_backward_hook_handle" in state:
+            state["_backward_hook_handle"] = None
+        return state
+
+    def __setstate__(self, state: Dict) -> None:
+        """Set the state after unpickling and re-create the hook."""
+        handle = self.__dict__.get("_backward_hook_handle")
+        if handle is not None:
+            handle.remove()
+        super().__setstate__(state)
+        self._backward_hook_handle = None
+        self._register_backward_hook()
+
     def pre_forward(
         self, x_input: Tensor, dim: int, is_test: bool = False, ctx: Any = None
     ) -> Tensor:
-- 
2.43.0


From be97efc6dc3147fb90ecf219664207160a0d7018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 09/78] fix: do not modify the input in-place in the update of
 the torch transfer tile

---
 src/aihwkit/simulator/tiles/transfer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index b110393..37fac12 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -214,7 +214,8 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.grad_tile.set_learning_rate(lr_a)
 
         if self.chopper is not None:
-            x_input *= self.chopper
+            # not in-place since the input is owned by the caller
+            x_input = x_input * self.chopper
 
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
-- 
2.43.0


From 92b6a28882e783b335a8ed0578d7e8886b1b8bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 10/78] fix: store the transfer counters of the torch transfer
 tile in the state dict

---
 src/aihwkit/simulator/tiles/transfer.py | 47 +++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 37fac12..5afd28d 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -57,6 +57,15 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
     """
 
+    extra_state_names = [
+        "update_counter",
+        "chop_counter",
+        "transfer_idx",
+        "learning_rate",
+        "m_x",
+        "m_d",
+    ]
+
     def __init__(
         self, x_size: int, d_size: int, rpu_config: "UnitCellRPUConfig", dtype: RPUDataType
     ):
@@ -476,6 +485,44 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.weight_tile.load_extra(extra["weight_tile"], strict)
         self.grad_tile.load_extra(extra["grad_tile"], strict)
 
+    def get_extra_state(self) -> Dict[str, Any]:
+        """Extra state of the module that is needed to continue the training, namely the
+        counters of the transfer and the auto-scale.
+
+        Returns:
+            dictionary of the extra state for the state dict.
+        """
+        return {name: getattr(self, name) for name in self.extra_state_names}
+
+    def set_extra_state(self, state: Dict[str, Any]) -> None:
+        """Set the extra state from the state dict.
+
+        Args:
+            state: dictionary of the extra state.
+        """
+        for name in self.extra_state_names:
+            if name in state:
+                setattr(self, name, state[name])
+
+    def _load_from_state_dict(
+        self,
+        state_dict: Dict,
+        prefix: str,
+        local_metadata: Dict,
+        strict: bool,
+        missing_keys: List[str],
+        unexpected_keys: List[str],
+        error_msgs: List[str],
+    ) -> None:
+        # pylint: disable=too-many-arguments
+        super()._load_from_state_dict(
+            state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
+        )
+        # checkpoints of previous versions do not have the extra state
+        extra_state_key = prefix + "_extra_state"
+        if extra_state_key in missing_keys:
+            missing_keys.remove(extra_state_key)
+
     def set_weights_uniform_random(self, bmin: float, bmax: float) -> None:
         """Sets the weights to uniform random numbers.
 
-- 
2.43.0


From 8184a932e503232e144aec7f4952fe32a681f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 11/78] fix: keep given persistent weights when setting the
 device parameters

---
 src/rpucuda/rpu_pulsed_device.cpp | 11 ++++++++++-
 src/rpucuda/rpu_pulsed_device.h   |  1 -
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index bb4ae5c..4959930 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -334,7 +334,16 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
   }
 
   // update the weights according to the bounds
-  this->onSetWeights(out_weights);
+  if (getPar().usesPersistentWeight()) {
+    // The persistent weights are given and must not be overwritten with the weights (which might
+    // exceed the bounds because of the write noise)
+    for (int i = 0; i < this->size_; ++i) {
+      w_persistent_[0][i] = MIN(w_persistent_[0][i], w_max_bound_[0][i]);
+      w_persistent_[0][i] = MAX(w_persistent_[0][i], w_min_bound_[0][i]);
+    }
+  } else {
+    this->onSetWeights(out_weights);
+  }
 };
 
 template <typename T> int PulsedRPUDevice<T>::getHiddenWeightsCount() const {
diff --git a/src/rpucuda/rpu_pulsed_device.h b/src/rpucuda/rpu_pulsed_device.h
index dfcc270..8fa22e8 100644
--- a/src/rpucuda/rpu_pulsed_device.h
+++ b/src/rpucuda/rpu_pulsed_device.h
@@ -412,7 +412,6 @@ public:
     std::vector<std::string> names;                                                                \
     PulsedRPUDevice<T>::getDPNames(names);                                                         \
     {V2DP_BODY};                                                                                   \
-    this->onSetWeights(out_weights);                                                               \
   }
 
 #define BUILD_PULSED_DEVICE_META_PARAMETER(                                                        \
-- 
2.43.0


From 75a14a184fece003ad146ec2305c5093ed159779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 12/78] fix: store the estimated dw_min of pulsed devices with
 the extra state

---
 src/rpucuda/rpu_pulsed_device.cpp | 23 +++++++++++++++++++++++
 src/rpucuda/rpu_pulsed_device.h   |  4 ++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index 4959930..c2c81b3 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -346,6 +346,29 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
   }
 };
 
+template <typename T>
+void PulsedRPUDevice<T>::dumpExtra(RPU::state_t &extra, const std::string prefix) {
+  PulsedRPUDeviceBase<T>::dumpExtra(extra, prefix);
+
+  RPU::state_t state;
+  RPU::insert(state, "dw_min", getPar().dw_min);
+
+  RPU::insertWithPrefix(extra, state, prefix);
+}
+
+template <typename T>
+void PulsedRPUDevice<T>::loadExtra(
+    const RPU::state_t &extra, const std::string prefix, bool strict) {
+  PulsedRPUDeviceBase<T>::loadExtra(extra, prefix, strict);
+
+  auto state = RPU::selectWithPrefix(extra, prefix);
+
+  // might have been re-estimated when setting the device parameters
+  if (state.count("dw_min")) {
+    RPU::load(state, "dw_min", getPar().dw_min, strict);
+  }
+}
+
 template <typename T> int PulsedRPUDevice<T>::getHiddenWeightsCount() const {
   return getPar().usesPersistentWeight() ? 1 : 0;
 }
diff --git a/src/rpucuda/rpu_pulsed_device.h b/src/rpucuda/rpu_pulsed_device.h
index 8fa22e8..dcc2ce0 100644
--- a/src/rpucuda/rpu_pulsed_device.h
+++ b/src/rpucuda/rpu_pulsed_device.h
@@ -286,8 +286,8 @@ public:
   virtual void resetAtIndices(T **weights, std::vector<int> x_major_indices, RealWorldRNG<T> &rng);
   void copyInvertDeviceParameter(const PulsedRPUDeviceBase<T> *rpu_device) override;
 
-  using PulsedRPUDeviceBase<T>::dumpExtra;
-  using PulsedRPUDeviceBase<T>::loadExtra;
+  void dumpExtra(RPU::state_t &extra, const std::string prefix) override;
+  void loadExtra(const RPU::state_t &extra, const std::string prefix, bool strict) override;
 
 protected:
   void populate(const PulsedRPUDeviceMetaParameter<T> &par, RealWorldRNG<T> *rng);
-- 
2.43.0


From 522da6a62c4d7b29ba1af91b7a45a4d1f758f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 13/78] fix: set existing mapping scales when given as float

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 4747399..76f287d 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -524,7 +524,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if isinstance(mapping_scales, float):
             if self.mapping_scales is None:
                 self.mapping_scales = ones((1,), dtype=self.get_dtype(), device=self.device)
-                self.mapping_scales[:] = mapping_scales
+            self.mapping_scales[:] = mapping_scales
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-- 
2.43.0


From e0c95c7342eb6d8e5cd31cd5c5a86818f9a40f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 14/78] fix: leave the tile unchanged if set_weights rejects
 the weights

---
 src/aihwkit/simulator/tiles/array.py     |  6 +++---
 src/aihwkit/simulator/tiles/periphery.py | 21 ++++++++++++++-------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 8469312..b8f875c 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -109,6 +109,9 @@ class TileModuleArray(Module, TileModuleBase):
         shape = [self.out_size, self.in_size]
         weight = weight.detach().reshape(shape)
 
+        if self.bias is not None and bias is not None:
+            self.bias.data.copy_(bias)
+
         in_start = in_end = 0
         for in_size, in_tiles in zip(self.in_sizes, self.array):
             in_end += in_size
@@ -123,9 +126,6 @@ class TileModuleArray(Module, TileModuleBase):
                 out_start = out_end
             in_start = in_end
 
-        if self.bias is not None and bias is not None:
-            self.bias.data.copy_(bias)
-
     @no_grad()
     def get_weights(self, **kwargs: Any) -> Tuple[Tensor, Optional[Tensor]]:
         """Get the (combined) weight (and bias) tensors from the analog crossbar(s).
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 76f287d..ad890e2 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -152,17 +152,25 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 the mapping field.
 
         """
-        self.reference_combined_weights = None
-
+        digital_bias = None
         if bias is not None and self.digital_bias:
             if not isinstance(bias, Tensor):
                 bias = from_numpy(array(bias))
+            digital_bias, bias = bias, None
 
-            self.bias.data.copy_(bias)
-            bias = None
-
-        if hasattr(self.tile, "set_weights_cuda"):
+        # combine first: if the given weights are not valid, nothing should be changed
+        use_cuda = hasattr(self.tile, "set_weights_cuda")
+        if use_cuda:
             combined_weights = self._combine_weights_cuda(weight, bias)
+        else:
+            combined_weights = self._combine_weights(weight, bias)
+
+        if digital_bias is not None:
+            self.bias.data.copy_(digital_bias)
+
+        self.reference_combined_weights = None
+
+        if use_cuda:
             if apply_weight_scaling:
                 # apply_weight_scaling works on any device; re-transpose after.
                 combined_weights = self.apply_weight_scaling(
@@ -170,7 +178,6 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 ).t().contiguous()
             self.tile.set_weights_cuda(combined_weights)
         else:
-            combined_weights = self._combine_weights(weight, bias)
             if apply_weight_scaling:
                 combined_weights = self.apply_weight_scaling(combined_weights, weight_scaling_omega)
             self.tile.set_weights(combined_weights)
-- 
2.43.0


From 5ca437bdc33544cd7e20fe2760d0731608380f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 15/78] fix: keep the parameter of a tile at its weights when
 they are replaced

---
 src/aihwkit/simulator/tiles/custom.py     |  2 +-
 src/aihwkit/simulator/tiles/torch_tile.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index 22c19b4..be0a942 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -132,7 +132,7 @@ class CustomSimulatorTile(SimulatorTile, Module):
         if self._update.gradient_noise:
             delta_w += self._update.gradient_noise * randn_like(delta_w)
 
-        self._analog_weight = self._analog_weight - self.learning_rate * delta_w  # type: ignore
+        self._analog_weight.sub_(self.learning_rate * delta_w)  # type: ignore
 
     def set_config(self, rpu_config: "CustomRPUConfig") -> None:
         """Updated the configuration to allow on-the-fly changes.
diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 6bae2a2..ef6a4b7 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -8,7 +8,7 @@
 
 from typing import Callable, Any, Type, TYPE_CHECKING
 
-from torch import Tensor, zeros, clamp, randn
+from torch import Tensor, zeros, randn
 from torch.nn import Parameter, Module
 from torch.autograd import no_grad
 
@@ -128,11 +128,11 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
-            self.weight.data = scaled_weights / new_scale
+            self.weight.data.copy_(scaled_weights / new_scale)
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
-            self.weight.data = scaled_weights / new_scale.view(-1, 1)
+            self.weight.data.copy_(scaled_weights / new_scale.view(-1, 1))
             return new_scale
 
         raise TorchTileConfigError(f"Unknown weight remap type {remap.type}")
@@ -150,12 +150,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         """
 
         if clip.type == WeightClipType.FIXED_VALUE:
-            self.weight.data = clamp(self.weight, -clip.fixed_value, clip.fixed_value)
+            self.weight.data.clamp_(-clip.fixed_value, clip.fixed_value)
         elif clip.type == WeightClipType.LAYER_GAUSSIAN:
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data = clamp(self.weight, -alpha, alpha)
+            self.weight.data.clamp_(-alpha, alpha)
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
-- 
2.43.0


From fce2551d231e1c1728f0748d84a37fb5248790a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 16/78] fix: the data view of a parameter does not share memory
 with the tile

---
 src/aihwkit/optim/context.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 0fc0b88..7f8f7ed 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -274,12 +274,16 @@ class AnalogContext(Parameter):
         return raw.shape
 
     def _logical_data(self) -> Tensor:
-        """Return logical weights equivalent to ``analog_tile.get_weights()[0]``."""
+        """Return logical weights equivalent to ``analog_tile.get_weights()[0]``.
+
+        The returned tensor never shares its memory with the tile: otherwise the weights could
+        be written through any alias of it (``detach()``, ``view()``, ``torch.nn.init``...).
+        """
         raw = self._raw_data()
         try:
             analog_tile = object.__getattribute__(self, "analog_tile")
         except AttributeError:
-            return raw
+            return raw.detach().clone()
 
         logical = raw
         if getattr(analog_tile, "analog_bias", False) and raw.dim() >= 2:
@@ -287,11 +291,11 @@ class AnalogContext(Parameter):
 
         get_scales = getattr(analog_tile, "get_scales", None)
         if get_scales is None:
-            return logical
+            return logical.detach().clone()
 
         scales = get_scales()
         if scales is None:
-            return logical
+            return logical.detach().clone()
 
         scales = scales.to(device=logical.device, dtype=logical.dtype)
         return logical * scales.view(-1, 1)
-- 
2.43.0


From eed1f6eed80908005cdc89e11545fe8abdb25994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 17/78] fix: reference to the weights of a torch transfer tile

---
 src/aihwkit/simulator/tiles/transfer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 5afd28d..8a477c3 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -337,6 +337,8 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 If False (default), return a detached CPU copy.
         """
         # weight_tile.tile is a C++ tile that doesn't accept kwargs
+        if as_ref:
+            return self.weight_tile._get_tile_weights_ref()
         return self.weight_tile.tile.get_weights()
 
     def set_weights(self, weight: Tensor) -> None:
-- 
2.43.0


From fd4e0a686ad3834bfc0810931030b09bf9183658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 18/78] fix: apply the output scales of mapped convolutions to
 the channels

---
 src/aihwkit/nn/modules/conv_mapped.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 65caa2f..a289da5 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -240,7 +240,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
         if self.analog_tile_count() == 1:
             if use_indexed:
-                output = analog_tile(x_input)
+                output = analog_tile(x_input, tensor_view=self.tensor_view)
             else:
                 output = self._single_unfold(analog_tile, x_input)
 
@@ -257,7 +257,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
             for analog_tile in in_tiles:
                 if use_indexed:
-                    output = analog_tile(x)
+                    output = analog_tile(x, tensor_view=self.tensor_view)
                 else:
                     output = self._single_unfold(analog_tile, x)
                 out_result.append(output)
-- 
2.43.0


From 59330ff87f1dcae0f1cf2050f336bba729cd9e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 19/78] fix: data view of the parameter after the tile state
 was loaded

---
 src/aihwkit/optim/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 7f8f7ed..37ee90f 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -285,6 +285,10 @@ class AnalogContext(Parameter):
         except AttributeError:
             return raw.detach().clone()
 
+        # the tile might have been re-bound since, e.g. if its state was loaded
+        analog_tile._sync_analog_ctx_weights()
+        raw = self._raw_data()
+
         logical = raw
         if getattr(analog_tile, "analog_bias", False) and raw.dim() >= 2:
             logical = raw[:, : analog_tile.in_size]
-- 
2.43.0


From af9d2be673521fa5b9e8fbe9fbce254acff9629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 20/78] fix: do not update frozen analog tiles

---
 src/aihwkit/simulator/tiles/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index 84938a8..b2bc167 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -100,7 +100,7 @@ class AnalogFunction(Function):
             else:
                 analog_tile.update(input_, grad_output)
             analog_tile.reset_delta_weights()
-        else:
+        elif ctx.needs_input_grad[0]:
             # Store activation and errors for optimizer (for analog training)
             analog_ctx.analog_input.append(input_)
 
-- 
2.43.0


From 2e8e04a1aa848d3af4ea1e6ac427b0cc9f99efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 21/78] fix: accumulate gradients over batches of different
 shapes

---
 src/aihwkit/optim/analog_optimizer.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 347693b..95b921a 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -122,11 +122,18 @@ class AnalogOptimizerMixin:
                                 ),
                             )
                     else:
-                        x_input = cat(
-                            analog_ctx.analog_input, axis=-1 if analog_tile.in_trans else 0
+                        # accumulated batches might differ in all but the feature dimension
+                        x_input = (
+                            cat(analog_ctx.analog_input, axis=-1)
+                            if analog_tile.in_trans
+                            else cat([x.reshape(-1, x.size(-1)) for x in analog_ctx.analog_input])
                         )
-                        d_input = cat(
-                            analog_ctx.analog_grad_output, axis=-1 if analog_tile.out_trans else 0
+                        d_input = (
+                            cat(analog_ctx.analog_grad_output, axis=-1)
+                            if analog_tile.out_trans
+                            else cat(
+                                [d.reshape(-1, d.size(-1)) for d in analog_ctx.analog_grad_output]
+                            )
                         )
                         analog_tile.update(
                             x_input.to(analog_tile.device) if runtime.offload_input else x_input,
-- 
2.43.0


From cc59ad8afae70086774a1d56026131fe118d6e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 22/78] fix: copy the gradients that are stored for the analog
 update

---
 src/aihwkit/simulator/tiles/functions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index b2bc167..09cb646 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -101,13 +101,17 @@ class AnalogFunction(Function):
                 analog_tile.update(input_, grad_output)
             analog_tile.reset_delta_weights()
         elif ctx.needs_input_grad[0]:
-            # Store activation and errors for optimizer (for analog training)
-            analog_ctx.analog_input.append(input_)
+            # Store activation and errors for optimizer (for analog
+            # training). These need to be copies, since their memory might
+            # be written to before the optimizer step (e.g. autograd takes
+            # ``grad_output`` for the gradient of a digital bias if the
+            # batch size is 1 and then accumulates in-place into it).
+            analog_ctx.analog_input.append(input_.clone())
 
             if runtime.offload_gradient:
-                store_gradients = grad_output.cpu()
+                store_gradients = grad_output.to("cpu", copy=True)
             else:
-                store_gradients = grad_output
+                store_gradients = grad_output.clone()
             analog_ctx.analog_grad_output.append(store_gradients)
 
         ctx.saved_analog_tensors = []
-- 
2.43.0


From a582bc7a339a744b4e2f3828f19f3853d1b0591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 23/78] fix: write the torch gradient when the tile learning
 rate is zero

---
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp      | 3 ++-
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp | 3 ++-
 src/rpucuda/cuda/rpucuda.h                                 | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index bf8a1c0..48f2745 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -544,7 +544,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
              bool bias = false, bool x_trans = false, bool d_trans = false,
              bool non_blocking = false) {
             T_RPU lr = self.getLearningRate();
-            if (lr == (T_RPU)0.0) {
+            // external delta weights (e.g. torch gradients) do not depend on the learning rate
+            if (lr == (T_RPU)0.0 && self.getDeltaWeights() == nullptr) {
               return;
             }
 
diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
index 1b1a93f..85df683 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
@@ -313,7 +313,8 @@ void declare_rpu_tiles_cuda(py::module &m, std::string type_name_add, bool add_u
              bool bias = false, bool x_trans = false, bool d_trans = false,
              bool non_blocking = false) {
             T_RPU lr = self.getLearningRate();
-            if (lr == (T_RPU)0.0) {
+            // external delta weights (e.g. torch gradients) do not depend on the learning rate
+            if (lr == (T_RPU)0.0 && self.getDeltaWeights() == nullptr) {
               return;
             }
 
diff --git a/src/rpucuda/cuda/rpucuda.h b/src/rpucuda/cuda/rpucuda.h
index 8f18ae7..7f0b408 100644
--- a/src/rpucuda/cuda/rpucuda.h
+++ b/src/rpucuda/cuda/rpucuda.h
@@ -72,9 +72,9 @@ public:
   void printToStream(std::stringstream &ss) const override;
 
   void setDeltaWeights(T *dw) override;
+  T *getDeltaWeights() const override { return dev_delta_weights_extern_; };
 
 protected:
-  T *getDeltaWeights() const override { return dev_delta_weights_extern_; };
   T *getFBWeightsCuda(
       bool is_test) const; // for specialized forward/backward. To be used in any forward
   T *getUpWeightsCuda();   // for specialized update. To be used in any update
-- 
2.43.0


From 5ef1ed56df66c292bb881c1fc9c920113747a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 24/78] fix: conductances of uniform weights with a single
 device per weight

---
 src/aihwkit/inference/converter/conductance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/conductance.py b/src/aihwkit/inference/converter/conductance.py
index bf19ea0..f1c79c6 100644
--- a/src/aihwkit/inference/converter/conductance.py
+++ b/src/aihwkit/inference/converter/conductance.py
@@ -376,7 +376,7 @@ class SingleDeviceConductanceConverter(BaseConductanceConverter):
     def convert_to_conductances(self, weights: Tensor) -> Tuple[List[Tensor], Dict]:
         w_min = weights.min()
         w_max = weights.max()
-        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min)
+        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min).clamp(min=_ZERO_CLIP)
         scaled_weights = (weights - w_min) * scale_ratio
         conductance = scaled_weights + self.g_min
         params = {"scale_ratio": scale_ratio, "min": w_min}
-- 
2.43.0


From 6925a10b53c6c59b0582eb9767fc69e829cdef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 25/78] fix: keep what was programmed in the state dict of a
 tile

---
 src/aihwkit/simulator/tiles/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index 81cf46e..032e9d5 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -56,6 +56,13 @@ class AnalogTileStateNames:
     ANALOG_STATE_NAME = "analog_tile_state"
     EXTRA = "state_extra"
 
+    # what was programmed (see ``program_weights`` and ``drift_weights``)
+    REFERENCE_WEIGHTS = "reference_combined_weights"
+    PROGRAMMED_WEIGHTS = "programmed_weights"
+    DRIFT_NOISE_PARAMETERS = "drift_noise_parameters"
+    DRIFT_BASELINE = "drift_baseline"
+    DRIFT_READOUT = "drift_readout_tensor"
+
     @staticmethod
     def get_field_names() -> List[str]:
         """Returns expected field names."""
-- 
2.43.0


From 692c2f769a499a95847ab3d0baf1614cfa55eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 26/78] fix: load the state dict of a tile with drift
 compensation

---
 src/aihwkit/simulator/tiles/module.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 1a0ec7d..49d13c7 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -309,6 +309,17 @@ class TileModule(Module, TileModuleBase):
             if current_scales is None or current_scales.shape != scales.shape:
                 self.mapping_scales = scales.detach().clone().to(self.device)
 
+        # The shape of the drift compensation depends on its kind and is only known once
+        # the weights were drifted.
+        alpha = state_dict.get(prefix + "alpha")
+        if (
+            isinstance(alpha, Tensor)
+            and isinstance(self._buffers.get("alpha"), Tensor)
+            and alpha.shape in [(), (1,), (self.out_size,)]
+            and alpha.shape != self._buffers["alpha"].shape
+        ):
+            self.alpha = alpha.detach().clone().to(self.device)
+
         Module._load_from_state_dict(
             self,
             state_dict,
-- 
2.43.0


From 026b082c13ba816262893b09ec3b44bb5fee8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 27/78] fix: keep bias=False of analog layers in the cloud
 converters

---
 src/aihwkit/cloud/converter/v1/i_mappings.py | 4 +++-
 src/aihwkit/cloud/converter/v1/mappings.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/cloud/converter/v1/i_mappings.py b/src/aihwkit/cloud/converter/v1/i_mappings.py
index 3773a73..c7ab693 100644
--- a/src/aihwkit/cloud/converter/v1/i_mappings.py
+++ b/src/aihwkit/cloud/converter/v1/i_mappings.py
@@ -148,7 +148,9 @@ class LayerFunction(Function):
         Raises ConversionError
         """
         if field == "bias":
-            return getattr(source, "bias", None) is not None
+            # Analog layers have a flag, digital layers a parameter or ``None``.
+            bias = getattr(source, "bias", None)
+            return bias is not None and bias is not False
         if field == "rpu_config":
             # preset_cls = type(source.analog_tile.rpu_config)
             analog_tile = next(source.analog_tiles())
diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index 98766da..232fc04 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -155,7 +155,9 @@ class LayerFunction(Function):
     def get_field_value_to_proto(self, source: Any, field: str, default: Any = None) -> Any:
         """Get the value of a field."""
         if field == "bias":
-            return getattr(source, "bias", None) is not None
+            # Analog layers have a flag, digital layers a parameter or ``None``.
+            bias = getattr(source, "bias", None)
+            return bias is not None and bias is not False
 
         if field == "weight_scaling_omega":
             return next(source.analog_tiles()).rpu_config.mapping.weight_scaling_omega
-- 
2.43.0


From 94ed1ccc398bbaf29097e1c968ae5c3daccc353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 28/78] fix: restore weight_scaling_omega in the cloud training
 converter

---
 src/aihwkit/cloud/converter/v1/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index 232fc04..75b7423 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -136,7 +136,7 @@ class Function:
         if weight_scaling_omega is not None:
             if "rpu_config" not in kwargs or not hasattr(kwargs["rpu_config"], "mapping"):
                 raise ConversionError("Expect Mappable RPUConfig")
-            kwargs["rpu_config"].mapping.weights_scaling_omega = weight_scaling_omega
+            kwargs["rpu_config"].mapping.weight_scaling_omega = weight_scaling_omega
 
         return cls(**kwargs)
 
-- 
2.43.0


From f8ba3fee0affbdd14a8939e8c862540e6f3950fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 29/78] fix: decode the input of a cloud experiment by its
 category

---
 src/aihwkit/cloud/client/entities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/cloud/client/entities.py b/src/aihwkit/cloud/client/entities.py
index 8eff579..b3f80f8 100644
--- a/src/aihwkit/cloud/client/entities.py
+++ b/src/aihwkit/cloud/client/entities.py
@@ -87,7 +87,7 @@ class CloudExperiment:
 
         input_ = self._api_client.input_get(self.input_id)
 
-        if "InferenceRPUConfig" in str(input_):
+        if self.category == CloudExperimentCategory.BASIC_INFERENCE:
             input_proto = InferenceInput()
             input_proto.ParseFromString(input_)
             proto = BasicInferencingConverter().from_proto(input_proto)
-- 
2.43.0


From 1138f9e2a7c4dd677b58337580fe136bc6013142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 30/78] fix: fetch the input id of just submitted cloud
 experiments

---
 src/aihwkit/cloud/client/entities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/cloud/client/entities.py b/src/aihwkit/cloud/client/entities.py
index b3f80f8..84172f1 100644
--- a/src/aihwkit/cloud/client/entities.py
+++ b/src/aihwkit/cloud/client/entities.py
@@ -85,6 +85,10 @@ class CloudExperiment:
         if self.status() == CloudJobStatus.UNKNOWN:
             raise ExperimentStatusError("Experiment input is not available")
 
+        # Populate the input if not present (it is not known upon creation).
+        if not self.input_id:
+            self.input_id = self._api_client.experiment_get(self.id_).input_id
+
         input_ = self._api_client.input_get(self.input_id)
 
         if self.category == CloudExperimentCategory.BASIC_INFERENCE:
-- 
2.43.0


From 1924f9cd31d1529138d2de2964cbf60f14856c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:46 +0000
Subject: [PATCH 31/78] fix: do not keep error pages or partial files as weight
 templates

---
 .../experiments/experiments/inferencing.py    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/experiments/experiments/inferencing.py b/src/aihwkit/experiments/experiments/inferencing.py
index d9128d7..3426868 100644
--- a/src/aihwkit/experiments/experiments/inferencing.py
+++ b/src/aihwkit/experiments/experiments/inferencing.py
@@ -9,8 +9,9 @@
 # pylint: disable=too-many-locals
 
 from typing import Any, Dict, Tuple, Type, Optional
-from os import path, mkdir
+from os import path, mkdir, remove, replace
 from copy import deepcopy
+from uuid import uuid4
 from requests import get as requests_get
 from numpy import ndarray, array, logspace, log10, zeros, concatenate
 
@@ -32,10 +33,20 @@ WEIGHT_TEMPLATE_URL = "https://github.com/IBM-AI-Hardware-Center/Composer/raw/ma
 
 
 def download(url: str, destination: str) -> None:
-    """Helper for downloading a file from url"""
+    """Helper for downloading a file from url
+
+    The destination either gets the complete file or is left untouched.
+    """
     response = requests_get(url, timeout=30.0)
-    with open(destination, "wb") as file_:
-        file_.write(response.content)
+    response.raise_for_status()
+    partial = "{}.{}.part".format(destination, uuid4().hex)
+    try:
+        with open(partial, "wb") as file_:
+            file_.write(response.content)
+        replace(partial, destination)
+    finally:
+        if path.exists(partial):
+            remove(partial)
 
 
 class BasicInferencing(Experiment):
-- 
2.43.0


From c5ca38cc14d0d7d18a0f2f47a1f2e0b26781125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:14 +0000
Subject: [PATCH 32/78] fix: recognise checkpoints of the current format in
 convert_legacy_checkpoint

---
 src/aihwkit/utils/legacy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/utils/legacy.py b/src/aihwkit/utils/legacy.py
index 135d037..324a578 100644
--- a/src/aihwkit/utils/legacy.py
+++ b/src/aihwkit/utils/legacy.py
@@ -78,18 +78,18 @@ def convert_legacy_checkpoint(
             has_mapped = has_mapped or "Mapped" in analog_layer.__class__.__name__
             layer_dic[name] = analog_layer.__class__.__name__
 
-    if not has_mapped:
-        for tile in model.analog_tiles():  # type: ignore
-            tile.rpu_config.mapping.max_input_size = 0
-            tile.rpu_config.mapping.max_output_size = 0
-
     legacy_chkpt = deepcopy(legacy_chkpt)
     for key, value in legacy_chkpt.items():
-        if "analog_model.analog_tile_state" in key:
+        if key.endswith("analog_tile_state") and "out_size" not in value:
             # this is actually a new checkpoint. abort.
             rpu_config = deepcopy(value["rpu_config"])
             return legacy_chkpt, rpu_config
 
+    if not has_mapped:
+        for tile in model.analog_tiles():  # type: ignore
+            tile.rpu_config.mapping.max_input_size = 0
+            tile.rpu_config.mapping.max_output_size = 0
+
     for key, value in legacy_chkpt.items():
         if "analog_tile_state" in key:
             rpu_config = value["rpu_config"]
-- 
2.43.0


From e31d7c386bd011396c6f0828678589a664edda17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:14 +0000
Subject: [PATCH 33/78] fix: weight templates given as a URL have no local path

---
 src/aihwkit/experiments/experiments/inferencing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/experiments/experiments/inferencing.py b/src/aihwkit/experiments/experiments/inferencing.py
index 3426868..6a4794a 100644
--- a/src/aihwkit/experiments/experiments/inferencing.py
+++ b/src/aihwkit/experiments/experiments/inferencing.py
@@ -11,6 +11,7 @@
 from typing import Any, Dict, Tuple, Type, Optional
 from os import path, mkdir, remove, replace
 from copy import deepcopy
+from urllib.parse import quote
 from uuid import uuid4
 from requests import get as requests_get
 from numpy import ndarray, array, logspace, log10, zeros, concatenate
@@ -186,6 +187,7 @@ class BasicInferencing(Experiment):
                 template_dir = "/tmp/weight_templates"
                 if weight_template_id.startswith("http"):
                     template_url = weight_template_id
+                    template_path = template_dir + "/" + quote(weight_template_id, safe="")
                 else:
                     # print('weights_template_id: ', weight_template_id)
                     template_path = template_dir + "/" + weight_template_id + ".pth"
-- 
2.43.0


From 1e0b3f2d3e7c51f9680146bd21d92451e1ac2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 34/78] fix: create missing directories of weight templates

---
 src/aihwkit/experiments/experiments/inferencing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/experiments/experiments/inferencing.py b/src/aihwkit/experiments/experiments/inferencing.py
index 6a4794a..cf635f9 100644
--- a/src/aihwkit/experiments/experiments/inferencing.py
+++ b/src/aihwkit/experiments/experiments/inferencing.py
@@ -9,7 +9,7 @@
 # pylint: disable=too-many-locals
 
 from typing import Any, Dict, Tuple, Type, Optional
-from os import path, mkdir, remove, replace
+from os import path, makedirs, remove, replace
 from copy import deepcopy
 from urllib.parse import quote
 from uuid import uuid4
@@ -193,8 +193,7 @@ class BasicInferencing(Experiment):
                     template_path = template_dir + "/" + weight_template_id + ".pth"
                     template_url = WEIGHT_TEMPLATE_URL + weight_template_id + ".pth"
                 # check if the file exists
-                if not path.exists(template_dir):
-                    mkdir(template_dir)
+                makedirs(path.dirname(template_path), exist_ok=True)
                 if not path.exists(template_path):
                     download(template_url, template_path)
 
-- 
2.43.0


From 72dbe12baaf26b0023051e2e05665ecdc554ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 35/78] fix: wrapper classes of different AnalogWrapper base
 classes are different

---
 src/aihwkit/nn/modules/container.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 7f5d36b..d17e25c 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -100,7 +100,7 @@ class AnalogWrapper(AnalogContainerBase):
          model: model to wrap with the analog wrapper.
     """
 
-    SUBCLASSES = {}  # type: Dict[str, Type]
+    SUBCLASSES = {}  # type: Dict[Tuple[Type, Type], Type]
     """Registry of the created subclasses."""
 
     def __new__(cls, module: Optional[Module] = None, **__: Any) -> "AnalogWrapper":
@@ -114,10 +114,11 @@ class AnalogWrapper(AnalogContainerBase):
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogModuleBase` and for the specific torch module
         # (`module_cls`).
-        if subclass_name not in cls.SUBCLASSES:
-            cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, module_cls), {})
+        key = (cls, module_cls)
+        if key not in cls.SUBCLASSES:
+            cls.SUBCLASSES[key] = new_class(subclass_name, key, {})
 
-        return super().__new__(cls.SUBCLASSES[subclass_name])
+        return super().__new__(cls.SUBCLASSES[key])
 
     def __init__(self, module: Module):
         self.__dict__.update(module.__dict__)
-- 
2.43.0


From d19f33562a23197f17dd2f0252ea510129489dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 36/78] fix: analog optimizers of different wrapper classes are
 different

---
 src/aihwkit/optim/analog_optimizer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 95b921a..114a1ac 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -7,7 +7,7 @@
 """Analog-aware inference optimizer."""
 
 from types import new_class
-from typing import Any, Callable, Dict, Optional, Type
+from typing import Any, Callable, Dict, Optional, Tuple, Type
 
 from torch import cat
 from torch.optim import Optimizer, SGD, Adam
@@ -200,7 +200,7 @@ class AnalogOptimizer(AnalogOptimizerMixin, Optimizer):
         >>> optimizer = AnalogOptimizer(SGD, model.parameters(), lr=0.02)
     """
 
-    SUBCLASSES = {}  # type: Dict[str, Type]
+    SUBCLASSES = {}  # type: Dict[Tuple[Type, Type], Type]
     """Registry of the created subclasses."""
 
     def __new__(cls, optimizer_cls: Type, *_: Any, **__: Any) -> "AnalogOptimizer":
@@ -209,10 +209,11 @@ class AnalogOptimizer(AnalogOptimizerMixin, Optimizer):
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogOptimizer` and for the specific torch optimizer
         # (`optimizer_cls`).
-        if subclass_name not in cls.SUBCLASSES:
-            cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, optimizer_cls), {})
+        key = (cls, optimizer_cls)
+        if key not in cls.SUBCLASSES:
+            cls.SUBCLASSES[key] = new_class(subclass_name, key, {})
 
-        return super().__new__(cls.SUBCLASSES[subclass_name])
+        return super().__new__(cls.SUBCLASSES[key])
 
     def __init__(
         self, optimizer_cls: Type, *args: Any, **kwargs: Any  # pylint: disable=unused-argument
-- 
2.43.0


From 0430ba2001c7c4c49c2ab813883d64ae9984adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 37/78] fix: choppers of the weight matrix in chopped transfer
 devices

---
 src/rpucuda/rpu_chopped_transfer_device.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index 6db1e4e..0a0a057 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -542,14 +542,17 @@ void ChoppedTransferRPUDevice<T>::reduceToWeights(T **weights) const {
   // the read path (readAndUpdate): +1 when the two choppers agree, -1 when
   // they differ (i.e. c_d[i] * c_x[j] expressed as an XOR of the flags).
 
+  const auto &d_chopper = (par.transfer_columns) ? out_chopper_ : in_chopper_;
+  const auto &x_chopper = (par.transfer_columns) ? in_chopper_ : out_chopper_;
+
   T *A = *this->weights_vec_[0];
   int size = this->x_size_ * this->d_size_;
 
-  // Layout: W[x_idx * d_size + d_idx] (column-major, d as inner dimension)
+  // Layout: W[d_idx * x_size + x_idx] (x-major, as in doDenseUpdate)
   for (int idx = 0; idx < size; idx++) {
-    int d_idx = idx % this->d_size_;
-    int x_idx = idx / this->d_size_;
-    T chop = (in_chopper_[x_idx] != out_chopper_[d_idx]) ? (T)-1.0 : (T)1.0;
+    int d_idx = idx / this->x_size_;
+    int x_idx = idx % this->x_size_;
+    T chop = (x_chopper[x_idx] != d_chopper[d_idx]) ? (T)-1.0 : (T)1.0;
     weights[0][idx] += gamma * (chop - (T)1.0) * A[idx];
   }
 }
-- 
2.43.0


From 8c939332fcf91b31d5f3beadd9fa748b4389090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 38/78] fix: pulses on power step reference devices beyond
 their bounds

---
 src/rpucuda/rpu_powstep_reference_device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpucuda/rpu_powstep_reference_device.cpp b/src/rpucuda/rpu_powstep_reference_device.cpp
index 2d5fec6..f1a6fef 100644
--- a/src/rpucuda/rpu_powstep_reference_device.cpp
+++ b/src/rpucuda/rpu_powstep_reference_device.cpp
@@ -133,6 +133,10 @@ inline void update_once_reference(
   }
   w += ref; // first add
 
+  // weights might have been set beyond the range (fractional power of negative is not defined)
+  w = MAX(w, min_bound);
+  w = MIN(w, max_bound);
+
   if (sign > 0) {
     w -= scale_down * (T)powf((w - min_bound) / range, gamma_down) *
          ((T)1.0 + dw_min_std * rng->sampleGauss());
-- 
2.43.0


From 772c75d1e1fb10fec0aeee02abb06394fd130471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 39/78] fix: do not estimate dw_min as zero

---
 src/rpucuda/rpu_pulsed_device.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index c2c81b3..f3a4364 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -324,8 +324,9 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
   }
 
   dw_min /= this->size_;
-  // need dw_min for update management
-  if ((T)fabsf(dw_min - getPar().dw_min) / getPar().dw_min > (T)2.0 * getPar().dw_min_dtod) {
+  // need dw_min for update management (cannot be estimated if none of the devices can be updated)
+  if (dw_min > (T)0.0 &&
+      (T)fabsf(dw_min - getPar().dw_min) / getPar().dw_min > (T)2.0 * getPar().dw_min_dtod) {
     RPU_WARNING(
         "DW min seems to have changed during hidden parameter set. Will update parameter "
         "with estimated value.");
-- 
2.43.0


From 010d48e9169bc4991982f4e4bcdc60d2f8385db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 40/78] fix: limit the number of pulses for very large updates

---
 src/rpucuda/rpu_pulsed_meta_parameter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_meta_parameter.cpp b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
index 8bff996..0e6fea2 100644
--- a/src/rpucuda/rpu_pulsed_meta_parameter.cpp
+++ b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
@@ -206,10 +206,9 @@ void PulsedUpdateMetaParameter<T>::performUpdateManagement(
       T k_val = lr * x_val * d_val / weight_granularity;
 
       if (this->update_bl_management) {
-        BL = (int)ceilf(k_val);
-        if (BL > max_BL) {
-          BL = max_BL; // the set BL is the *max BL* in case of update_bl_management  !
-        }
+        // the set BL is the *max BL* in case of update_bl_management  !
+        // (compare before converting, as k_val might exceed the integer range)
+        BL = (k_val <= (T)max_BL) ? (int)ceilf(k_val) : max_BL;
         A = (T)sqrtf(lr / (weight_granularity * (T)BL));
         B = A;
       }
-- 
2.43.0


From 66b913e9b6e176cf502b8bf6ae39d224201311f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 41/78] fix: buffered transfer of rows wrote beyond its
 temporary vector

The vector had the size of a column also when rows are read.
---
 src/rpucuda/rpu_buffered_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_buffered_transfer_device.cpp b/src/rpucuda/rpu_buffered_transfer_device.cpp
index 4e71de7..cc9cee1 100644
--- a/src/rpucuda/rpu_buffered_transfer_device.cpp
+++ b/src/rpucuda/rpu_buffered_transfer_device.cpp
@@ -156,10 +156,10 @@ void BufferedTransferRPUDevice<T>::readAndUpdate(
     return;
   }
 
-  this->transfer_tmp_.resize(this->d_size_);
   const auto &par = getPar();
   int in_size = par.getInSize();
   int out_size = par.getOutSize();
+  this->transfer_tmp_.resize(out_size);
 
   T weight_granularity = this->rpu_device_vec_[to_device_idx]->getWeightGranularity();
   T buffer_granularity = par.thres_scale * weight_granularity;
-- 
2.43.0


From c93d82a3a1501bc2db7538abb35a54a1720002ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 42/78] fix: mixed precision with only x or only d quantized
 used a wrong error vector

All (quantized) errors were written to one position, possibly beyond the vector.
---
 src/rpucuda/rpu_mixedprec_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device.cpp b/src/rpucuda/rpu_mixedprec_device.cpp
index 117cf00..99ddf16 100644
--- a/src/rpucuda/rpu_mixedprec_device.cpp
+++ b/src/rpucuda/rpu_mixedprec_device.cpp
@@ -279,7 +279,7 @@ void MixedPrecRPUDevice<T>::doDirectVectorUpdate(
         d = RPU_ROUNDFUNF(d / d_width + stoch_value);
         d = MIN(MAX(d, -half_d_bins), half_d_bins) * d_width;
       }
-      qd_[i] = d;
+      qd_[j] = d;
     }
 
     RPU::math::ger<T>(
-- 
2.43.0


From 4d4dafc47ee4ea8bcd5843eece494ba1cd234783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 43/78] fix: transfer with reset erased columns before they
 were read

With several reads per transfer all columns of the transfer were reset after
the first of them was read, so that the others were lost.
---
 src/rpucuda/rpu_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 53c4073..4172391 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -466,7 +466,7 @@ void TransferRPUDevice<T>::readAndUpdate(
       // potentially reset here (because of possible same device to-from):
       // NOTE that with_reset_prob is COL-wise prob (elem device prob is 1)
       T **W_from = getDeviceWeights(from_device_idx);
-      this->rpu_device_vec_[from_device_idx]->resetCols(W_from, i_slice, n_vec, 1, this->rw_rng_);
+      this->rpu_device_vec_[from_device_idx]->resetCols(W_from, i_slice + (int)i, 1, 1, this->rw_rng_);
     }
 
     // update according to device
-- 
2.43.0


From 5c6a1036aefaafe96bf955cfbe2f3287d4a1895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 44/78] fix: default transfer cycles of higher devices were
 scaled with the wrong size

Documented is x_size / n_reads_per_transfer, the number of transfers until
everything was read once (d_size if rows are transferred).
---
 src/rpucuda/rpu_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 4172391..6080995 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -184,7 +184,7 @@ void TransferRPUDeviceMetaParameter<T>::initializeWithSize(int x_size, int d_siz
     T n = transfer_every;
     for (size_t i = 0; i < n_devices; i++) {
       transfer_every_vec.push_back(n);
-      n *= (T)_out_size / (T)n_reads_per_transfer;
+      n *= (T)_in_size / (T)n_reads_per_transfer;
     }
     if (no_self_transfer) {
       transfer_every_vec[n_devices - 1] = 0;
-- 
2.43.0


From 2fc04550e0ceb5fcbd0977cc9577afce0c1094df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:27 +0000
Subject: [PATCH 45/78] fix: the update of the fast device of a transfer
 compound was scaled by the other devices

The number of pulses was computed with the average granularity of all devices,
although only the first one gets them.
---
 src/rpucuda/rpu_transfer_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 6080995..c281a76 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -335,6 +335,8 @@ void TransferRPUDevice<T>::populate(
     const TransferRPUDeviceMetaParameter<T> &p, RealWorldRNG<T> *rng) {
 
   VectorRPUDevice<T>::populate(p, rng);
+  // the pulses of the SGD update are for the first (fast) device only
+  this->setWeightGranularity(this->rpu_device_vec_[0]->getWeightGranularity());
   auto &par = getPar();
   par.initializeWithSize(this->x_size_, this->d_size_);
   auto shared_rng = std::make_shared<RNG<T>>(0); // we just take a new one here (seeds...)
@@ -666,6 +668,7 @@ void TransferRPUDevice<T>::getDeviceParameter(T **weights, std::vector<T *> &dat
 template <typename T>
 void TransferRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T *> &data_ptrs) {
   VectorRPUDevice<T>::setDeviceParameter(out_weights, data_ptrs);
+  this->setWeightGranularity(this->rpu_device_vec_[0]->getWeightGranularity());
 
   if (fully_hidden_) {
     // weight might have changed because of hidden weight change
-- 
2.43.0


From 8a8a64092cf4bdb374f87e4351a7cb44820873a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 46/78] fix: Gaussian clipping of the torch tile erased weights
 without a spread

The standard deviation of a single weight is not a number and that of
equal weights is zero: clipping turned them into NaN and zero. As in
RPUCuda, these are not clipped.
---
 src/aihwkit/simulator/tiles/torch_tile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index ef6a4b7..d38b66c 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -155,7 +155,9 @@ class TorchSimulatorTile(SimulatorTile, Module):
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data.clamp_(-alpha, alpha)
+            # no clipping if there is no (valid) standard deviation, as in RPUCuda
+            if alpha > 0:
+                self.weight.data.clamp_(-alpha, alpha)
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
-- 
2.43.0


From 48b39f677c16132c02ac4c150d8292965e68108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 47/78] fix: remapping of the torch tile turned zero rows into
 NaN

The new scale of zero weights is zero. As in RPUCuda, they are kept.
---
 src/aihwkit/simulator/tiles/torch_tile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index d38b66c..e8342bc 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -8,7 +8,7 @@
 
 from typing import Callable, Any, Type, TYPE_CHECKING
 
-from torch import Tensor, zeros, randn
+from torch import Tensor, zeros, randn, where, ones_like
 from torch.nn import Parameter, Module
 from torch.autograd import no_grad
 
@@ -128,10 +128,13 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
+            # all zero weights cannot be scaled
+            new_scale = where(new_scale > 0.0, new_scale, ones_like(new_scale))
             self.weight.data.copy_(scaled_weights / new_scale)
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
+            new_scale = where(new_scale > 0.0, new_scale, ones_like(new_scale))
             self.weight.data.copy_(scaled_weights / new_scale.view(-1, 1))
             return new_scale
 
-- 
2.43.0


From f262e117025003e8da65293931c674088fb22d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 48/78] fix: discretizing zero weights of the torch tile
 relative to their maximum made NaN

---
 src/aihwkit/simulator/tiles/torch_tile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index e8342bc..d8052ed 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -246,6 +246,9 @@ class TorchSimulatorTile(SimulatorTile, Module):
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
             out_weight = inp_weight.clone().view(target_shape)
+            if modifier.rel_to_actual_wmax:
+                # all zero weights do not have a range to discretize
+                assumed_wmax = where(assumed_wmax > 0.0, assumed_wmax, ones_like(assumed_wmax))
             out_weight = UniformQuantize.apply(
                 out_weight, modifier.res, assumed_wmax, modifier.sto_round
             )
-- 
2.43.0


From e7e399bb8f451430625c316049b9348c662a5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:13 +0000
Subject: [PATCH 49/78] fix: switching off the weight modifier on the fly kept
 the last modified weights

Forward and backward passes used the weights of the last modification
forever, while the update changed the actual weights.
---
 src/aihwkit/simulator/tiles/inference.py | 18 ++++++++++--------
 src/rpucuda/cuda/rpucuda.cu              |  7 +++++++
 src/rpucuda/rpu.cpp                      | 10 ++++++++++
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index ccc5c4a..bbbed78 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -23,6 +23,7 @@ from aihwkit.simulator.tiles.rpucuda import RPUCudaSimulatorTileWrapper
 from aihwkit.simulator.tiles.base import BaseTile
 from aihwkit.simulator.rpu_base import tiles
 from aihwkit.simulator.parameters.helpers import parameters_to_bindings
+from aihwkit.simulator.parameters.inference import WeightModifierParameter
 from aihwkit.simulator.parameters.enums import (
     WeightModifierType,
     WeightClipType,
@@ -329,17 +330,18 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
         # update the forward / backward modified weights here
         if not hasattr(self.rpu_config, "modifier"):
             return
-        if self.rpu_config.modifier.type == WeightModifierType.NONE:
-            return
-        if (
-            self.rpu_config.modifier.type == WeightModifierType.COPY
-            and self.rpu_config.modifier.pdrop <= 0.0
+        modifier = self.rpu_config.modifier
+        if not on_the_fly_bindings and (
+            modifier.type == WeightModifierType.NONE
+            or (modifier.type == WeightModifierType.COPY and modifier.pdrop <= 0.0)
         ):
             return
+        if modifier.type == WeightModifierType.NONE:
+            # might have been modified earlier: copy resets to the actual weights
+            modifier = WeightModifierParameter(type=WeightModifierType.COPY)
+
         if on_the_fly_bindings or "weight_modify_params" not in self._tmp:
-            self._tmp["weight_modify_params"] = parameters_to_bindings(
-                self.rpu_config.modifier, data_type
-            )
+            self._tmp["weight_modify_params"] = parameters_to_bindings(modifier, data_type)
         self.tile.modify_weights(self._tmp["weight_modify_params"])  # type: ignore
 
     def __getstate__(self) -> Dict:
diff --git a/src/rpucuda/cuda/rpucuda.cu b/src/rpucuda/cuda/rpucuda.cu
index 7be1946..5c69ba7 100644
--- a/src/rpucuda/cuda/rpucuda.cu
+++ b/src/rpucuda/cuda/rpucuda.cu
@@ -827,6 +827,13 @@ void RPUCudaSimple<T>::modifyFBWeights(const WeightModifierParameter<T> &wmpar)
 
   ENFORCE_NO_DELAYED_UPDATE; // will get confused with the buffer
 
+  if (wmpar.type == WeightModifierType::Copy && wmpar.pdrop <= (T)0.0) {
+    // not modified (anymore), thus use the actual weights
+    dev_fb_weights_ = nullptr;
+    fb_wmodifier_cuda_ = nullptr;
+    return;
+  }
+
   if (dev_fb_weights_ == nullptr) {
     dev_fb_weights_ = RPU::make_unique<CudaArray<T>>(context_, this->x_size_ * this->d_size_);
     fb_wmodifier_cuda_ =
diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index bb4bea7..c38fc03 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -1750,6 +1750,16 @@ void RPUSimple<T>::remapWeights(const WeightRemapParameter &wrmpar, T *scales, T
 
 template <typename T> void RPUSimple<T>::modifyFBWeights(const WeightModifierParameter<T> &wmpar) {
 
+  if (wmpar.type == WeightModifierType::Copy && wmpar.pdrop <= (T)0.0) {
+    // not modified (anymore), thus use the actual weights
+    if (fb_weights_ != nullptr) {
+      Array_2D_Free<T>(fb_weights_);
+      fb_weights_ = nullptr;
+      fb_weight_modifier_ = nullptr;
+    }
+    return;
+  }
+
   if (fb_weights_ == nullptr) {
     fb_weights_ = Array_2D_Get<T>(this->d_size_, this->x_size_);
     fb_weight_modifier_ = RPU::make_unique<WeightModifier<T>>(this->x_size_, this->d_size_);
-- 
2.43.0


From 2ad830a02e3f909792e888afc26dddbd8c893d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 50/78] fix: gradients of large outputs were zeroed although
 they are not clipped

With a perfect forward pass, or with noise or bound management, the
outputs of a tile exceed forward.out_bound without being clipped.
---
 src/aihwkit/simulator/tiles/rpucuda.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/rpucuda.py b/src/aihwkit/simulator/tiles/rpucuda.py
index 639a925..8fb7a9e 100644
--- a/src/aihwkit/simulator/tiles/rpucuda.py
+++ b/src/aihwkit/simulator/tiles/rpucuda.py
@@ -16,6 +16,7 @@ from torch.autograd import no_grad
 
 from aihwkit.exceptions import CudaError
 from aihwkit.simulator.parameters.base import RPUConfigGeneric
+from aihwkit.simulator.parameters.enums import BoundManagementType, NoiseManagementType
 from aihwkit.simulator.rpu_base import cuda, tiles
 from aihwkit.simulator.tiles.base import SimulatorTileWrapper
 from aihwkit.exceptions import ArgumentError
@@ -120,9 +121,16 @@ class RPUCudaSimulatorTileWrapper(SimulatorTileWrapper):
         """Helper for getting the output bound to correct the
         gradients using the AnalogFunction.
         """
-        if hasattr(self.rpu_config, "forward") and self.rpu_config.forward.out_bound > 0:
-            return self.rpu_config.forward.out_scale * self.rpu_config.forward.out_bound * 0.999
-        return None
+        forward = getattr(self.rpu_config, "forward", None)
+        if forward is None or forward.is_perfect or forward.out_bound <= 0:
+            return None
+        if (
+            forward.noise_management != NoiseManagementType.NONE
+            or forward.bound_management != BoundManagementType.NONE
+        ):
+            # the outputs are re-scaled, thus not clipped at the bound
+            return None
+        return forward.out_scale * forward.out_bound * 0.999
 
     @no_grad()
     def cpu(self) -> "SimulatorTileWrapper":
-- 
2.43.0


From 98bd3b9700049fa5f0eb8397b4cf5e3b9bc3743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 51/78] fix: a learned input range becoming negative flipped
 its gradients and the weight update

---
 src/aihwkit/simulator/tiles/periphery.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index ad890e2..6f80757 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -821,6 +821,9 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if self.input_range is None:
             return values
 
+        # the range might have become negative by the update
+        self.input_range.data.abs_()
+
         if isinstance(self.rpu_config, PrePostProcessingRPU) and update_from_data:
             ir_params = self.rpu_config.pre_post.input_range
             idx = self.input_range_update_idx
@@ -832,8 +835,6 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                     ) / (idx + 1)
                     self.input_range_update_idx.data += 1
 
-                self.input_range.data = self.input_range.data.abs()
-
         return clamp(
             values,
             min=-abs(self.input_range.item()),  # pylint: disable=invalid-unary-operand-type
-- 
2.43.0


From a18253748e55e4a2ff1f5f9176060536c13432dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 52/78] fix: gradient scale of the input range was ignored for
 absolute gradients

---
 src/aihwkit/simulator/tiles/inference_torch.py | 2 +-
 src/aihwkit/simulator/tiles/periphery.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index b54931a..72f7a29 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -56,7 +56,7 @@ class InputRangeForward(Function):
 
             if ir_params.gradient_relative:
                 ir_grad *= input_range
-                ir_grad *= ir_params.gradient_scale
+            ir_grad *= ir_params.gradient_scale
 
             if ir_params.manage_output_clipping:
                 raise NotImplementedError
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 6f80757..9c52330 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1131,7 +1131,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
             if ir_params.gradient_relative:
                 grad *= self.input_range
-                grad *= ir_params.gradient_scale
+            grad *= ir_params.gradient_scale
 
             zero_grad_msk = (
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
-- 
2.43.0


From 2d883775c67bd8d72a42e1bfcc903f59b29e6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 53/78] fix: share of clipped outputs was counted relative to
 the number of inputs

---
 src/aihwkit/simulator/tiles/periphery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 9c52330..35ef9ca 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1137,7 +1137,9 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
             )
             if ir_params.manage_output_clipping and zero_grad_msk is not None:
-                output_percentage = 1.0 - zero_grad_msk.count_nonzero().item() / d_output.numel()
+                output_percentage = 1.0 - (
+                    zero_grad_msk.count_nonzero().item() / zero_grad_msk.numel()
+                )
                 grad -= (
                     (1.0 - output_percentage)
                     * self.input_range
-- 
2.43.0


From 99b2ae97dddaa0a06c493cc31df406c9684a069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 54/78] fix: input range calibration enabled the input range of
 tiles that are not calibrated

and then failed with a KeyError if only the enabled layers are to be
calibrated.
---
 .../inference/calibration/calibration.py        | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 793d5c5..0467e6a 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -249,23 +249,12 @@ def calibrate_input_ranges(
     for handle in handles:
         handle.remove()
 
-    # now create the input range fields
+    # now set the input ranges of the tiles that are calibrated
     for tile_name, tile in model.named_analog_tiles():
-        rpu_config = tile.rpu_config
-        if not rpu_config.pre_post.input_range.enable:
-            rpu_config.pre_post.input_range.enable = True
-            rpu_config.pre_post.input_range.learn_input_range = False
-            tile.init_input_processing()
-
-    for tile_name, tile in model.named_analog_tiles():
-        rpu_config = tile.rpu_config
-
-        if not isinstance(rpu_config, PrePostProcessingRPU) or not hasattr(rpu_config, "forward"):
-            continue
-
-        if not force_all_layers and not rpu_config.pre_post.input_range.enable:
+        if tile_name not in cache:
             continue
 
+        rpu_config = tile.rpu_config
         inputs = cache[tile_name]
         if inputs.numel() == 0:
             if verbose:
-- 
2.43.0


From 972215412d1a537952cbafe64e85922e975a781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 55/78] fix: tiles without any inputs stayed perfect after the
 input range calibration

---
 src/aihwkit/inference/calibration/calibration.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 0467e6a..33dd7d0 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -255,6 +255,14 @@ def calibrate_input_ranges(
             continue
 
         rpu_config = tile.rpu_config
+        # Restore the tile if necessary
+        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
+            tile_state = tile.__getstate__()
+            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
+                tile_name
+            ]
+            tile.__setstate__(tile_state)
+
         inputs = cache[tile_name]
         if inputs.numel() == 0:
             if verbose:
@@ -269,14 +277,6 @@ def calibrate_input_ranges(
         elif calibration_type == InputRangeCalibrationType.MAX:
             input_range = inputs.item()
 
-        # Restore the tile if necessary
-        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
-            tile_state = tile.__getstate__()
-            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
-                tile_name
-            ]
-            tile.__setstate__(tile_state)
-
         # set the input range
         tile.set_input_range(input_range)
         if verbose:
-- 
2.43.0


From 771f8a6375d868b9044524ade6ab08535967cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 56/78] fix: input range calibration failed for inputs that are
 all zero

---
 src/aihwkit/inference/calibration/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 33dd7d0..1ac2e32 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -78,6 +78,8 @@ def _calibration_pre_forward(
     x_input = input_args[0]
     x_input = x_input.reshape(-1, x_input.size(-1))
     x_input = x_input[~(x_input == 0.0).all(-1)]
+    if x_input.numel() == 0:
+        return
 
     ir_params = mod.rpu_config.pre_post.input_range  # type: ignore
     cache = global_cache[cache_key]
-- 
2.43.0


From 6e2fd6eca21da85a0b60ceab1ab14753b6e39784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 57/78] fix: a failing input range calibration left hooks,
 perfect tiles and the eval mode behind

Also, sub-modules that were in a different mode than the model lost it.
---
 .../inference/calibration/calibration.py      | 158 +++++++++---------
 1 file changed, 81 insertions(+), 77 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 1ac2e32..c619cab 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -179,77 +179,92 @@ def calibrate_input_ranges(
     if not isinstance(model, AnalogLayerBase) or not isinstance(model, Module):
         raise ArgumentError("Expect an analog module")
 
-    was_training = cast(Module, model).training
+    training_modes = {name: mod.training for name, mod in cast(Module, model).named_modules()}
     model = cast(Module, model).eval()
     handles = []
     is_perfect_dic = {}
     cache = {}  # type: Dict[str, Tensor]
 
-    for tile_name, tile in model.named_analog_tiles():
-        rpu_config = tile.rpu_config
-
-        if not isinstance(rpu_config, PrePostProcessingRPU) or not hasattr(rpu_config, "forward"):
-            continue
-
-        if not force_all_layers and not rpu_config.pre_post.input_range.enable:
-            continue
-
-        # Reset / modify the necessary tile fields
-
-        if not rpu_config.pre_post.input_range.enable:
-            rpu_config.pre_post.input_range.enable = True
-            rpu_config.pre_post.input_range.learn_input_range = False
-            tile.init_input_processing()
-
-        rpu_config.pre_post.input_range.init_from_data = 0  # turn off on-the-fly mechanism
-
-        if std_alpha is not None:
-            rpu_config.pre_post.input_range.init_std_alpha = std_alpha
-
-        needs_set_state = False
-
-        io_pars = rpu_config.forward  # type: IOParameters
-        if io_pars.noise_management != NoiseManagementType.NONE:
-            if not force_all_layers:
-                raise ConfigError(
-                    "Noise management should be turned off for input_range calibration."
-                )
-            io_pars.noise_management = NoiseManagementType.NONE
-            needs_set_state = True
-
-        is_perfect_dic[tile_name] = io_pars.is_perfect
-        if (
-            "Max" in calibration_type.value or "Cache" in calibration_type.value
-        ) and not is_perfect_dic[tile_name]:
-            rpu_config.forward.is_perfect = True
-            needs_set_state = True
-
-        if needs_set_state:
-            # need to recreate tile to apply rpu config changes to tile
-            tile_state = tile.__getstate__()
-            tile_state[AnalogTileStateNames.RPU_CONFIG] = rpu_config
-            tile.__setstate__(tile_state)
-
-        # generate hook
-        cache[tile_name] = tensor([])
-        hook = partial(
-            _calibration_pre_forward,
-            ir_quantile=quantile,
-            calibration_type=calibration_type,
-            cache_key=tile_name,
-            global_cache=cache,
-            max_samples=max_samples,
-        )
-        handles.append(tile.register_forward_pre_hook(hook))
-
-    # Pass through the samples
-    progress_bar = tqdm if verbose else lambda x: x
-    for args, kwargs in progress_bar(dataloader):  # type: ignore
-        model(*args, **kwargs)
-
-    # Remove hooks
-    for handle in handles:
-        handle.remove()
+    try:
+        for tile_name, tile in model.named_analog_tiles():
+            rpu_config = tile.rpu_config
+
+            if not isinstance(rpu_config, PrePostProcessingRPU) or not hasattr(rpu_config, "forward"):
+                continue
+
+            if not force_all_layers and not rpu_config.pre_post.input_range.enable:
+                continue
+
+            # Reset / modify the necessary tile fields
+
+            if not rpu_config.pre_post.input_range.enable:
+                rpu_config.pre_post.input_range.enable = True
+                rpu_config.pre_post.input_range.learn_input_range = False
+                tile.init_input_processing()
+
+            rpu_config.pre_post.input_range.init_from_data = 0  # turn off on-the-fly mechanism
+
+            if std_alpha is not None:
+                rpu_config.pre_post.input_range.init_std_alpha = std_alpha
+
+            needs_set_state = False
+
+            io_pars = rpu_config.forward  # type: IOParameters
+            if io_pars.noise_management != NoiseManagementType.NONE:
+                if not force_all_layers:
+                    raise ConfigError(
+                        "Noise management should be turned off for input_range calibration."
+                    )
+                io_pars.noise_management = NoiseManagementType.NONE
+                needs_set_state = True
+
+            is_perfect_dic[tile_name] = io_pars.is_perfect
+            if (
+                "Max" in calibration_type.value or "Cache" in calibration_type.value
+            ) and not is_perfect_dic[tile_name]:
+                rpu_config.forward.is_perfect = True
+                needs_set_state = True
+
+            if needs_set_state:
+                # need to recreate tile to apply rpu config changes to tile
+                tile_state = tile.__getstate__()
+                tile_state[AnalogTileStateNames.RPU_CONFIG] = rpu_config
+                tile.__setstate__(tile_state)
+
+            # generate hook
+            cache[tile_name] = tensor([])
+            hook = partial(
+                _calibration_pre_forward,
+                ir_quantile=quantile,
+                calibration_type=calibration_type,
+                cache_key=tile_name,
+                global_cache=cache,
+                max_samples=max_samples,
+            )
+            handles.append(tile.register_forward_pre_hook(hook))
+
+        # Pass through the samples
+        progress_bar = tqdm if verbose else lambda x: x
+        for args, kwargs in progress_bar(dataloader):  # type: ignore
+            model(*args, **kwargs)
+
+    finally:
+        # Remove hooks and restore the tiles, also in case of a failure
+        for handle in handles:
+            handle.remove()
+
+        for tile_name, tile in model.named_analog_tiles():
+            if tile_name not in is_perfect_dic:
+                continue
+            if tile.rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
+                tile_state = tile.__getstate__()
+                tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
+                    tile_name
+                ]
+                tile.__setstate__(tile_state)
+
+        for name, mod in model.named_modules():
+            mod.training = training_modes.get(name, mod.training)
 
     # now set the input ranges of the tiles that are calibrated
     for tile_name, tile in model.named_analog_tiles():
@@ -257,14 +272,6 @@ def calibrate_input_ranges(
             continue
 
         rpu_config = tile.rpu_config
-        # Restore the tile if necessary
-        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
-            tile_state = tile.__getstate__()
-            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
-                tile_name
-            ]
-            tile.__setstate__(tile_state)
-
         inputs = cache[tile_name]
         if inputs.numel() == 0:
             if verbose:
@@ -288,9 +295,6 @@ def calibrate_input_ranges(
         rpu_config.pre_post.input_range.init_value = tile.input_range.item()
         rpu_config.pre_post.input_range.calibration_info = calibration_type.value
 
-    if was_training:
-        model = cast(Module, model).train()
-
 
 def calibrate_quantization_ranges(
     model: Module, loader: DataLoader, max_num_batches: int = 20
-- 
2.43.0


From 3bb0e0bdff615e811c0b891cb138f2ef927d4b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 58/78] fix: quantization range calibration used one batch more
 than requested

---
 src/aihwkit/inference/calibration/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index c619cab..b4c368f 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -340,7 +340,7 @@ def calibrate_quantization_ranges(
         model.eval()
         device = next(model.parameters()).device
         for i, data in enumerate(loader):
-            if i > max_num_batches:
+            if i >= max_num_batches:
                 break
 
             if isinstance(data, (tuple, list)):
-- 
2.43.0


From 2a62c70fe28efc24ac9a8251aca8e0079f5d6c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:09 +0000
Subject: [PATCH 59/78] fix: state of a calibrated model could not be loaded
 into a newly built one

The input range buffer created by the calibration was unexpected.
---
 src/aihwkit/simulator/tiles/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 49d13c7..8cbfa80 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -320,6 +320,11 @@ class TileModule(Module, TileModuleBase):
         ):
             self.alpha = alpha.detach().clone().to(self.device)
 
+        # The input range might have been enabled only after construction, e.g. by
+        # calibration, which the loaded configuration then says.
+        if prefix + "input_range" in state_dict and getattr(self, "input_range", 0) is None:
+            self.init_input_processing()
+
         Module._load_from_state_dict(
             self,
             state_dict,
-- 
2.43.0


From 7404f08a1de9cc4a698a629ccc23a6b238bc55fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:04 +0000
Subject: [PATCH 60/78] fix: torch tile output of an all-zero mini-batch was
 cut off the graph

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index b05932e..5eec5b1 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -9,7 +9,7 @@
 from typing import Union, Any, Optional
 from numbers import Number
 
-from torch import Tensor, zeros, randn_like, clamp, bmm
+from torch import Tensor, randn_like, clamp, bmm
 from torch.autograd import no_grad
 
 from aihwkit.exceptions import ConfigError
@@ -76,7 +76,6 @@ class AnalogMVM:
             input_=input_, nm_type=io_pars.noise_management, io_pars=io_pars
         )
 
-        out_size = input_.shape[:-1] + (weight.shape[int(trans)],)
         n_management = io_pars.noise_management != NoiseManagementType.NONE
         b_management = io_pars.bound_management != BoundManagementType.NONE
         if (
@@ -84,8 +83,8 @@ class AnalogMVM:
             and isinstance(nm_scale_values, Tensor)
             and (nm_scale_values == 0.0).all()
         ):
-            # - Shortcut, output would be all zeros
-            return zeros(size=out_size, device=input_.device, dtype=input_.dtype)
+            # - Shortcut, output would be all zeros (still part of the graph)
+            return cls._matmul(weight, input_ - input_.detach(), trans)
 
         if isinstance(nm_scale_values, Tensor):
             # set zeros to 1 to avoid divide-by-zero errors
-- 
2.43.0


From 6216a32366f712881f653013a47aa8aaf3f70b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:42 +0000
Subject: [PATCH 61/78] fix: calibration to a quantile of zero made an empty
 input range and NaN outputs

---
 src/aihwkit/inference/calibration/calibration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index b4c368f..db1e062 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -286,6 +286,11 @@ def calibrate_input_ranges(
         elif calibration_type == InputRangeCalibrationType.MAX:
             input_range = inputs.item()
 
+        if input_range == 0.0:
+            if verbose:
+                print(f"Warning: Tile {tile_name} would have an empty input range")
+            continue
+
         # set the input range
         tile.set_input_range(input_range)
         if verbose:
-- 
2.43.0


From d948ff5894cc2f165e379ae025a25df576d634ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 62/78] fix: quantized layer in eval mode kept its old weights
 after a state was loaded

---
 .../simulator/digital_low_precision/base_quantized_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
index 7abcb51..18180da 100644
--- a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
+++ b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
@@ -134,6 +134,10 @@ class QuantizedModule(nn.Module):
             self.cached_params = None
         return self
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        self.cached_params = None
+        return super()._load_from_state_dict(*args, **kwargs)
+
     def _apply(self, *args, **kwargs):
         self.cached_params = None
         return super(QuantizedModule, self)._apply(*args, **kwargs)
-- 
2.43.0


From 1b411abb064fdcdfe3b71bf4b3e1b2763404f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 63/78] fix: quantization ranges stayed learnable after leaving
 the learning state

---
 .../digital_low_precision/quantization_manager.py        | 7 +++++++
 .../simulator/digital_low_precision/quantizers.py        | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
index d5f5710..576b051 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
@@ -99,10 +99,12 @@ class QuantizationManager(nn.Module):
         return self.quantizer.n_bits
 
     def estimate_ranges(self):
+        self._stop_learning()
         self.state = Qstates.estimate_ranges
 
     def fix_ranges(self):
         if self.quantizer.is_initialized:
+            self._stop_learning()
             self.state = Qstates.fix_ranges
         else:
             raise QuantizerNotInitializedError()
@@ -112,8 +114,13 @@ class QuantizationManager(nn.Module):
         self.state = Qstates.learn_ranges
 
     def estimate_ranges_train(self):
+        self._stop_learning()
         self.state = Qstates.estimate_ranges_train
 
+    def _stop_learning(self):
+        if self.is_learning():
+            self.quantizer.make_range_fixed()
+
     def is_learning(self) -> bool:
         return self.state == Qstates.learn_ranges
 
diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 422619d..8b7fb42 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -343,6 +343,11 @@ class AsymmetricUniformQuantizer(QuantizerBase):
         self._delta.requires_grad_(True)
         self._zero_float.requires_grad_(True)
 
+    def make_range_fixed(self):
+        for param in (self._delta, self._zero_float):
+            param.requires_grad_(False)
+            param.grad = None
+
     def reset(self):
         self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
         self._zero_float = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
@@ -576,6 +581,10 @@ class SymmetricUniformQuantizer(QuantizerBase):
     def make_range_trainable(self):
         self._delta.requires_grad_(True)
 
+    def make_range_fixed(self):
+        self._delta.requires_grad_(False)
+        self._delta.grad = None
+
     def reset(self):
         self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
         self._signed = None
-- 
2.43.0


From 2fec08c9677f0336048be3384733fe2d0bad3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 64/78] fix: state could not be loaded into a quantizer that
 learns its range

---
 .../simulator/digital_low_precision/quantizers.py  | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 8b7fb42..67ec9b7 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -198,14 +198,16 @@ class AsymmetricUniformQuantizer(QuantizerBase):
         if delta_key in state_dict:
             loaded_delta = state_dict[delta_key]
             if loaded_delta.shape != self._delta.shape:
-                self._delta.resize_(loaded_delta.shape)
-            self._delta.copy_(loaded_delta)
+                self._delta.data = torch.empty_like(self._delta.data).resize_(loaded_delta.shape)
+            self._delta.data.copy_(loaded_delta)
 
         if zero_float_key in state_dict:
             loaded_zero_float = state_dict[zero_float_key]
             if loaded_zero_float.shape != self._zero_float.shape:
-                self._zero_float.resize_(loaded_zero_float.shape)
-            self._zero_float.copy_(loaded_zero_float)
+                self._zero_float.data = torch.empty_like(self._zero_float.data).resize_(
+                    loaded_zero_float.shape
+                )
+            self._zero_float.data.copy_(loaded_zero_float)
 
         super(AsymmetricUniformQuantizer, self)._load_from_state_dict(
             state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
@@ -457,8 +459,8 @@ class SymmetricUniformQuantizer(QuantizerBase):
         if delta_key in state_dict:
             loaded_delta = state_dict[delta_key]
             if loaded_delta.shape != self._delta.shape:
-                self._delta.resize_(loaded_delta.shape)
-            self._delta.copy_(loaded_delta)
+                self._delta.data = torch.empty_like(self._delta.data).resize_(loaded_delta.shape)
+            self._delta.data.copy_(loaded_delta)
 
         # Fix the shape of the signed_key to be loaded
         if signed_key in state_dict:
-- 
2.43.0


From 101a197ad90aafee819919b86a2b35f258d2fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 65/78] fix: range estimator shared its running range with the
 state it was loaded from

---
 .../simulator/digital_low_precision/range_estimators.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index eecdb3c..21bff30 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -61,10 +61,10 @@ class RangeEstimatorBase(nn.Module):
         xmax_key = prefix + "current_xmax"
         if xmin_key in state_dict:
             if self.current_xmin is None or state_dict[xmin_key].shape != self.current_xmin.shape:
-                self.current_xmin = state_dict[xmin_key]
+                self.current_xmin = state_dict[xmin_key].clone()
         if xmax_key in state_dict:
             if self.current_xmax is None or state_dict[xmax_key].shape != self.current_xmax.shape:
-                self.current_xmax = state_dict[xmax_key]
+                self.current_xmax = state_dict[xmax_key].clone()
 
         super(RangeEstimatorBase, self)._load_from_state_dict(
             state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
-- 
2.43.0


From e89fab2e4c3ef52ed6d10b1343b968aa400d2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 66/78] fix: state from before the range estimation could not
 be loaded into a calibrated model

---
 .../digital_low_precision/quantization_manager.py      | 10 ++++++++++
 .../simulator/digital_low_precision/quantizers.py      |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
index 576b051..69e38c1 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
@@ -143,6 +143,16 @@ class QuantizationManager(nn.Module):
 
         return self.quantizer(x)
 
+    def _load_from_state_dict(self, state_dict, prefix, *args, **kwargs):
+        if (
+            self.range_estimator is not None
+            and prefix + "quantizer._delta" in state_dict
+            and prefix + "range_estimator.current_xmin" not in state_dict
+        ):
+            # The stored state is from before the first estimation of the range
+            self.range_estimator.reset()
+        super()._load_from_state_dict(state_dict, prefix, *args, **kwargs)
+
     def set_quant_range(self, x_min, x_max):
         self.quantizer.set_quant_range(x_min, x_max)
 
diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 67ec9b7..08756bd 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -465,6 +465,9 @@ class SymmetricUniformQuantizer(QuantizerBase):
         # Fix the shape of the signed_key to be loaded
         if signed_key in state_dict:
             self._signed = state_dict[signed_key]
+        elif delta_key in state_dict:
+            # Stored before the quantizer was initialized
+            self._signed = None
 
         super(SymmetricUniformQuantizer, self)._load_from_state_dict(
             state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
-- 
2.43.0


From b89886d5dc0d18fc551bb970ccccdb7225123be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 67/78] fix: model with per-channel quantization could not be
 pickled after its first forward

---
 .../simulator/digital_low_precision/quantizers.py   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 08756bd..a27a762 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -13,12 +13,17 @@
 
 from collections import namedtuple
 from enum import Enum
+from functools import partial
 
 import torch
 from torch.autograd import Function
 from torch import nn
 
 
+def _view_as(x, shape):
+    return x.view(shape)
+
+
 class RoundStraightThrough(Function):
     @staticmethod
     def forward(ctx, x):
@@ -266,7 +271,7 @@ class AsymmetricUniformQuantizer(QuantizerBase):
     def _adjust_params_per_axis(self, x_float):
         r = len(x_float.size())
         new_shape = [1] * self.axis + [-1] + [1] * (r - self.axis - 1)
-        self.view_func = lambda x: x.view(new_shape)
+        self.view_func = partial(_view_as, shape=new_shape)
         # self._delta = self._delta.view(new_shape)
         # self._zero_float = self._zero_float.view(new_shape)
 
@@ -281,7 +286,7 @@ class AsymmetricUniformQuantizer(QuantizerBase):
         """
         if self.view_func is None and x.ndim != self.delta.ndim:
             new_shape = [-1] + [1] * (len(x.shape) - 1)
-            self.view_func = lambda x: x.view(new_shape)
+            self.view_func = partial(_view_as, shape=new_shape)
             # self._delta = self.delta.view(new_shape)
             # if self._zero_float is not None:
             #     self._zero_float = self._zero_float.view(new_shape)
@@ -526,7 +531,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
     def _adjust_params_per_axis(self, x_float):
         r = len(x_float.size())
         new_shape = [1] * self.axis + [-1] + [1] * (r - self.axis - 1)
-        self.view_func = lambda x: x.view(new_shape)
+        self.view_func = partial(_view_as, shape=new_shape)
 
     def _adjust_params_per_channel(self, x):
         """
@@ -539,7 +544,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
         """
         if self.view_func is None and x.ndim != self.delta.ndim:
             new_shape = [-1] + [1] * (len(x.shape) - 1)
-            self.view_func = lambda x: x.view(new_shape)
+            self.view_func = partial(_view_as, shape=new_shape)
 
     def _tensorize_min_max(self, x_min, x_max):
         """
-- 
2.43.0


From 3f4f0ead719549787cadd0a4564657939333cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 68/78] fix: reset of the MSE range estimator kept the
 one-sidedness of the old data

---
 src/aihwkit/simulator/digital_low_precision/range_estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index 21bff30..136778f 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -509,6 +509,7 @@ class MSE_Estimator(RangeEstimatorBase):
     def reset(self):
         super().reset()
         self.loss_array = None
+        self.one_sided_dist = None
 
 
 class CrossEntropyEstimator(MSE_Estimator):
-- 
2.43.0


From 8ad6ce85b3daf5c305071d61276015671350d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 69/78] fix: quantization manager with given range failed in
 forward

---
 .../simulator/digital_low_precision/quantization_manager.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
index 69e38c1..2d2543d 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
@@ -130,7 +130,7 @@ class QuantizationManager(nn.Module):
         self.estimate_ranges_train()
 
     def forward(self, x):
-        if self.range_estimator.per_group_range_estimation:
+        if self.range_estimator is not None and self.range_estimator.per_group_range_estimation:
             self.range_estimator(x)
             return x
 
-- 
2.43.0


From 8e8f98b2e43c3db4979e035cda95be03b9d2786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 70/78] fix: quantized tile array of a single tile failed in
 forward

---
 src/aihwkit/simulator/tiles/array.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index b8f875c..15aea02 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -226,6 +226,7 @@ class QuantizedTileModuleArray(TileModuleArray):
         # same bit-precision. The wide layers need to be quantized to equalize
         # the range across the different tiles and keep the precision down
         # in case of bias addition.
+        self.module_out_quantizer = None
         if self.analog_tile_count > 1:
             if rpu_config.act_quant_config is not None and rpu_config.act_quant_config.n_bits > 0:
                 self.module_out_quantizer = QuantizedActivation(
@@ -233,8 +234,6 @@ class QuantizedTileModuleArray(TileModuleArray):
                 )
                 # Enable the quantization
                 self.module_out_quantizer.quantized_acts()
-            else:
-                self.module_out_quantizer = None
 
         # Initialize the bias quantizer, if quantized periphery is defined
         if self.bias is not None:
-- 
2.43.0


From 8494fa38e9cd560bce59b47d86762470da4805da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 71/78] fix: bias range of a quantized tile array stayed at its
 first evaluation in training

---
 src/aihwkit/simulator/tiles/array.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 15aea02..4e14d86 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -295,16 +295,18 @@ class QuantizedTileModuleArray(TileModuleArray):
                     result += q_bias.view(*tensor_view)
 
                 else:
-                    if (
-                        self.training
-                        and self.periph_quant.learn_quant_params
-                        and not self.bias_quantizer.is_learning()
-                    ):
+                    if self.training and not self.periph_quant.learn_quant_params:
+                        # Estimate if not learned
+                        self.bias_quantizer.estimate_ranges_train()
+                    elif self.training and not self.bias_quantizer.is_learning():
                         # If learning is enabled, estimate till `init_learning_after`
                         # before switching to learned
                         self.bias_quant_update_idx.data += 1  # count up to the desired batch
                         if self.bias_quant_update_idx > self.periph_quant.init_learning_after:
                             self.bias_quantizer.learn_ranges()  # Switch to learned
+                        else:
+                            # Remain/switch to estimate ranges
+                            self.bias_quantizer.estimate_ranges_train()
 
                     # Add to the result the quantized bias
                     result += self.bias_quantizer(self.bias).view(*tensor_view)
-- 
2.43.0


From 2aa6dee0bb24b7466b9da8db3b3cd67ad54f1565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:45 +0000
Subject: [PATCH 72/78] fix: model learning its ranges failed in forward after
 loading a state without ranges

---
 .../simulator/digital_low_precision/quantization_manager.py    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
index 2d2543d..5167471 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
@@ -151,6 +151,9 @@ class QuantizationManager(nn.Module):
         ):
             # The stored state is from before the first estimation of the range
             self.range_estimator.reset()
+            if self.state in (Qstates.fix_ranges, Qstates.learn_ranges):
+                # No range to fix or to learn: as in newly built model
+                self.estimate_ranges_train()
         super()._load_from_state_dict(state_dict, prefix, *args, **kwargs)
 
     def set_quant_range(self, x_min, x_max):
-- 
2.43.0


From ca5ceb01c9cf8be93f3d75d42901b86303960977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:02 +0000
Subject: [PATCH 73/78] fix: quantized tile array with learned bias range could
 not be built

---
 src/aihwkit/simulator/tiles/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 4e14d86..7abfd22 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -250,7 +250,7 @@ class QuantizedTileModuleArray(TileModuleArray):
                 )
                 if periph_quant.learn_quant_params:
                     self.bias_quant_update_idx = Parameter(
-                        full((1,), 0.0, device=self.device), requires_grad=False
+                        full((1,), 0.0, device=self.bias.device), requires_grad=False
                     )
             else:
                 self.bias_quantizer = None
-- 
2.43.0


From 74af6b2d58c2405bcfd9ecedaefbf912b55424e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 74/78] fix: calibration of a quantized model which was
 evaluated before did not estimate its weight ranges

---
 src/aihwkit/simulator/digital_low_precision/hijacker.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/hijacker.py b/src/aihwkit/simulator/digital_low_precision/hijacker.py
index cc7c65d..4f2e5b0 100644
--- a/src/aihwkit/simulator/digital_low_precision/hijacker.py
+++ b/src/aihwkit/simulator/digital_low_precision/hijacker.py
@@ -10,7 +10,7 @@ import torch
 from torch import nn
 
 from aihwkit.simulator.digital_low_precision.base_quantized_classes import QuantizedModule
-from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager
+from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager, Qstates
 from aihwkit.simulator.digital_low_precision.range_estimators import RangeEstimators
 from aihwkit.simulator.digital_low_precision.utils import to_numpy
 
@@ -74,7 +74,10 @@ class QuantizationHijacker(QuantizedModule):
         return res
 
     def get_params(self):
-        if not self.training and self.cached_params:
+        if self._quant_w and self.weight_quantizer.state == Qstates.estimate_ranges:
+            # The range might change with every pass
+            self.cached_params = None
+        elif not self.training and self.cached_params:
             return self.cached_params
 
         weight, bias = self.get_weight_bias()
-- 
2.43.0


From bb8b56fba728df0477cef13e47c7d44a937d41ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:58 +0000
Subject: [PATCH 75/78] fix: unpickled quantizer without range failed in its
 first per-channel estimation

---
 src/aihwkit/simulator/digital_low_precision/quantizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index a27a762..5ab8881 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -337,8 +337,8 @@ class AsymmetricUniformQuantizer(QuantizerBase):
         new_zero_float = (-x_min / new_delta_val).detach()
 
         if not self.is_initialized:
-            self._delta.resize_(new_delta_val.shape)
-            self._zero_float.resize_(new_zero_float.shape)
+            self._delta.data = self._delta.data.new_empty(new_delta_val.shape)
+            self._zero_float.data = self._zero_float.data.new_empty(new_zero_float.shape)
 
         self._delta.copy_(new_delta_val)
         self._zero_float.copy_(new_zero_float)
@@ -582,7 +582,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
         x_absmax = torch.max(x_min.abs(), x_max)
         new_delta_val = x_absmax / self.int_max
         if not self.is_initialized:
-            self._delta.resize_(new_delta_val.shape)
+            self._delta.data = self._delta.data.new_empty(new_delta_val.shape)
         self._delta.copy_(new_delta_val)
 
         if self.scale_domain == "log":
-- 
2.43.0


From d0060c6a8976f38f607be67d0aad0a0b61c6ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:58 +0000
Subject: [PATCH 76/78] fix: per-channel MSE range estimation failed for
 one-dimensional weights

---
 .../simulator/digital_low_precision/range_estimators.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index 136778f..e3ebb2d 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -445,7 +445,7 @@ class MSE_Estimator(RangeEstimatorBase):
             if channel_index == 0 and not self.per_channel:
                 data_segment = data
             else:
-                data_segment = data[channel_index]
+                data_segment = data[channel_index : channel_index + 1]
 
             self.result = minimize_scalar(
                 self.golden_sym_loss,
@@ -465,7 +465,7 @@ class MSE_Estimator(RangeEstimatorBase):
             if channel_index == 0 and not self.per_channel:
                 data_segment = data
             else:
-                data_segment = data[channel_index]
+                data_segment = data[channel_index : channel_index + 1]
 
             self.result = minimize_scalar(
                 self.golden_asym_range_loss,
-- 
2.43.0


From c357df9aef76e371e0d726310e4181d748f423b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:27 +0000
Subject: [PATCH 77/78] fix: per-channel MSE range estimation failed after
 loading a state

---
 src/aihwkit/simulator/digital_low_precision/range_estimators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index e3ebb2d..a576f6c 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -311,6 +311,8 @@ class MSE_Estimator(RangeEstimatorBase):
         # loss_fx to be per-channel
         temp_q.per_channel = False
         if x_min or x_max:
+            temp_q.reset()
+            temp_q.view_func = None
             temp_q.set_quant_range(x_min, x_max)
         return temp_q(x_float)
 
-- 
2.43.0


From 0d6e4c0b842827708be8e17b2774ad456f37396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:27 +0000
Subject: [PATCH 78/78] fix: reset quantization range was not learned any more
 by the optimizer

---
 src/aihwkit/simulator/digital_low_precision/quantizers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 5ab8881..aa402dc 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -356,8 +356,9 @@ class AsymmetricUniformQuantizer(QuantizerBase):
             param.grad = None
 
     def reset(self):
-        self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
-        self._zero_float = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
+        self.make_range_fixed()
+        self._delta.data = self._delta.data.new_full((), torch.nan)
+        self._zero_float.data = self._zero_float.data.new_full((), torch.nan)
 
 
 class SymmetricUniformQuantizer(QuantizerBase):
@@ -596,7 +597,8 @@ class SymmetricUniformQuantizer(QuantizerBase):
         self._delta.grad = None
 
     def reset(self):
-        self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
+        self.make_range_fixed()
+        self._delta.data = self._delta.data.new_full((), torch.nan)
         self._signed = None
 
 
-- 
2.43.0

