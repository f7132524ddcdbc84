From 9786111dc10a96f9a2b38771b006364a3abefab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 01/93] fix: unregister exactly the dispatcher item whose scope
 ends

---
 src/fastforward/dispatcher.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/dispatcher.py b/src/fastforward/dispatcher.py
index 9331bcd..9ea36db 100644
--- a/src/fastforward/dispatcher.py
+++ b/src/fastforward/dispatcher.py
@@ -133,10 +133,9 @@ class DispatcherRegistrationHook:
         pass
 
     def __exit__(self, exc_type, exc_value, traceback):  # type: ignore[no-untyped-def]
-        try:
-            _DISPATCHER[self._op_name].remove(self._dispatcher_item)
-        except ValueError:
-            pass
+        # Remove by identity: equal items may have been registered more than once.
+        items = _DISPATCHER[self._op_name]
+        items[:] = [item for item in items if item is not self._dispatcher_item]
 
 
 def _register_decorator(
-- 
2.43.0


From 1920d8fe1e3b1bc35cb5dc0fed8bd17b8ca1fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 02/93] fix: let overrides call the overridden function more
 than once

---
 src/fastforward/forward_override.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/forward_override.py b/src/fastforward/forward_override.py
index 0d774ad..9edbeb2 100644
--- a/src/fastforward/forward_override.py
+++ b/src/fastforward/forward_override.py
@@ -1,6 +1,7 @@
 # Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
+import functools
 import weakref
 
 from typing import TYPE_CHECKING, Any, Callable, Generic, Mapping, Protocol, TypeVar
@@ -82,15 +83,25 @@ class _WrappedOverriddenFn(Generic[T]):
     ) -> None:
         self.context = context
         self.overridden_fn = overridden_fn
-        _, override_stack = zip(*sorted(override_map.items()))
-        self.override_stack: list[OverrideFn[T]] = list(override_stack)
+        self.override_map = override_map
 
     def __call__(self, *args: Any, **kwargs: Any) -> T:
-        if not self.override_stack:
-            return self.overridden_fn(*args, **kwargs)
-        else:
-            override_fn = self.override_stack.pop()
-            return override_fn(self.context, self, args, kwargs)
+        # Every override receives its own callable for the overrides below it, such
+        # that it may be called any number of times.
+        fn = self.overridden_fn
+        for _, override_fn in sorted(self.override_map.items(), key=lambda item: item[0]):
+            fn = functools.partial(_call_override, override_fn, self.context, fn)
+        return fn(*args, **kwargs)
+
+
+def _call_override(
+    override_fn: OverrideFn[T],
+    context: Any,
+    overridden_fn: Callable[..., T],
+    *args: Any,
+    **kwargs: Any,
+) -> T:
+    return override_fn(context, overridden_fn, args, kwargs)
 
 
 def apply_overrides(
-- 
2.43.0


From 93cfddfac4ff8daa3446641903dc52a1133f1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 03/93] fix: restore strictness of modules whose forward
 raises, recurses or has several settings

---
 .../quantization/strict_quantization.py           | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/quantization/strict_quantization.py b/src/fastforward/quantization/strict_quantization.py
index ace6068..da077f0 100644
--- a/src/fastforward/quantization/strict_quantization.py
+++ b/src/fastforward/quantization/strict_quantization.py
@@ -29,7 +29,7 @@ class ModuleStrictQuantHandle:
         """
         self._enable_strict_quantization = enable_strict_quantization
         self._handles: list[RemovableHandle] = []
-        self._module_original_strict_mode: weakref.WeakKeyDictionary[torch.nn.Module, bool] = (
+        self._module_original_strict_mode: weakref.WeakKeyDictionary[torch.nn.Module, list[bool]] = (
             weakref.WeakKeyDictionary()
         )
 
@@ -41,7 +41,9 @@ class ModuleStrictQuantHandle:
             args: The arguments passed to the module.
         """
         del args
-        self._module_original_strict_mode[module] = ff.get_strict_quantization()
+        # Keep a stack per module, forwards of the same module may be nested.
+        strict_modes = self._module_original_strict_mode.setdefault(module, [])
+        strict_modes.append(ff.get_strict_quantization())
         ff.set_strict_quantization(self._enable_strict_quantization)
 
     def _post_forward_hook(
@@ -55,8 +57,8 @@ class ModuleStrictQuantHandle:
             output: The output of the module.
         """
         del args, output
-        if (strict_mode := self._module_original_strict_mode.get(module, None)) is not None:
-            ff.set_strict_quantization(strict_mode)
+        if strict_modes := self._module_original_strict_mode.get(module):
+            ff.set_strict_quantization(strict_modes.pop())
 
     def attach(self, module: torch.nn.Module) -> None:
         """Attach the pre-forward and post-forward hooks to a module.
@@ -65,7 +67,10 @@ class ModuleStrictQuantHandle:
             module: The module to attach hooks to.
         """
         pre_handle = module.register_forward_pre_hook(self._pre_forward_hook)
-        post_handle = module.register_forward_hook(self._post_forward_hook)
+        # Restore in reverse order of the pre-forward hooks, also if forward raises.
+        post_handle = module.register_forward_hook(
+            self._post_forward_hook, prepend=True, always_call=True
+        )
         self._handles.append(pre_handle)
         self._handles.append(post_handle)
 
-- 
2.43.0


From 66fb47c8d4f9e0e0daacd085ad4c9cec8b437bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 04/93] fix: compare PerBlock granularities by their settings

---
 src/fastforward/quantization/granularity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/quantization/granularity.py b/src/fastforward/quantization/granularity.py
index f106b24..3c555ac 100644
--- a/src/fastforward/quantization/granularity.py
+++ b/src/fastforward/quantization/granularity.py
@@ -168,6 +168,8 @@ class PerBlock(Granularity):
             corresponding dimensions.
     """
 
+    __match_args__ = ("block_dims", "block_sizes", "per_channel_dims", "strict_blocks")
+
     def __init__(
         self,
         block_dims: int | Sequence[int],
-- 
2.43.0


From 4ce425810a967bc339ceee4b3454b5204a95c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 05/93] fix: refuse integer dtypes that cannot hold the
 quantized values

---
 src/fastforward/quantization/_quantizer_impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/_quantizer_impl.py b/src/fastforward/quantization/_quantizer_impl.py
index d7516fc..ea456fc 100644
--- a/src/fastforward/quantization/_quantizer_impl.py
+++ b/src/fastforward/quantization/_quantizer_impl.py
@@ -65,7 +65,10 @@ def can_support_bitwidth(dtype: torch.dtype, num_bits: float) -> bool:
                     f"Unknown mantissa size for {dtype}; precision loss possible."
                 )
     else:
-        available_precision_bits = torch.iinfo(dtype).bits
+        # Quantized values are signed integers; these cannot be stored in
+        # unsigned dtypes and use exactly the bits of signed dtypes.
+        dtype_info = torch.iinfo(dtype)
+        return dtype_info.min < 0 and dtype_info.bits >= num_bits
 
     # The first integer that cannot be exactly represented using a floating
     # point representation is (2 ** (mantissa_bits + 1)) + 1. Since fastforward
-- 
2.43.0


From 01408bd0930f93259d1fa5915fb7f75375154b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 06/93] fix: dequantize to the data's dtype in export mode

---
 src/fastforward/quantization/affine/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/affine/function.py b/src/fastforward/quantization/affine/function.py
index db69db3..c7028e1 100644
--- a/src/fastforward/quantization/affine/function.py
+++ b/src/fastforward/quantization/affine/function.py
@@ -116,7 +116,7 @@ class AffineQuantizationFunction(QuantizationFunction[AffineQuantParams]):
             params.scale,
             params.offset,
             tile_size,
-            params.quantized_dtype or data.dtype,
+            params.dequantize_dtype or data.dtype,
         )
         return dequantized_data
 
-- 
2.43.0


From fe599c970d537816cc1e2202ca76e17e4838e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 07/93] fix: fake quantization kernels report the dtype of the
 real ones

---
 src/fastforward/quantization/_quantizer_impl.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fastforward/quantization/_quantizer_impl.py b/src/fastforward/quantization/_quantizer_impl.py
index ea456fc..4a2a5e5 100644
--- a/src/fastforward/quantization/_quantizer_impl.py
+++ b/src/fastforward/quantization/_quantizer_impl.py
@@ -297,8 +297,8 @@ def quantize_by_tile_meta(
     output_dtype: torch.dtype | None,
     offset: torch.Tensor | None = None,
 ) -> torch.Tensor:
-    del scale, tile_size, num_bits, output_dtype, offset
-    return torch.empty_like(input)
+    del scale, tile_size, num_bits, offset
+    return torch.empty_like(input, dtype=output_dtype or input.dtype)
 
 
 @register_fake("fastforward::dequantize_by_tile")  # type: ignore[untyped-decorator]
@@ -309,8 +309,8 @@ def dequantize_by_tile_meta(
     offset: torch.Tensor | None = None,
     output_dtype: torch.dtype | None = None,
 ) -> torch.Tensor:
-    del scale, tile_size, offset, output_dtype
-    return torch.empty_like(input)
+    del tile_size, offset
+    return torch.empty_like(input, dtype=output_dtype or scale.dtype)
 
 
 @register_fake("fastforward::quantize_by_tile_backward")  # type: ignore[untyped-decorator]
@@ -335,8 +335,8 @@ def quantize_dynamic_by_tile_meta(
     allow_one_sided: bool,
     output_dtype: torch.dtype | None,
 ) -> RT:
-    del num_bits, symmetric, allow_one_sided, output_dtype
+    del num_bits, symmetric, allow_one_sided
     num_params = int(input.numel() / torch.Size(tile_size).numel())
-    scale = torch.empty(num_params)
-    offset = torch.empty(num_params)
-    return torch.empty_like(input), scale, offset
+    scale = input.new_empty(num_params)
+    offset = input.new_empty(num_params)
+    return torch.empty_like(input, dtype=output_dtype or input.dtype), scale, offset
-- 
2.43.0


From c858d1febacf1e9e5f5a1107fa863ce6b1d44011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 08/93] fix: positive scale for symmetric quantization of
 all-zero ranges

---
 src/fastforward/quantization/affine/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/affine/range.py b/src/fastforward/quantization/affine/range.py
index 19e70b6..515b631 100644
--- a/src/fastforward/quantization/affine/range.py
+++ b/src/fastforward/quantization/affine/range.py
@@ -108,7 +108,8 @@ def parameters_for_range(
         # Choose scale such that entire range falls within bounds
         neg_scale = torch.abs(min_range) / abs(int_min)
         pos_scale = torch.abs(max_range) / abs(integer_maximum(num_bits))
-        return torch.max(neg_scale, pos_scale), None
+        scale = torch.max(neg_scale, pos_scale)
+        return scale.clamp(torch.finfo(scale.dtype).eps), None
     else:
         # Choose scale and offset such that integer_minimum and integer_maximum
         # map to min and max, respectively.
-- 
2.43.0


From 44ad98092239dc6e582584c728b28aab9b88d4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 09/93] fix: keep channel axes aligned when unsqueezing
 per-channel quantized tensors

---
 src/fastforward/quantization/_linear_quantized_ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 75acbf3..3a6134c 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -243,7 +243,9 @@ def unsqueeze(input: QuantizedTensor, dim: int) -> QuantizedTensor:
         case ff.PerTensor():
             new_context = input.quantization_context
         case ff.PerChannel(axis):
-            new_axis = tuple(ax + ax >= dim for ax in axis)
+            ndim = input.raw_data.ndim
+            new_dim = dim % (ndim + 1)
+            new_axis = tuple(ax + 1 if ax >= new_dim else ax for ax in (ax % ndim for ax in axis))
             new_context = input.quantization_context.with_changes(
                 granularity=ff.PerChannel(new_axis)
             )
-- 
2.43.0


From b3a7057a2cb98282f24f69af7a1ae061ff7bdaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 10/93] fix: do not concatenate codes of tensors with different
 offsets

---
 src/fastforward/quantization/_linear_quantized_ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 3a6134c..1ceb47d 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -207,11 +207,12 @@ def cat_predicate(
             return False
 
         scale_match = scale is None or quant_params.scale == scale
-        offset_match = offset is None or quant_params.offset == offset
+        tensor_offset = 0.0 if quant_params.offset is None else quant_params.offset
+        offset_match = offset is None or tensor_offset == offset
         if not (scale_match and offset_match):
             return False
         scale = quant_params.scale
-        offset = quant_params.offset
+        offset = tensor_offset
 
     return True
 
-- 
2.43.0


From 6220ae36bdb53d94561656d9b8046a05e4bf9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 11/93] fix: topk of quantized tensors with a negative scale

---
 src/fastforward/quantization/_linear_quantized_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 1ceb47d..d79dc7e 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -278,6 +278,9 @@ def topk(
     largest: bool = True,
     sorted: bool = True,
 ) -> torch.return_types.topk:
+    if _affine_params(input).scale < 0:
+        # The order of the values is the reverse of the order of the codes.
+        largest = not largest
     values, indices = torch.topk(input, k, dim=dim, largest=largest, sorted=sorted)
     values = input.quantization_context.attach(values)
     return torch.return_types.topk((values, indices))
-- 
2.43.0


From 130e1874719b89de3e2c450839793f9433b0ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 12/93] fix: refuse advanced indexing of per-channel quantized
 tensors instead of misapplying it

---
 src/fastforward/quantization/_linear_quantized_ops.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index d79dc7e..49207b7 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -286,7 +286,13 @@ def topk(
     return torch.return_types.topk((values, indices))
 
 
-@register("__getitem__", affine_per_channel_predicate)
+@Predicate
+def _is_basic_index(_input: QuantizedTensor, slices: Any) -> bool:
+    items = slices if isinstance(slices, tuple) else (slices,)
+    return all(isinstance(item, SliceLike) and not isinstance(item, bool) for item in items)
+
+
+@register("__getitem__", affine_per_channel_predicate & _is_basic_index)
 def getitem_per_channel(
     input: QuantizedTensor, slices: SliceLike | tuple[SliceLike]
 ) -> QuantizedTensor:
-- 
2.43.0


From 3b3a39991e36c2d84a887222ea11bc653793e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 13/93] fix: default padding mode of the quantized pad operator

---
 src/fastforward/_gen/fallback.py                   | 2 +-
 src/fastforward/_gen/operators.py                  | 2 +-
 src/fastforward/_quantops/quantized_operators.yaml | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_gen/fallback.py b/src/fastforward/_gen/fallback.py
index 016701d..7cf166a 100644
--- a/src/fastforward/_gen/fallback.py
+++ b/src/fastforward/_gen/fallback.py
@@ -1546,7 +1546,7 @@ def cumsum(
 def pad(
     input: torch.Tensor,
     pad: Sequence[int],
-    mode: str = "...",
+    mode: str = "constant",
     value: float | None = None,
     *,
     output_quantizer: Optional["Quantizer"] = None,
diff --git a/src/fastforward/_gen/operators.py b/src/fastforward/_gen/operators.py
index 3e53fd2..03c61af 100644
--- a/src/fastforward/_gen/operators.py
+++ b/src/fastforward/_gen/operators.py
@@ -1383,7 +1383,7 @@ def cumsum(
 def pad(
     input: torch.Tensor,
     pad: Sequence[int],
-    mode: str = "...",
+    mode: str = "constant",
     value: float | None = None,
     *,
     output_quantizer: Optional["Quantizer"] = None,
diff --git a/src/fastforward/_quantops/quantized_operators.yaml b/src/fastforward/_quantops/quantized_operators.yaml
index 8e0d3aa..1b85ab4 100644
--- a/src/fastforward/_quantops/quantized_operators.yaml
+++ b/src/fastforward/_quantops/quantized_operators.yaml
@@ -131,7 +131,7 @@
 - op: "cumsum(input: Quantized, dim: int) -> Quantized"
   fallback: torch.cumsum
 
-- op: "pad(input: Quantized, pad: Sequence[int], mode: str = ..., value: Optional[float] = None) -> Quantized"
+- op: "pad(input: Quantized, pad: Sequence[int], mode: str = 'constant', value: Optional[float] = None) -> Quantized"
   fallback: torch.nn.functional.pad
 
 # NOTE: return_indices is intentionally omitted from this spec. torch's max_pool2d
-- 
2.43.0


From a46ee7e4a52bd3eaf4f9ebac038ba5b059b318ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 14/93] fix: convert modules that are reachable through several
 parents once

---
 src/fastforward/nn/quantized_module.py | 75 ++++++++++++++++++--------
 1 file changed, 52 insertions(+), 23 deletions(-)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index 697bd51..cc57277 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -8,6 +8,7 @@ import logging
 import textwrap
 import warnings
 
+from contextvars import ContextVar
 from io import TextIOBase
 from types import ModuleType as PyModuleType
 from typing import Any, Iterator, Sequence, TypeAlias, Union, cast
@@ -220,14 +221,15 @@ class QuantizedModule(torch.nn.Module, metaclass=_QuantizedModuleMeta):  # pylin
             `quantized_module_map`, an error is thrown and the conversions
             fails.
         """
-        for _, child in self.named_children():
-            if not isinstance(child, Quantizer):
-                quantize_model(
-                    child,
-                    extra_conversion=extra_conversion,
-                    skip_quantized_modules=skip_quantized_modules,
-                    ignore_global_module_map=ignore_global_module_map,
-                )
+        with _conversion_scope():
+            for _, child in self.named_children():
+                if not isinstance(child, Quantizer):
+                    quantize_model(
+                        child,
+                        extra_conversion=extra_conversion,
+                        skip_quantized_modules=skip_quantized_modules,
+                        ignore_global_module_map=ignore_global_module_map,
+                    )
 
     def register_quantizer(
         self, name: str, quantizer: Quantizer | None, *, _register_module: bool = True
@@ -373,6 +375,28 @@ class SkipQuantization:
 SKIP_QUANTIZATION = SkipQuantization()
 
 
+# The modules handled by the conversion that is in progress, if any. A module that is
+# reachable through several parents is converted only once.
+_HANDLED_MODULES: ContextVar[dict[int, torch.nn.Module] | None] = ContextVar(
+    "_HANDLED_MODULES", default=None
+)
+
+
+@contextlib.contextmanager
+def _conversion_scope() -> Iterator[dict[int, torch.nn.Module]]:
+    """Scope of one (recursive) model conversion; nested scopes are part of the outermost one."""
+    handled = _HANDLED_MODULES.get()
+    if handled is not None:
+        yield handled
+        return
+
+    token = _HANDLED_MODULES.set(handled := {})
+    try:
+        yield handled
+    finally:
+        _HANDLED_MODULES.reset(token)
+
+
 def _missing_modules(
     model: torch.nn.Module,
     module_map: dict[ModuleType, QuantizedModuleType | SkipQuantization],
@@ -383,7 +407,8 @@ def _missing_modules(
     Returns a list of Module types that appear in `model` but for which no
     quantized counterpart is available.
     """
-    submodule_types = {type(module) for module in model.modules()} | {type(model)}
+    handled = _HANDLED_MODULES.get() or {}
+    submodule_types = {type(module) for module in model.modules() if id(module) not in handled}
     missing_modules: list[type[torch.nn.Module]] = []
     for module_type in submodule_types:
         if module_type not in module_map:
@@ -520,21 +545,25 @@ def quantize_model(
     module_map = extra_conversion or {}
     if not ignore_global_module_map:
         module_map = {**quantized_module_map(), **module_map}
-    _check_quantizable(model, module_map, skip_quantized_modules=skip_quantized_modules)
-
-    if skip_quantized_modules and isinstance(model, QuantizedModule):
-        logger.info(
-            "Skipping requantization of '%s' because skip_quantized_modules=True", type(model)
-        )
-    else:
-        _quantize_module(model, module_map)
+    with _conversion_scope() as handled_modules:
+        if id(model) in handled_modules:
+            return model
+        _check_quantizable(model, module_map, skip_quantized_modules=skip_quantized_modules)
+        handled_modules[id(model)] = model
+
+        if skip_quantized_modules and isinstance(model, QuantizedModule):
+            logger.info(
+                "Skipping requantization of '%s' because skip_quantized_modules=True", type(model)
+            )
+        else:
+            _quantize_module(model, module_map)
 
-    if isinstance(model, QuantizedModule) and recursive:
-        model.quantize_children(
-            extra_conversion=extra_conversion,
-            skip_quantized_modules=skip_quantized_modules,
-            ignore_global_module_map=ignore_global_module_map,
-        )
+        if isinstance(model, QuantizedModule) and recursive:
+            model.quantize_children(
+                extra_conversion=extra_conversion,
+                skip_quantized_modules=skip_quantized_modules,
+                ignore_global_module_map=ignore_global_module_map,
+            )
 
     return model
 
-- 
2.43.0


From c5b6b01e53fef423b54ee832f0929e060639662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 15/93] fix: report plain modules without quantized counterpart
 before converting anything

---
 src/fastforward/nn/quantized_module.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index cc57277..ffb6f12 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -412,8 +412,6 @@ def _missing_modules(
     missing_modules: list[type[torch.nn.Module]] = []
     for module_type in submodule_types:
         if module_type not in module_map:
-            if module_type is torch.nn.Module:
-                continue
             if issubclass(module_type, Quantizer):
                 continue
             if skip_quantized_modules and issubclass(module_type, QuantizedModule):
-- 
2.43.0


From 7d7bdbd822e5a961e617b9a6c7cf60970d04bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 16/93] fix: let mpath queries use every name of a module

---
 src/fastforward/mpath/_search.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index 846ff77..270fc22 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -328,7 +328,11 @@ def search(
         active_item = active_modules.pop()
         selector = active_item.selector
 
-        for child_name, child in active_item.result.module.named_children():
+        # `named_children` lists a module that is registered under several names only
+        # once, but each of these names may be selected.
+        for child_name, child in active_item.result.module._modules.items():
+            if child is None:
+                continue
             matches, continuations = selector.matches_and_continuations(child_name, child)
 
             for match in matches:
-- 
2.43.0


From ea669384b617d6f43fe0da63554e6a96da9c043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 17/93] fix: match of mpath queries that end in alternatives
 with **

---
 src/fastforward/mpath/selector.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/mpath/selector.py b/src/fastforward/mpath/selector.py
index 5da2405..101231b 100644
--- a/src/fastforward/mpath/selector.py
+++ b/src/fastforward/mpath/selector.py
@@ -464,20 +464,25 @@ class MultiSelector(BaseSelector):
 
 
 def _is_multi_wildcard(selector: BaseSelector) -> bool:
-    """Check if the selector is equivalent to `**`, i.e., all remaining fragments match zero or more arbitrary modules.
+    """Check if the selector matches zero modules, i.e., if all remaining fragments can be `**`.
 
     Args:
         selector: The selector to check.
 
     Returns:
-        bool: True if the selector is equivalent to `**`, False otherwise.
+        bool: True if no further modules have to match, False otherwise.
     """
-    from .fragments import WildcardFragment
+    if isinstance(selector, MultiSelector):
+        # One of the alternatives suffices
+        is_multi_wildcard = any(_is_multi_wildcard(alt) for alt in selector.selectors)
+    else:
+        from .fragments import WildcardFragment
 
-    fragments = selector.fragments()
-    return all(
-        isinstance(fragment, WildcardFragment) and fragment.match_multiple for fragment in fragments
-    )
+        is_multi_wildcard = all(
+            isinstance(fragment, WildcardFragment) and fragment.match_multiple
+            for fragment in selector[0].fragments()
+        )
+    return is_multi_wildcard and (selector.next is None or _is_multi_wildcard(selector.next))
 
 
 class Fragment(abc.ABC):
-- 
2.43.0


From bfd33f2ccec1e3e05c57c6d2244b243af698c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 18/93] fix: do not drop ** alternatives when simplifying mpath
 queries

---
 src/fastforward/mpath/selector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/mpath/selector.py b/src/fastforward/mpath/selector.py
index 101231b..c57f2e9 100644
--- a/src/fastforward/mpath/selector.py
+++ b/src/fastforward/mpath/selector.py
@@ -450,17 +450,20 @@ class MultiSelector(BaseSelector):
         """
         selectors = []
         for selector in self.selectors:
-            if updated_selector := selector.remove_multi_wildcard_root():
-                selectors.append(updated_selector)
+            # An alternative of only wildcards also matches zero modules, it must be kept
+            selectors.append(selector.remove_multi_wildcard_root() or selector)
         return type(self)(self.next, tuple(selectors))
 
     def has_multi_wildcard_root(self) -> bool:
-        """Check if all selectors have a multi-wildcard root.
+        """Check if all selectors have a multi-wildcard root that can be removed.
 
         Returns:
             bool: True if all selectors have a multi-wildcard root, False otherwise.
         """
-        return all(selector.has_multi_wildcard_root() for selector in self.selectors)
+        return all(
+            selector.has_multi_wildcard_root() and selector.remove_multi_wildcard_root() is not None
+            for selector in self.selectors
+        )
 
 
 def _is_multi_wildcard(selector: BaseSelector) -> bool:
-- 
2.43.0


From 99ac832973c419906aaec34b9c958c9768500041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 19/93] fix: keep mpath alternatives apart that group the same
 fragments differently

---
 src/fastforward/mpath/selector.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/mpath/selector.py b/src/fastforward/mpath/selector.py
index c57f2e9..07e825a 100644
--- a/src/fastforward/mpath/selector.py
+++ b/src/fastforward/mpath/selector.py
@@ -434,10 +434,9 @@ class MultiSelector(BaseSelector):
         Returns:
             FragmentList: A nested list of fragments.
         """
-        fragment_list: FragmentList = ()
-        for selector in self.selectors:
-            fragment_list += selector.fragment_list()
-        fragment_list = (fragment_list,)
+        fragment_list: FragmentList = (
+            tuple(selector.fragment_list() for selector in self.selectors),
+        )
         if self.next:
             fragment_list += self.next.fragment_list()
         return fragment_list
-- 
2.43.0


From 78ddfcd9a6f4d7d5975881879d73b014ac1aca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 20/93] fix: parse module names that start with a digit in
 mpath queries

---
 src/fastforward/mpath/_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/mpath/_parser.py b/src/fastforward/mpath/_parser.py
index 6c06516..ab24321 100644
--- a/src/fastforward/mpath/_parser.py
+++ b/src/fastforward/mpath/_parser.py
@@ -109,9 +109,12 @@ def _tokengen(src: str) -> Iterator[Token]:
             continue
 
         if char in "0123456789":
-            while pos < len(src) and src[start : pos + 1].isdigit():
+            kind = TokenType.DIGIT
+            while pos < len(src) and f"_{src[pos]}".isidentifier():
+                if not src[pos].isdigit():
+                    kind = TokenType.IDENTIFIER  # A module name that starts with a digit
                 increment()
-            yield token(start, pos, TokenType.DIGIT)
+            yield token(start, pos, kind)
             continue
 
         if char == '"':
-- 
2.43.0


From 567a4a22d2524670e7f28b83f5479058371edca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 21/93] fix: restore the overridden mpath extension at the end
 of its scope

---
 src/fastforward/mpath/_parser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/mpath/_parser.py b/src/fastforward/mpath/_parser.py
index ab24321..ae981b2 100644
--- a/src/fastforward/mpath/_parser.py
+++ b/src/fastforward/mpath/_parser.py
@@ -10,7 +10,6 @@ from operator import truediv
 from typing import (
     Any,
     Callable,
-    Generator,
     Iterator,
     Protocol,
     Sequence,
@@ -184,14 +183,18 @@ _QueryExtension: TypeAlias = type[MpathQueryExtension] | type[MpathQueryContextu
 
 
 class QueryExtensionContext:
-    def __init__(self, tag: str) -> None:
+    def __init__(self, tag: str, overridden: "_QueryExtension | None" = None) -> None:
         self._tag = tag
+        self._overridden = overridden
 
-    def __enter__(self) -> Generator[None, None, None]:
-        yield
+    def __enter__(self) -> None:
+        return None
 
     def __exit__(self, exc_type, exc_value, traceback):  # type: ignore[no-untyped-def]
-        del Parser.fragment_extensions[self._tag]
+        if self._overridden is not None:
+            Parser.fragment_extensions[self._tag] = self._overridden
+        else:
+            del Parser.fragment_extensions[self._tag]
 
 
 def register_mpath_query_extension(
@@ -223,8 +226,9 @@ def register_mpath_query_extension(
         )
         raise TypeError(msg)
 
+    overridden = Parser.fragment_extensions.get(tag)
     Parser.fragment_extensions[tag] = extension
-    return QueryExtensionContext(tag=tag)
+    return QueryExtensionContext(tag=tag, overridden=overridden)
 
 
 def mpath_query_extension(
-- 
2.43.0


From 4d94d44c5189be3ae52381061cc9af82f1ee17b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 22/93] fix: allow whitespace around class names in mpath
 queries

---
 src/fastforward/mpath/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/fragments.py b/src/fastforward/mpath/fragments.py
index 739683b..095ae2c 100644
--- a/src/fastforward/mpath/fragments.py
+++ b/src/fastforward/mpath/fragments.py
@@ -114,7 +114,7 @@ class ClassFragment(Fragment):
         for `MyClass` on `my_module` and lastly perform an attribute lookup of
         `my_attribute` on `MyClass`.
         """
-        root, *tail = raw_str.split(".")
+        root, *tail = raw_str.strip().split(".")
 
         try:
             obj = context[root]
-- 
2.43.0


From 714a0c515bd732d5807da07c29e28c6658f1dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 23/93] fix: apply functions to module collections without
 updating the model

---
 src/fastforward/mpath/_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index 270fc22..fd78f11 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -111,7 +111,8 @@ class MPathCollection(abc.Sequence[FilterResult]):
         """
         _results: list[FilterResult] = []
         for result in self._results:
-            if update and (new_module := func(result.full_name, result.module)) is not None:
+            new_module = func(result.full_name, result.module)
+            if update and new_module is not None:
                 result = result.update_module(new_module, safe=safe)
             _results.append(result)
         self._results = _results
-- 
2.43.0


From 4585802e65c217a492d26f429c393fb33960a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 24/93] fix: keep module collections in step with the model
 when apply fails

---
 src/fastforward/mpath/_search.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index fd78f11..9086e8b 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -109,13 +109,10 @@ class MPathCollection(abc.Sequence[FilterResult]):
             update: Boolean indicating whether to replace original module with
                 result of func if not the result is not None
         """
-        _results: list[FilterResult] = []
-        for result in self._results:
+        for i, result in enumerate(self._results):
             new_module = func(result.full_name, result.module)
             if update and new_module is not None:
-                result = result.update_module(new_module, safe=safe)
-            _results.append(result)
-        self._results = _results
+                self._results[i] = result.update_module(new_module, safe=safe)
 
     def map(self, func: Callable[[str, torch.nn.Module], _T]) -> list[_T]:
         """Apply func to all modules in the collection.
-- 
2.43.0


From f099e881df729ba1abfec124cc38213b37c22018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 25/93] fix: metadata without an attribute does not extend
 metadata with it

---
 src/fastforward/nn/quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index f0118f9..1ecc360 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -237,7 +237,7 @@ class QuantizerMetadata:
         for key, value in self._kwargs.items():
             if key == "shape" and value is None:
                 continue
-            if other._kwargs[key] != value:
+            if key not in other._kwargs or other._kwargs[key] != value:
                 return False
 
         return True
-- 
2.43.0


From e8fad4d191d6a8f2cf803985659b102a62a32abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 26/93] fix: resolve names in queries of quantization rules
 where the rule is added

---
 src/fastforward/quantization/quant_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index 9257a33..4ce19e6 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -315,7 +315,7 @@ class QuantizationConfig:
                 initializer.
         """
         if isinstance(query, str):
-            query = mpath.query(query, context=mpath.local_context())
+            query = mpath.query(query, context=mpath.caller_context())
         self._rules.append(_QuantConfigRule(query, factory, kwargs))
         return self
 
-- 
2.43.0


From a6155fdd30c248524589ef4dee04ff89c1b609f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 27/93] fix: accept quantizer results in
 QuantizerCollection.append

---
 src/fastforward/quantization/quant_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index 4ce19e6..a5f3d8e 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -143,7 +143,7 @@ class QuantizerCollection(mpath.MPathCollection):
         Args:
             item: Filter result to add to the collection
         """
-        if not isinstance(item, Quantizer):
+        if not isinstance(item.module, Quantizer):
             msg = f"Can only insert a FilterResult of a Quantizer module to {type(self).__name__}"
             raise ValueError(msg)
         super().append(item)
-- 
2.43.0


From 1f27d788038d390f84b31127030fb3197cd09466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 28/93] fix: initialize shared quantizers once and check
 policies before any change

---
 src/fastforward/mpath/_search.py           |  8 ++-
 src/fastforward/quantization/quant_init.py | 71 ++++++++++++++--------
 2 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index 9086e8b..cc79bff 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -24,8 +24,9 @@ class FilterResult:
     parent_attribute: str
     fragment_matches: tuple[selector.Fragment, ...] = dataclasses.field(compare=False)
 
-    def update_module(self, replacement: torch.nn.Module, safe: bool = True) -> Self:
-        if safe and getattr(self.parent, self.parent_attribute) is not self.module:
+    def check_update(self) -> None:
+        """Raise if this result's location does not hold its module anymore."""
+        if getattr(self.parent, self.parent_attribute) is not self.module:
             msg = (
                 f"Trying to update module, but the parent attribute ({self.parent_attribute}) "
                 "model no longer references the module of this filter result. Use `safe=False` "
@@ -33,6 +34,9 @@ class FilterResult:
             )
             raise ValueError(msg)
 
+    def update_module(self, replacement: torch.nn.Module, safe: bool = True) -> Self:
+        if safe:
+            self.check_update()
         setattr(self.parent, self.parent_attribute, replacement)
         return dataclasses.replace(self, module=replacement)
 
diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index a5f3d8e..65c4e5e 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -69,12 +69,12 @@ class QuantizerTagSelectorFragment(Fragment):
         return hash(("__fragment_hash", type(self), self._tags))
 
 
-def _initialize_quantizer(
+def _requires_initialization(
     result: FilterResult,
-    quantizer_factory: _QuanttizerFactory,
     overwrite_policy: _OverwriteOptions = "error",
     safe: bool = True,
-) -> FilterResult:
+) -> bool:
+    """Whether `result` must be initialized; raises if it may not be."""
     module = result.module
     if not isinstance(module, Quantizer):
         msg = f"'{result.full_name}' is not a quantizer."
@@ -89,16 +89,37 @@ def _initialize_quantizer(
             )
             raise QuantizationError(msg)
         if overwrite_policy == "skip":
-            return result
+            return False
         if overwrite_policy != "overwrite":
             msg = (  # type: ignore[unreachable]
                 f"Overwrite would occur, but overwrite_policy={repr(overwrite_policy)} is illegal. "
                 'please use one of "overwrite", "skip", or "error"'
             )
             raise ValueError(msg)
+    if safe:
+        result.check_update()
+    return True
 
-    quantizer = quantizer_factory(result.full_name, cast(Quantizer, result.module))
-    return result.update_module(quantizer, safe=safe)
+
+def _initialize_quantizer(
+    root: torch.nn.Module,
+    result: FilterResult,
+    quantizer_factory: _QuanttizerFactory,
+    safe: bool = True,
+) -> FilterResult:
+    existing = cast(Quantizer, result.module)
+    quantizer = quantizer_factory(result.full_name, existing)
+    has_metadata = quantizer.quant_metadata is not None
+
+    result = result.update_module(quantizer, safe=safe)
+    # The same quantizer may be used at several locations
+    for module in list(root.modules()):
+        for name, child in module._modules.items():
+            if child is existing:
+                setattr(module, name, quantizer)
+    if not has_metadata and existing.quant_metadata is not None:
+        quantizer.quant_metadata = existing.quant_metadata
+    return result
 
 
 def _ensure_factory_func(
@@ -154,17 +175,18 @@ class QuantizerCollection(mpath.MPathCollection):
         overwrite_policy: _OverwriteOptions = "error",
         safe: bool = True,
     ) -> None:
-        _results: list[FilterResult] = []
-        for result in self._results:
-            _results.append(
-                _initialize_quantizer(
-                    result=result,
-                    quantizer_factory=quantizer_factory,
-                    overwrite_policy=overwrite_policy,
-                    safe=safe,
+        # Check everything before the first change to the model
+        required = [_requires_initialization(r, overwrite_policy, safe) for r in self._results]
+        replaced: dict[torch.nn.Module, torch.nn.Module] = {}
+        for i, result in enumerate(self._results):
+            if result.module in replaced:
+                # The quantizer is used at several locations, all of which are updated already
+                self._results[i] = dataclasses.replace(result, module=replaced[result.module])
+            elif required[i]:
+                self._results[i] = _initialize_quantizer(
+                    self._root, result, quantizer_factory, safe=safe
                 )
-            )
-        self._results = _results
+                replaced[result.module] = self._results[i].module
 
     def initialize(
         self,
@@ -377,14 +399,15 @@ class QuantizationConfig:
                 if module not in matches or score >= matches[module].score:
                     matches[module] = _RuleItem(rule, result, score)
 
-        for best_item in matches.values():
-            factory = _ensure_factory_func(best_item.rule.factory, best_item.rule.kwargs)
-            _initialize_quantizer(
-                result=best_item.filter_result,
-                quantizer_factory=factory,
-                overwrite_policy=overwrite_policy,
-                safe=safe,
-            )
+        # Check everything before the first change to the model
+        required = [
+            item
+            for item in matches.values()
+            if _requires_initialization(item.filter_result, overwrite_policy, safe)
+        ]
+        for item in required:
+            factory = _ensure_factory_func(item.rule.factory, item.rule.kwargs)
+            _initialize_quantizer(model, item.filter_result, factory, safe=safe)
 
     def __repr__(self) -> str:
         if not self._rules:
-- 
2.43.0


From c71cbd2ff213a3352c3b253d47703b6cf21bc918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 29/93] fix: annotate initialized quantizers with their
 operators

---
 src/fastforward/quantization/quantizer_annotations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/quantization/quantizer_annotations.py b/src/fastforward/quantization/quantizer_annotations.py
index 034f86e..b486335 100644
--- a/src/fastforward/quantization/quantizer_annotations.py
+++ b/src/fastforward/quantization/quantizer_annotations.py
@@ -119,10 +119,11 @@ def annotate_operator_metadata(model: "ff.nn.QuantizedModule", sample_input: tor
     trace_tensor = TraceTensor(sample_input)
     handles = []
     try:
-        for _, quantizer in model.named_quantizers(skip_stubs=False):
-            handles.append(quantizer.register_override(quantizer_override))
-
         with torch.no_grad(), ff.disable_quantization(model):
+            # Register after quantization is disabled: the newest override is called
+            # first, and disabled quantizers do not call the ones that came before.
+            for _, quantizer in model.named_quantizers(skip_stubs=False):
+                handles.append(quantizer.register_override(quantizer_override))
             model(trace_tensor)
     finally:
         for handle in handles:
-- 
2.43.0


From cc6971180a30f93d5026bca396f6265824db45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 30/93] fix: do not annotate quantizers with other users of
 their input

---
 src/fastforward/quantization/quantizer_annotations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/quantizer_annotations.py b/src/fastforward/quantization/quantizer_annotations.py
index b486335..222c936 100644
--- a/src/fastforward/quantization/quantizer_annotations.py
+++ b/src/fastforward/quantization/quantizer_annotations.py
@@ -90,8 +90,11 @@ def quantizer_override(
     ):
         quantizer.quant_metadata.add_tag(Tag("after") / data.previous_function.__name__)
     quantized = callback(*args, **kwargs)
-    if not isinstance(quantized, TraceTensor):
-        quantized = TraceTensor(quantized)
+    if not isinstance(quantized, TraceTensor) or quantized is data:
+        # Use a new tensor: operators that use `data` do not use the quantizer's output
+        with _C.DisableTorchFunctionSubclass():
+            quantized = TraceTensor(quantized)
+        quantized.previous_function = getattr(data, "previous_function", None)
     quantized.previous_quantizer = quantizer
     return quantized
 
-- 
2.43.0


From 3a691cbb1b58422faca9fdca4e3701ce15025320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 31/93] fix: evaluate every candidate of the range search grid

---
 src/fastforward/range_setting/min_error.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/range_setting/min_error.py b/src/fastforward/range_setting/min_error.py
index cc123c6..a3ef17c 100644
--- a/src/fastforward/range_setting/min_error.py
+++ b/src/fastforward/range_setting/min_error.py
@@ -118,9 +118,7 @@ class _UniformSearchGrid:
             margin = 0.6
 
             num_candidates_min_threshold = floor(sqrt(num_candidates))
-            num_candidates_max_threshold = (
-                num_candidates_min_threshold + num_candidates - num_candidates_min_threshold**2
-            )
+            num_candidates_max_threshold = num_candidates // num_candidates_min_threshold
 
             steps_min_threshold = torch.linspace(1, margin, num_candidates_min_threshold, **tkwargs)
             steps_max_threshold = torch.linspace(margin, 1, num_candidates_max_threshold, **tkwargs)
@@ -214,7 +212,8 @@ class _MinAvgErrorGridEstimator(SimpleEstimatorStep[SupportsRangeBasedOperator],
         quantizer.quantization_range = (min_threshold, max_threshold)
 
     def estimate_step(self, quantizer: SupportsRangeBasedOperator, data: torch.Tensor) -> None:
-        for i in range(self.num_candidates):
+        # The search grid may hold another number of candidates than requested
+        for i in range(self.min_threshold.shape[0]):
             quant_op = quantizer.operator_for_range(
                 self.min_threshold[i], self.max_threshold[i], data.shape
             )
-- 
2.43.0


From bd272fc0e677a9af782cec34a74ce875b89eb9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 32/93] fix: clean up range estimation if a module cannot be
 prepared

---
 src/fastforward/range_setting/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/range_setting/common.py b/src/fastforward/range_setting/common.py
index 128f065..a390ac6 100644
--- a/src/fastforward/range_setting/common.py
+++ b/src/fastforward/range_setting/common.py
@@ -278,11 +278,11 @@ def estimate_ranges(
         )
 
     prepared_modules: list[tuple[_Module, _T]] = []
-    for module in model_or_layers:
-        for module_part in estimator.split_module(module):
-            metadata = estimator.prepare(module_part)
-            prepared_modules.append((module_part, metadata))
     try:
+        for module in model_or_layers:
+            for module_part in estimator.split_module(module):
+                metadata = estimator.prepare(module_part)
+                prepared_modules.append((module_part, metadata))
         yield
     finally:
         for module, metadata in prepared_modules:
-- 
2.43.0


From ad961486772f385a44b503955b41dc9d3f836d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 33/93] fix: apply the margins of the uniform search grid once

---
 src/fastforward/range_setting/min_error.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/range_setting/min_error.py b/src/fastforward/range_setting/min_error.py
index a3ef17c..79301f7 100644
--- a/src/fastforward/range_setting/min_error.py
+++ b/src/fastforward/range_setting/min_error.py
@@ -123,12 +123,8 @@ class _UniformSearchGrid:
             steps_min_threshold = torch.linspace(1, margin, num_candidates_min_threshold, **tkwargs)
             steps_max_threshold = torch.linspace(margin, 1, num_candidates_max_threshold, **tkwargs)
 
-            min_threshold = steps_min_threshold.unsqueeze(1) * (
-                rel_margin * min_data.unsqueeze(0) + abs_margin
-            )
-            max_threshold = steps_max_threshold.unsqueeze(1) * (
-                rel_margin * max_data.unsqueeze(0) + abs_margin
-            )
+            min_threshold = steps_min_threshold.unsqueeze(1) * min_data.unsqueeze(0)
+            max_threshold = steps_max_threshold.unsqueeze(1) * max_data.unsqueeze(0)
 
             # Make combinatorial optimization grid
             min_threshold = min_threshold.repeat(num_candidates_max_threshold, 1)
@@ -151,7 +147,7 @@ def uniform_search_grid(
 
     Generates a search grid with a margin based on the provided data.
 
-    The search grid will contain ranges within `(r * min + a, r * max + a)`
+    The search grid will contain ranges within `(r * min - a, r * max + a)`
     where `r` denotes `relative_margin`, `a` denotes `absolute_margin` and
     `min` and `max` denote    the minimum an maximum value of the observed
     batch.
-- 
2.43.0


From a398749caee5e6a6d5cf2e63ac663c4f36785005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 34/93] fix: restore yamlable objects that inherit their
 __init__

---
 src/fastforward/serialization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index 7709b8b..3714f7b 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -133,9 +133,11 @@ def _ff_obj_yaml_constructor(
     cls = QualifiedNameReference(class_name).import_()
     if not isinstance(cls, type):
         return cls
-    if _has_custom_method(cls, "__new__"):
+    obj = None
+    # `__new__` and `__init__` may be inherited from a base class.
+    if cls.__new__ is not object.__new__:
         obj = cls.__new__(cls, *newargs, **newkwargs)
-    if _has_custom_method(cls, "__init__"):
+    if cls.__init__ is not object.__init__:
         obj = cls(*initargs, **initkwargs)
     if obj is None:
         raise RuntimeError("cant deserialise an object")
-- 
2.43.0


From f920af31951c203305011ff9f6d53936501e0001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 35/93] fix: load quantization state of quantizers without
 parameters

---
 src/fastforward/quantization/save_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index e11c55f..95bcbaa 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -464,7 +464,7 @@ def _load_quantizer_state_from_files(
             for name, quantizer in quantizers.items():
                 state_tensor_keys = {}
                 lazy_params = []
-                for key in metadata[f"{name}"].split(","):
+                for key in filter(None, metadata[f"{name}"].split(",")):
                     state_key, tensor_key = key.split("=")
 
                     if "::" in tensor_key:
-- 
2.43.0


From 70646d5a5bea5b75080d30e403fc5d81375994bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 36/93] fix: retain dtype of quantization parameters when
 loading quantization state

---
 src/fastforward/quantization/save_load.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 95bcbaa..e2adcfe 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -483,6 +483,7 @@ def _load_quantizer_state_from_files(
                         for state_key, tensor_key in state_tensor_keys.items()
                     },
                     strict=False,
+                    assign=True,  # Retain the dtype of the saved parameters
                 )
 
                 if len(lazy_params) > 0:
-- 
2.43.0


From 588e063e2e5a6e23c6e8e0886df271f37de3b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 37/93] fix: save and load quantized models that have
 uninitialized quantizers

---
 src/fastforward/quantization/save_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index e2adcfe..d437075 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -621,7 +621,7 @@ def save_quantized_model(
     )
     weight_state = {
         name: param.detach()
-        for name, param in save_model.state_dict().items()
+        for name, param in save_model.state_dict(keep_vars=True).items()
         if not name.startswith(quantizer_prefixes)
     }
     # SafeTensors rejects tensors sharing storage, so tied weights are stored
@@ -733,7 +733,7 @@ def load_quantized_model(
             model, remove_duplicate=False, skip_stubs=False
         )
     )
-    expected_keys = {name for name in model.state_dict() if not name.startswith(quantizer_prefixes)}
+    expected_keys = {name for name in model.state_dict(keep_vars=True) if not name.startswith(quantizer_prefixes)}
     missing_keys = sorted(expected_keys - weight_state.keys())
     unexpected_keys = sorted(weight_state.keys() - expected_keys)
     if missing_keys or unexpected_keys:
-- 
2.43.0


From a2911e8e9963f195eaf45262f94c961136ff11a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 38/93] fix: save quantized models with non-contiguous
 parameters

---
 src/fastforward/quantization/save_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index d437075..7955bc5 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -170,7 +170,7 @@ def _collect_quantizer_state(
             if torch.nn.parameter.is_lazy(param):
                 lazy_param.add(key)
             else:
-                state[f"{first_name}.{key}"] = param.detach()
+                state[f"{first_name}.{key}"] = param.detach().contiguous()
 
         if len(lazy_param) > 0:
             msg = (
@@ -620,7 +620,7 @@ def save_quantized_model(
         )
     )
     weight_state = {
-        name: param.detach()
+        name: param.detach().contiguous()
         for name, param in save_model.state_dict(keep_vars=True).items()
         if not name.startswith(quantizer_prefixes)
     }
-- 
2.43.0


From 10456e16c8545168ac138ebf498642777e1bde80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 39/93] fix: do not corrupt saved quantization state if it
 cannot be serialized

---
 src/fastforward/quantization/save_load.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 7955bc5..c107d5f 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -269,10 +269,12 @@ def _write_quantizer_state(
     # explicit marker to keep the file readable by any consumer.
     if not state and not metadata:
         metadata = {_EMPTY_STATE_MARKER: "true"}
+    # Serialize before any file is written, a failure must not corrupt an existing state.
+    config_yaml = yaml.dump(config, sort_keys=False)
     save_file(state, target_dir / state_filename, metadata=metadata)
     config_path = target_dir / "config.yaml"
     with open(config_path, "w") as f:
-        yaml.dump(config, f, sort_keys=False)
+        f.write(config_yaml)
     return config_path
 
 
-- 
2.43.0


From 15248bc091e65d0d062d1ddf5995ccaf8150dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 40/93] fix: load quantization state of models identified by an
 existing directory

---
 src/fastforward/quantization/save_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index c107d5f..1178bda 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -366,14 +366,14 @@ def load_quantization_state(
         ValueError: If the loaded configuration is incompatible.
     """
     name: str | None = getattr(getattr(model, "config", None), "name_or_path", None)
-    if name_or_path is not None and not Path(name_or_path).exists():
+    if name_or_path is not None and not Path(name_or_path).is_file():
         name = str(name_or_path)
     if name is None:
         raise RuntimeError(
             "Unable to detect the model identifier. Please provide it manually "
             "if there is no `config.name_or_path` property in the model"
         )
-    if name_or_path is not None and Path(name_or_path).exists():
+    if name_or_path is not None and Path(name_or_path).is_file():
         config_path = Path(name_or_path)
     else:
         config_path = (
-- 
2.43.0


From bfcb88fe8271c452721d0d8dc2ee6471a84be7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 41/93] fix: check quantization state before changing the model
 on load

---
 src/fastforward/quantization/save_load.py | 50 ++++++++++++++++-------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 1178bda..06a4053 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -508,10 +508,15 @@ def _load_quantizer_state_from_files(
                     logger.error(msg)
                     raise RuntimeError(msg)
 
+    # Check all locations before changing the model such that state is never partially loaded.
+    updates: list[tuple[torch.nn.Module, str, Quantizer]] = []
     for name, quantizer in quantizers.items():
         parts = name.rsplit(".", 1)
-        parent = model if len(parts) == 1 else attrgetter(parts[0])(model)
         parent_attribute = parts[-1]
+        try:
+            parent = model if len(parts) == 1 else attrgetter(parts[0])(model)
+        except AttributeError:
+            parent = None
         current_quantizer = getattr(parent, parent_attribute, None)
 
         is_quantizer = isinstance(current_quantizer, Quantizer)
@@ -538,6 +543,9 @@ def _load_quantizer_state_from_files(
             msg = f"'{name}' is not a quantizer or was overwritten by a non-quantizer object"
             raise ValueError(msg)
 
+        updates.append((parent, parent_attribute, quantizer))
+
+    for parent, parent_attribute, quantizer in updates:
         setattr(parent, parent_attribute, quantizer)
 
 
@@ -710,17 +718,6 @@ def load_quantized_model(
     if expected_name is None:
         expected_name = getattr(getattr(model, "config", None), "name_or_path", None)
 
-    # Reattach quantizers first (replacing stubs), then load weights so their
-    # values land on the reconstructed module.
-    _load_quantizer_state_from_files(
-        model,
-        config_path,
-        model_path,
-        expected_name=expected_name or None,
-        overwrite_policy=overwrite_policy,
-        allow_lazy_params=allow_lazy_params,
-    )
-
     with safe_open(weights_path, framework="pt") as f:
         weight_state = {key: f.get_tensor(key) for key in f.keys()}
     weight_state = _expand_shared_tensors(weight_state, manifest.get("tied_weights", {}))
@@ -735,9 +732,13 @@ def load_quantized_model(
             model, remove_duplicate=False, skip_stubs=False
         )
     )
-    expected_keys = {name for name in model.state_dict(keep_vars=True) if not name.startswith(quantizer_prefixes)}
-    missing_keys = sorted(expected_keys - weight_state.keys())
-    unexpected_keys = sorted(weight_state.keys() - expected_keys)
+    expected_state = {
+        name: param
+        for name, param in model.state_dict(keep_vars=True).items()
+        if not name.startswith(quantizer_prefixes)
+    }
+    missing_keys = sorted(expected_state.keys() - weight_state.keys())
+    unexpected_keys = sorted(weight_state.keys() - expected_state.keys())
     if missing_keys or unexpected_keys:
         msg = (
             f"Saved weights do not match this model: missing {missing_keys}, "
@@ -745,5 +746,24 @@ def load_quantized_model(
         )
         logger.error(msg)
         raise RuntimeError(msg)
+    for key, param in expected_state.items():
+        if not torch.nn.parameter.is_lazy(param) and param.shape != weight_state[key].shape:
+            msg = (
+                f"Saved weights do not match this model: the shape of '{key}' is "
+                f"{tuple(param.shape)} but {tuple(weight_state[key].shape)} was saved."
+            )
+            logger.error(msg)
+            raise RuntimeError(msg)
 
+    # Only change the model once the weights are known to match: reattach
+    # quantizers first (replacing stubs), then load weights so their values
+    # land on the reconstructed module.
+    _load_quantizer_state_from_files(
+        model,
+        config_path,
+        model_path,
+        expected_name=expected_name or None,
+        overwrite_policy=overwrite_policy,
+        allow_lazy_params=allow_lazy_params,
+    )
     model.load_state_dict(weight_state, strict=False)
-- 
2.43.0


From c8de245ea5d0ccc4a3fc4fff4abe98c4a8c526b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 42/93] fix: only freeze parameters and their quantizers in
 freeze_parameters

---
 src/fastforward/quantization/freeze.py | 81 ++++++++++++++++----------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index 0a66805..002a5f5 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -12,11 +12,17 @@ import fastforward as ff
 
 
 class _FreezeParametersOverride:
-    """Override that quantizes parameters in-place and replaces quantizers with stubs."""
+    """Override that quantizes parameters in-place.
 
-    def __init__(self, module: torch.nn.Module, remove_quantizer: bool) -> None:
-        self._module = module
-        self._remove_quantizer = remove_quantizer
+    Args:
+        parameters: The parameters that may be quantized. Any other input of the
+            quantizer is quantized as usual.
+    """
+
+    def __init__(self, parameters: Sequence[torch.nn.Parameter]) -> None:
+        self._parameters = {id(parameter): parameter for parameter in parameters}
+        self.frozen: dict[int, torch.nn.Parameter] = {}
+        self.quantizes_activations = False
 
     def __call__(
         self,
@@ -25,7 +31,7 @@ class _FreezeParametersOverride:
         args: tuple[Any],
         kwargs: dict[str, Any],
     ) -> torch.Tensor:
-        """Quantize input data in-place and replace the quantizer with a stub.
+        """Quantize the input data in-place if it is a parameter.
 
         Args:
             quantizer: The quantizer being overridden
@@ -34,33 +40,27 @@ class _FreezeParametersOverride:
             kwargs: Keyword arguments
 
         Returns:
-            Dequantized tensor result
+            The (in-place quantized) parameter, or the result of the quantizer if
+            the input is not a parameter that must be frozen.
         """
-        # Extract and quantize input data
+        del quantizer
         input_data = _extract_input(*args, **kwargs)
-        quantized = callback(input_data).dequantize()
 
-        if quantized is input_data:
+        if id(input_data) not in self._parameters:
+            self.quantizes_activations |= not isinstance(input_data, torch.nn.Parameter)
+            return cast(torch.Tensor, callback(*args, **kwargs))
+
+        if id(input_data) not in self.frozen:
+            quantized = callback(*args, **kwargs).dequantize()
+
             # When the quantizer callback returns the input unchanged (e.g., when
             # the quantizer is disabled), freezing has no effect. In this case,
             # we skip both the quantizer removal and the in-place parameter update
             # since they would be no-ops.
-            return cast(torch.Tensor, input_data)
-
-        # Update parameter in-place if input is a Parameter
-        if isinstance(input_data, torch.nn.Parameter):
-            with torch.no_grad():
-                input_data.copy_(quantized)
-
-        # Replace quantizer with stub to freeze quantization
-        if self._remove_quantizer:
-            for name, other_quantizer in ff.nn.quantized_module.named_quantizers(
-                self._module, recurse=False
-            ):
-                if other_quantizer is quantizer:
-                    stub = ff.nn.QuantizerStub(_metadata=quantizer.quant_metadata)
-                    setattr(self._module, name, stub)
-                    break
+            if quantized is not input_data:
+                with torch.no_grad():
+                    input_data.copy_(quantized)
+                self.frozen[id(input_data)] = cast(torch.nn.Parameter, input_data)
 
         return input_data
 
@@ -76,8 +76,9 @@ def freeze_parameters(
 ) -> Iterator[None]:
     """Freeze model parameters during forward pass.
 
-    Registers overrides on all quantizers to quantize parameters, replace
-    original values with quantized versions, and convert quantizers to stubs.
+    Registers overrides on all quantizers to quantize parameters and replace
+    original values with quantized versions. At exit, the quantizers of these
+    parameters are converted to stubs.
     The user of this function is expected to perform a single forward pass
     within this context.
 
@@ -100,7 +101,9 @@ def freeze_parameters(
           (e.g., scaled) are no longer a `Parameter` and are not frozen.
         - Frozen parameters retain their original dtype but contain quantized values.
         - All active hooks and overrides are applied during freezing.
-        - Quantizers are replaced with `QuantizerStub`s (unless `remove_quantizers=False`).
+        - Quantizers of frozen parameters are replaced with `QuantizerStub`s at exit of
+          the context manager (unless `remove_quantizers=False`). Quantizers that also
+          quantize activations are not replaced.
         - No-op quantizers (where output equals input by identity) are not frozen or removed;
           for example, disabled quantizers will not be removed and their parameter inputs
           are not changed
@@ -108,14 +111,21 @@ def freeze_parameters(
     Note:
         Strict quantization is temporarily disabled as overrides return regular tensors.
     """
-    hooks: list[ff.overrides.override.OverrideHandle] = []
     modules = [modules] if isinstance(modules, torch.nn.Module) else modules
+    parameters = [parameter for module in modules for parameter in module.parameters()]
+    locations: list[tuple[torch.nn.Module, str, ff.nn.Quantizer]] = []
+    overrides: dict[ff.nn.Quantizer, _FreezeParametersOverride] = {}
     for module in modules:
         for submodule in module.modules():
-            for _, quantizer in ff.nn.quantized_module.named_quantizers(submodule, recurse=False):
-                override = _FreezeParametersOverride(submodule, remove_quantizer=remove_quantizers)
-                quantizer.register_override(override)
+            for name, quantizer in ff.nn.quantized_module.named_quantizers(
+                submodule, recurse=False, remove_duplicate=False
+            ):
+                locations.append((submodule, name, quantizer))
+                # Quantizers that are used at multiple locations must be overridden only once.
+                if quantizer not in overrides:
+                    overrides[quantizer] = _FreezeParametersOverride(parameters)
 
+    hooks = [quantizer.register_override(override) for quantizer, override in overrides.items()]
     try:
         # Disable strict quantization because override returns 'normal' tensors.
         with ff.strict_quantization(False):
@@ -123,3 +133,10 @@ def freeze_parameters(
     finally:
         for hook in hooks:
             hook.remove()
+        if remove_quantizers:
+            for submodule, name, quantizer in locations:
+                override = overrides[quantizer]
+                owns_frozen = any(id(param) in override.frozen for param in submodule.parameters())
+                if owns_frozen and not override.quantizes_activations:
+                    stub = ff.nn.QuantizerStub(_metadata=quantizer.quant_metadata)
+                    setattr(submodule, name, stub)
-- 
2.43.0


From 4872d347ed073d6ec3ddab1b2e09789f1a13f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 43/93] fix: fuse and stub weight quantizers at every location
 they are used

---
 src/fastforward/quantization/fuse.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 83d6735..c3604a6 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -80,12 +80,16 @@ class ConventionDiscovery:
             if quantizer.is_stub():
                 continue
 
-            parent = result.parent
-            weight = getattr(parent, self._weight_attr, None)
-            if not isinstance(weight, torch.nn.Parameter):
-                continue
+            # The search reports a quantizer once, but it may be shared by multiple modules.
+            for parent in model.modules():
+                if parent._modules.get(result.parent_attribute) is not quantizer:
+                    continue
+
+                weight = getattr(parent, self._weight_attr, None)
+                if not isinstance(weight, torch.nn.Parameter):
+                    continue
 
-            yield parent, self._weight_attr, quantizer
+                yield parent, self._weight_attr, quantizer
 
 
 def _fuse_target(
-- 
2.43.0


From 9bd4b4ebea2e0da071bcc6d6651e0e10a52adf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 44/93] fix: snap tied weights only once in fuse_qdq_weights

---
 src/fastforward/quantization/fuse.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index c3604a6..0189bf6 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -98,6 +98,7 @@ def _fuse_target(
     quantizer: Quantizer,
     *,
     stub_quantizer: bool,
+    fused: dict[int, torch.Tensor],
 ) -> None:
     """Snap a single weight to its QDQ values in-place, optionally stubbing.
 
@@ -107,8 +108,15 @@ def _fuse_target(
         quantizer: The quantizer producing the QDQ values.
         stub_quantizer: If True, replace the weight quantizer with a
             `QuantizerStub` after snapping the weight.
+        fused: The weights that were snapped already by id. A tied weight is
+            snapped only once.
     """
     weight = getattr(module, weight_attr)
+    if id(weight) in fused:
+        if stub_quantizer:
+            _stub_target(module, quantizer)
+        return
+
     # Disable strict quantization: the quantizer returns a QuantizedTensor which
     # we immediately dequantize to a regular tensor.
     with ff.strict_quantization(False):
@@ -120,6 +128,7 @@ def _fuse_target(
 
     with torch.no_grad():
         weight.copy_(qdq_weight)
+    fused[id(weight)] = weight
 
     if stub_quantizer:
         _stub_target(module, quantizer)
@@ -241,8 +250,9 @@ def fuse_qdq_weights(
     discovery = ConventionDiscovery() if discovery is None else discovery
     targets = list(discovery(model))
     _check_tied_weight_targets(model, targets)
+    fused: dict[int, torch.Tensor] = {}
     for module, weight_attr, quantizer in targets:
-        _fuse_target(module, weight_attr, quantizer, stub_quantizer=stub_quantizers)
+        _fuse_target(module, weight_attr, quantizer, stub_quantizer=stub_quantizers, fused=fused)
 
 
 def find_weight_quantizers(
-- 
2.43.0


From 33ee4cf893b1a5474e588a9eb0890c5b78c303ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 45/93] fix: refuse to fuse weights that are also used without
 quantization

---
 src/fastforward/quantization/fuse.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 0189bf6..0ceda26 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -171,7 +171,7 @@ def _check_tied_weight_targets(
 
     Raises:
         QuantizationError: If a tied weight is snapped by quantizers that
-            disagree on the grid.
+            disagree on the grid, or is also used where it is not quantized.
     """
     by_storage: dict[tuple[int, torch.Size], list[WeightQuantizerTarget]] = defaultdict(list)
     for module, weight_attr, quantizer in targets:
@@ -179,16 +179,27 @@ def _check_tied_weight_targets(
         by_storage[(weight.data_ptr(), weight.shape)].append((module, weight_attr, quantizer))
 
     module_names = {id(submodule): name for name, submodule in model.named_modules()}
+    fused = {(id(module), weight_attr) for module, weight_attr, _ in targets}
 
     for group in by_storage.values():
-        if len(group) == 1:
+        weight = getattr(group[0][0], group[0][1])
+        quantizers = {quantizer for _, _, quantizer in group}
+        # Modules that use the weight but do not (necessarily) quantize it.
+        others = [
+            (module, name)
+            for module in model.modules()
+            for name, parameter in module._parameters.items()
+            if parameter is weight
+            and (id(module), name) not in fused
+            and quantizers.isdisjoint(module.children())
+        ]
+        if len(group) == 1 and not others:
             continue
 
         # Compare the actual QDQ output rather than the quantizer configuration:
         # differently-configured quantizers may still agree on the grid, and only
         # a disagreement corrupts the weight.
-        weight = getattr(group[0][0], group[0][1])
-        reference: torch.Tensor | None = None
+        reference: torch.Tensor | None = weight if others else None
         for module, weight_attr, quantizer in group:
             with ff.strict_quantization(False):
                 qdq_weight = quantizer(weight).dequantize()
@@ -197,13 +208,13 @@ def _check_tied_weight_targets(
             elif not torch.equal(reference, qdq_weight):
                 names = ", ".join(
                     f"{module_names.get(id(module), type(module).__name__)}.{weight_attr}"
-                    for module, weight_attr, _ in group
+                    for module, weight_attr in [*(target[:2] for target in group), *others]
                 )
                 msg = (
                     f"Cannot fuse QDQ weights: the weight shared by [{names}] is tied "
                     "across modules whose weight quantizers snap it to different grids, "
-                    "so fusing would leave it correct for at most one of them. Untie the "
-                    "weights (assign each module its own copy of the parameter), or share "
+                    "or do not quantize it, so fusing would leave it correct for at most one of "
+                    "them. Untie the weights (assign each module its own copy of the parameter), or share "
                     "a single quantizer instance between them so both agree on the grid."
                 )
                 raise QuantizationError(msg)
-- 
2.43.0


From 270ce99451e8de26b36d4981ad08e43c5d2de0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 46/93] fix: do not modify the activations passed to gptq

---
 src/fastforward/quantization/gptq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index de3ea4f..9fa8058 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -306,7 +306,7 @@ def calculate_hessian(
         hessian.mul_(n_samples / (n_samples + x.shape[1]))
         n_samples += x.shape[1]
 
-        x.mul_(math.sqrt(2.0 / n_samples))
+        x = x * math.sqrt(2.0 / n_samples)  # not in-place: x may share memory with the dataset
         hessian.add_(x @ x.transpose(0, 1))
 
     # Handle dead neurons (zero diagonal in Hessian).
-- 
2.43.0


From de34347a61e73134e37cb4f53b9b3fad1d1dab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 47/93] fix: run gptq without gradients

---
 src/fastforward/quantization/gptq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index 9fa8058..beb8c9b 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -21,6 +21,7 @@ from fastforward.quantization import granularity as granularities
 logger = logging.getLogger(__name__)
 
 
+@torch.no_grad()
 def gptq(
     module: ff.nn.QuantizedLinear | ff.nn.QuantizedConv2d,
     dataset: Iterable[tuple[tuple[Any, ...], dict[str, Any]]],
-- 
2.43.0


From 98f62dc291503293a50ec01536d805415c6d8919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 48/93] fix: recompute gptq group scales on corrected weights
 for every block size

---
 src/fastforward/quantization/gptq.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index beb8c9b..a513ffd 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -109,7 +109,18 @@ def gptq(
             global_col = i + j
             if recompute_scales and global_col % col_block_size == 0:
                 col_block_idx = global_col // col_block_size
-                group_weights = weights[:, global_col : global_col + col_block_size]
+                group_end = global_col + col_block_size
+                # The corrections of the current block are only available in `weights_block`
+                # and are not yet propagated to the columns that follow the block.
+                pending = slice(block_end, max(block_end, group_end))
+                group_weights = torch.cat(
+                    (
+                        weights_block[:, j : j + col_block_size],
+                        weights[:, pending]
+                        - errors[:, i:global_col] @ hessian_inverse[i:global_col, pending],
+                    ),
+                    dim=1,
+                )
                 # Rows are the outer dim, so reshape to `(num_row_blocks, -1)` groups each
                 # row-block's elements contiguously — matches the layout column_quantizer
                 # indexes into further down.
-- 
2.43.0


From d3c04f82400a692588d58630405124ef87b4d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 49/93] fix: support activations without sequence dimension in
 gptq

---
 src/fastforward/quantization/gptq.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index a513ffd..a2ac595 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -365,9 +365,8 @@ def _input_flattener(
         return _conv2d
 
     def _linear(activation: torch.Tensor) -> torch.Tensor:
-        # (B, S, H) -> (B*S, H) -> (H, B*S)
-        bsz, seq_len, hidden = activation.shape
-        return activation.reshape(bsz * seq_len, hidden).transpose(0, 1)
+        # (..., H) -> (B*S, H) -> (H, B*S)
+        return activation.reshape(-1, activation.shape[-1]).transpose(0, 1)
 
     return _linear
 
-- 
2.43.0


From a65ed4383ea8c4c6d74b9d34241a392982b3aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 50/93] fix: reflect inputs and outputs added after a graph was
 run

---
 src/fastforward/_orchestration/graph_module.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 7540431..613cb07 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -491,6 +491,7 @@ class GraphModule(torch.nn.Module):
         if name in self._inputs:
             msg = f"Duplicate input name: {name}"
             raise ValueError(msg)
+        self._invalidate_caches()
         ref = InputRef(uuid.uuid4(), name)
         self._inputs[name] = ref
         return ref
@@ -511,13 +512,16 @@ class GraphModule(torch.nn.Module):
                         msg = f"Unknown node name: {node_name}"
                         raise ValueError(msg)
 
-                    # Add the original node (not the resolved value) to the outputs.
-                    self._outputs.append(node)
-
                 case _:
                     msg = f"An AttributeRef has to resolve to a NodeRef for outputs, found {type(base_ref)}"
                     raise ValueError(msg)
 
+        # Reset cached derived state since the graph will be altered.
+        self._invalidate_caches()
+
+        # Add the original nodes (not the resolved values) to the outputs.
+        self._outputs.extend(nodes)
+
     def add_node(
         self,
         name: str,
-- 
2.43.0


From df43d10fa11548bd3b0c4cfe4a4bea47e27a12f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 51/93] fix: refuse to inline a subgraph twice without altering
 the graph

---
 src/fastforward/_orchestration/graph_module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 613cb07..d6c6689 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -623,6 +623,10 @@ class GraphModule(torch.nn.Module):
             msg = "Subgraph has no output nodes defined"
             raise ValueError(msg)
 
+        if duplicates := subgraph._nodes.keys() & self._nodes.keys():
+            msg = f"Duplicate node ids: {sorted(subgraph._nodes[i].name for i in duplicates)}"
+            raise ValueError(msg)
+
         # Reset cached derived state since the graph will be altered.
         self._invalidate_caches()
 
-- 
2.43.0


From 1912202c3339b86f3e3b2c476a24fab0eda7b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 52/93] fix: run graphs whose unused nodes read nested
 attributes

---
 .../_orchestration/instruction_engine.py          | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index ad38f3d..374feee 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -172,9 +172,7 @@ class ActivationRegister:
 
     def store(self, ref: _BaseRef, context: StreamKey, data: ActivationDataset) -> None:
         """Store activation data for a ref under a specific context."""
-        if ref not in self._data:
-            self._data[ref] = {}
-        self._data[ref][context] = data
+        self.store_all(ref, {context: data})
 
     def store_all(self, ref: _BaseRef, mapping: dict[StreamKey, ActivationDataset]) -> None:
         """Merge activation data for a ref, so multiple producers accumulate streams."""
@@ -352,8 +350,12 @@ class LoadAttribute(Instruction):
     attribute: str | int
 
     def execute(self, register: ActivationRegister) -> None:  # noqa: D102
-        for context, dataset in register.items_for(self.source):
-            register.store(self.target, context, self._extract_attribute(dataset))
+        extracted = {
+            context: self._extract_attribute(dataset)
+            for context, dataset in register.items_for(self.source)
+        }
+        # The entry exists even without streams, e.g. when the source does not run in any context.
+        register.store_all(self.target, extracted)
 
     def _extract_attribute(self, dataset: ActivationDataset) -> ActivationDataset:
         """Extract attribute/item from each batch in the dataset."""
@@ -721,8 +723,7 @@ class InstructionEngine:
         for input_name, value in inputs.items():
             ref = input_refs[input_name]
             dataset = ActivationDataset.from_value(value)
-            for context in contexts:
-                register.store(ref, context, dataset)
+            register.store_all(ref, {context: dataset for context in contexts})
         return register
 
     @staticmethod
-- 
2.43.0


From 2d81e9e39119bdeab570d342b7383455f67a773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 53/93] fix: resolve attributes of constants and tensors in
 graphs

---
 .../_orchestration/instruction_engine.py      | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 374feee..5905756 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -341,6 +341,26 @@ class StoreValue(Instruction):
         return iter([self.target])
 
 
+def _extract_attribute(value: Any, attribute: str | int) -> Any:
+    """Extract attribute/item `attribute` from `value`."""
+    if isinstance(attribute, int):
+        return value[attribute]
+    # Item access for mappings (dict, etc.)
+    try:
+        return value[attribute]
+    except (KeyError, TypeError, IndexError):
+        # Attribute access for structured objects (dataclass, namedtuple, tensors, etc.)
+        return getattr(value, attribute)
+
+
+def _const_value(ref: _BaseRef) -> Any:
+    """Resolve a `Const` or an (nested) attribute of a `Const` to its value."""
+    if isinstance(ref, AttributeRef):
+        return _extract_attribute(_const_value(ref.reference), ref.attribute)
+    assert isinstance(ref, Const)
+    return ref.value
+
+
 @dataclasses.dataclass(frozen=True)
 class LoadAttribute(Instruction):
     """Load an attribute/index from a register value and store result."""
@@ -359,18 +379,7 @@ class LoadAttribute(Instruction):
 
     def _extract_attribute(self, dataset: ActivationDataset) -> ActivationDataset:
         """Extract attribute/item from each batch in the dataset."""
-        match self.attribute:
-            case int() as idx:
-                batches = [batch[idx] for batch in dataset]
-            case str() as key:
-                # Item access for mappings (dict, etc.)
-                try:
-                    batches = [batch[key] for batch in dataset]
-                except (KeyError, TypeError):
-                    # Attribute access for structured objects (dataclass, namedtuple, etc.)
-                    batches = [getattr(batch, key) for batch in dataset]
-
-        return ActivationDataset(batches)
+        return ActivationDataset([_extract_attribute(batch, self.attribute) for batch in dataset])
 
     def uses(self) -> Iterator[_BaseRef]:  # noqa: D102
         return iter([self.source])
@@ -1231,6 +1240,9 @@ class InstructionScheduler:
                 contexts = list(self._node_contexts.get(ref, set())) or [DEFAULT_CONTEXT]
                 store_instruction = StoreValue(target=ref, value=ref, contexts=contexts)
                 return ref, [store_instruction]
+            case AttributeRef() if isinstance(ref.unwrap_ref(), Const):
+                # An element of a constant is a constant itself.
+                return self._schedule_ref_id(Const(_const_value(ref)))
             case AttributeRef(reference=attr_ref, attribute=attr):
                 base_ref, base_instructions = self._schedule_ref_id(attr_ref)
                 # Allocate the extracted value under the AttributeRef so the base output stays intact.
-- 
2.43.0


From 8a88e32abb9d547fc0a0b42da21508beb778637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 54/93] fix: broadcast graph outputs that do not depend on the
 batched inputs

---
 src/fastforward/_orchestration/instruction_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 5905756..4be5202 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -489,7 +489,9 @@ class ReturnOutputs(Instruction):
                 context_outputs[context].append(dataset)
 
         context_datasets = {
-            context: tuple(ActivationDataset.merge(datasets).batches)
+            context: tuple(
+                ActivationDataset.merge(ActivationDataset.broadcast(datasets)).batches
+            )
             for context, datasets in context_outputs.items()
         }
 
-- 
2.43.0


From 02af13148cf7a6ee14ed0cca339648c6c79e89bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 55/93] fix: refuse to inline a subgraph with dangling
 references without altering the graph

---
 .../_orchestration/graph_module.py            | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index d6c6689..8e77671 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -651,6 +651,25 @@ class GraphModule(torch.nn.Module):
                 raise ValueError(msg)
             input_binding[key] = value
 
+        remap_reference = functools.partial(
+            remap_subgraph_reference,
+            new_context=input_binding,
+            subgraph_nodes={
+                node_ref.name: node_ref.id for node_ref in subgraph._node_refs.values()
+            },
+            scope_name=name,
+        )
+
+        # Resolve all references first, such that a subgraph with dangling references is refused
+        # before this graph is altered.
+        remapped_refs = {
+            node.id: (
+                [remap_reference(old_reference=arg) for arg in node.args],
+                {key: remap_reference(old_reference=arg) for key, arg in node.kwargs.items()},
+            )
+            for node in subgraph._nodes.values()
+        }
+
         # Create the fold (parent) node — a hierarchy marker whose args/kwargs
         # mirror the original module's call convention for coarse execution.
         fold_ref: NodeRef | None = None
@@ -667,15 +686,6 @@ class GraphModule(torch.nn.Module):
             self._fold_ids.add(fold_id)
             self._fold_bindings[fold_id] = tuple(input_binding[n] for n in subgraph.input_names)
 
-        remap_reference = functools.partial(
-            remap_subgraph_reference,
-            new_context=input_binding,
-            subgraph_nodes={
-                node_ref.name: node_ref.id for node_ref in subgraph._node_refs.values()
-            },
-            scope_name=name,
-        )
-
         # Build a mapping from old subgraph fold refs to newly created (folded) refs.
         old_to_new_fold: dict[uuid.UUID, NodeRef] = {}
 
@@ -686,10 +696,7 @@ class GraphModule(torch.nn.Module):
         )
 
         for node in sorted_nodes:
-            node_args = [remap_reference(old_reference=arg) for arg in node.args]
-            node_kwargs = {
-                key: remap_reference(old_reference=arg) for key, arg in node.kwargs.items()
-            }
+            node_args, node_kwargs = remapped_refs[node.id]
             node_name = f"{name}.{node.name}"
 
             node_parent = (
-- 
2.43.0


From a099db7dc8cc5da4afa61da87e3b125d126295ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 56/93] fix: inline subgraphs whose references carry names of
 another graph

---
 src/fastforward/_orchestration/graph_module.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 8e77671..75f06c3 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -137,21 +137,27 @@ def remap_subgraph_reference(
     Returns:
         A new reference with updated names and IDs.
     """
+    # Nodes are identified by their ID: a reference may carry the name its node has in another graph.
+    internal_names = {node_id: node_name for node_name, node_id in subgraph_nodes.items()}
+
     match old_reference:
+        # NodeRef is an internal input in the subgraph.
+        case NodeRef(id=ref_id) if ref_id in internal_names:
+            node_name = internal_names[ref_id]
+            new_name = f"{scope_name}.{node_name}" if scope_name else node_name
+            return NodeRef(ref_id, new_name)
         # NodeRef is an external input to the subgraph.
         case NodeRef(name=node_name) if node_name not in subgraph_nodes:
             return new_context[node_name]
-        # NodeRef is an internal input in the subgraph.
         case NodeRef(id=ref_id, name=node_name):
-            new_name = f"{scope_name}.{node_name}" if scope_name else node_name
-            return NodeRef(ref_id, new_name)
+            return NodeRef(ref_id, f"{scope_name}.{node_name}" if scope_name else node_name)
         case AttributeRef(reference=ref, attribute=attr):
             if isinstance(base := ref.unwrap_ref(), (NodeRef, InputRef)):
                 # Node/Input outside of subgraph that only requires attribute access
                 # (e.g. we do not need to remap 'base' only 'base[attr]').
                 # Here it is expected that 'base' is not present in context but 'base[attr]' is.
                 lifted_key = f"{base.name}[{attr}]"
-                is_external_node = isinstance(base, NodeRef) and base.name not in subgraph_nodes
+                is_external_node = isinstance(base, NodeRef) and base.id not in internal_names
                 is_external_input = isinstance(base, InputRef)
                 if (is_external_node or is_external_input) and lifted_key in new_context:
                     return new_context[lifted_key]
-- 
2.43.0


From c0d3fb9da3bb453760f2af07dd91615bc05c0934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 57/93] fix: extract subgraphs by reference instead of by name

---
 .../_orchestration/graph_module.py            | 91 ++++++++++---------
 1 file changed, 46 insertions(+), 45 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 75f06c3..3aef003 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -362,6 +362,9 @@ class GraphModule(torch.nn.Module):
         # Binding represents fold "args", in the order its forward() expects them.
         self._fold_bindings: dict[uuid.UUID, tuple[_BaseRef, ...]] = {}
 
+        # For extracted subgraphs: what each input stands for in the graph it was extracted from.
+        self._input_sources: dict[str, _BaseRef] = {}
+
         self._program: Any = None
         self._engine: InstructionEngine | None = None
         self._topo_order: list[NodeRef] | None = None
@@ -782,6 +785,27 @@ class GraphModule(torch.nn.Module):
         return outputs
 
 
+def _ref_label(ref: _BaseRef) -> str:
+    """Readable label of a reference to (an attribute of) a node or input."""
+    if isinstance(ref, AttributeRef):
+        return f"{_ref_label(ref.reference)}[{ref.attribute}]"
+    assert isinstance(ref, NamedRef)
+    return ref.name
+
+
+def _substitute_reference(ref: _BaseRef, context: Mapping[_BaseRef, _BaseRef]) -> _BaseRef:
+    """Replace `ref`, or the longest part of it that `context` knows, by its counterpart."""
+    if ref in context:
+        return context[ref]
+    match ref:
+        case AttributeRef(reference=reference):
+            return dataclasses.replace(ref, reference=_substitute_reference(reference, context))
+        case Const():
+            return ref
+    msg = f"{ref} is not available: it is neither an input nor returned by the region producing it"
+    raise ValueError(msg)
+
+
 def create_subgraph(graph: GraphModule, path_nodes: set[NodeRef]) -> GraphModule:
     """Build and return a standalone GraphModule that contains exactly `path_nodes`.
 
@@ -795,37 +819,28 @@ def create_subgraph(graph: GraphModule, path_nodes: set[NodeRef]) -> GraphModule
     Raises:
         ValueError: If proposed subgraph has no external inputs.
     """
-    node_ids: set[uuid.UUID] = {ref.id for ref in path_nodes}
+    position = {node_id: i for i, node_id in enumerate(graph._nodes)}
+    ordered_nodes = sorted(path_nodes, key=lambda ref: position[ref.id])
 
-    def _external_dependencies(node: Node) -> list[str]:
-        external_dependencies = []
+    # Everything the nodes read from outside becomes an input of the subgraph.
+    subgraph = GraphModule()
+    context: dict[_BaseRef, _BaseRef] = {ref: ref for ref in ordered_nodes}
+    for ref in ordered_nodes:
+        node = graph._nodes[ref.id]
         for arg in (*node.args, *node.kwargs.values()):
-            base = arg.unwrap_ref()
-            is_external = isinstance(base, InputRef) or (
-                isinstance(base, NodeRef) and base.id not in node_ids
-            )
-            if not is_external:
+            if isinstance(arg.unwrap_ref(), Const) or arg.unwrap_ref() in path_nodes:
                 continue
-
-            if isinstance(arg, AttributeRef):
-                external_dependencies.append(f"{base.name}[{arg.attribute}]")
-            else:
-                external_dependencies.append(str(base.name))
-
-        return external_dependencies
-
-    external_inputs = []
-    seen = set()
-    for node in path_nodes:
-        for external_dependency in _external_dependencies(graph._nodes[node.id]):
-            if external_dependency not in seen:
-                external_inputs.append(external_dependency)
-                seen.add(external_dependency)
+            if arg not in context:
+                input_name = _ref_label(arg)
+                while input_name in subgraph._inputs:
+                    input_name = f"{input_name}_"
+                context[arg] = subgraph.add_input(input_name)
+                subgraph._input_sources[input_name] = arg
 
     # Determine which nodes must be exposed as subgraph outputs.
     # These are either (1) nodes that are outside of the original graph or
     # (2) nodes required by external nodes outside of the subgraph.
-    external_outputs = []
+    external_outputs: list[NodeRef | AttributeRef] = []
     seen_outputs: set[NodeRef | AttributeRef] = set()
 
     # (1) Include original graph outputs that are produced within this subgraph.
@@ -836,7 +851,7 @@ def create_subgraph(graph: GraphModule, path_nodes: set[NodeRef]) -> GraphModule
                 seen_outputs.add(ref)
 
     # (2) Include internal nodes that are used by nodes outside the subgraph.
-    for internal_ref in path_nodes:
+    for internal_ref in ordered_nodes:
         for dependent_ref in graph.node_outputs(internal_ref):
             if dependent_ref in path_nodes:
                 continue
@@ -850,34 +865,20 @@ def create_subgraph(graph: GraphModule, path_nodes: set[NodeRef]) -> GraphModule
                         external_outputs.append(base)
                         seen_outputs.add(base)
 
-    # Connect the inputs, nodes, and outputs to a new subgraph.
-    subgraph = GraphModule()
-
-    remap_reference = functools.partial(
-        remap_subgraph_reference,
-        new_context={name: subgraph.add_input(name) for name in external_inputs},
-        subgraph_nodes={ref.name: ref.id for ref in path_nodes},
-    )
-
-    for node_id in node_ids:
-        source_node = graph._nodes[node_id]
+    # Connect the nodes and outputs to the new subgraph.
+    for ref in ordered_nodes:
+        source_node = graph._nodes[ref.id]
         subgraph.add_node(
             name=source_node.name,
             target=source_node.target,
-            args=[remap_reference(old_reference=arg) for arg in source_node.args],
+            args=[_substitute_reference(arg, context) for arg in source_node.args],
             kwargs={
-                key: remap_reference(old_reference=arg) for key, arg in source_node.kwargs.items()
+                key: _substitute_reference(arg, context) for key, arg in source_node.kwargs.items()
             },
             op=source_node.op,
             node_id=source_node.id,
         )
-
-    remapped_outputs: list[NodeRef | AttributeRef] = []
-    for ref in external_outputs:
-        remapped = remap_reference(old_reference=ref)
-        assert isinstance(remapped, (NodeRef, AttributeRef))
-        remapped_outputs.append(remapped)
-    subgraph.add_output(*remapped_outputs)
+    subgraph.add_output(*external_outputs)
 
     return subgraph
 
-- 
2.43.0


From ca6518715cd069da2479eeabd686350c985ee2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 58/93] fix: order units by dependency and return fold outputs
 as declared when reducing a graph

---
 .../_orchestration/graph_module.py            | 174 ++++++++++--------
 1 file changed, 99 insertions(+), 75 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 3aef003..41c0a2b 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -362,6 +362,9 @@ class GraphModule(torch.nn.Module):
         # Binding represents fold "args", in the order its forward() expects them.
         self._fold_bindings: dict[uuid.UUID, tuple[_BaseRef, ...]] = {}
 
+        # What the module of a fold returns, in the order its forward() returns them.
+        self._fold_outputs: dict[uuid.UUID, tuple[NodeRef | AttributeRef, ...]] = {}
+
         # For extracted subgraphs: what each input stands for in the graph it was extracted from.
         self._input_sources: dict[str, _BaseRef] = {}
 
@@ -669,6 +672,16 @@ class GraphModule(torch.nn.Module):
             scope_name=name,
         )
 
+        def remap_outputs(
+            outputs: Sequence[NodeRef | AttributeRef],
+        ) -> tuple[NodeRef | AttributeRef, ...]:
+            remapped_outputs = []
+            for out_ref in outputs:
+                remapped = remap_reference(old_reference=out_ref)
+                assert isinstance(remapped, (NodeRef, AttributeRef))
+                remapped_outputs.append(remapped)
+            return tuple(remapped_outputs)
+
         # Resolve all references first, such that a subgraph with dangling references is refused
         # before this graph is altered.
         remapped_refs = {
@@ -729,15 +742,15 @@ class GraphModule(torch.nn.Module):
                     self._fold_bindings[node.id] = tuple(
                         remap_reference(old_reference=b) for b in inner_binding
                     )
+                if (inner_outputs := subgraph._fold_outputs.get(node.id)) is not None:
+                    self._fold_outputs[node.id] = remap_outputs(inner_outputs)
 
         # Return the in-lined subgraph outputs in stored order to preserve positional semantics.
-        new_output_refs = []
-        for out_ref in subgraph._outputs:
-            remapped = remap_reference(old_reference=out_ref)
-            assert isinstance(remapped, (NodeRef, AttributeRef))
-            new_output_refs.append(remapped)
+        new_output_refs = remap_outputs(subgraph._outputs)
+        if fold_ref is not None:
+            self._fold_outputs[fold_ref.id] = new_output_refs
 
-        return tuple(new_output_refs)
+        return new_output_refs
 
     def forward(self, *args: Any, **kwargs: Any) -> Any:
         """Forward inputs through the GraphModule.
@@ -1048,6 +1061,10 @@ class ResolvedRegion:
     nodes: set[NodeRef]
     target: torch.nn.Module
 
+    def leaves(self, graph: GraphModule) -> set[NodeRef]:
+        """The leaf nodes (and folds) covered by the region."""
+        return {leaf for ref in self.nodes for leaf in _unit_leaves(graph, ref)} | self.nodes
+
 
 def _validate_siblings(graph: GraphModule, refs: Sequence[NodeRef]) -> None:
     """Ensure all `refs` share the same predecessors and successors in `graph`."""
@@ -1106,24 +1123,47 @@ class SubgraphSpec:
 OutputNode = NodeRef | GraphModule
 
 
+def _unit_leaves(graph: GraphModule, unit: OutputNode) -> set[NodeRef]:
+    """Leaf nodes of `graph` that are executed by `unit`: a leaf, a fold, or an extracted subgraph."""
+    match unit:
+        case NodeRef() if unit.id in graph._fold_ids:
+            return graph.leaf_nodes(unit)
+        case NodeRef():
+            return {unit}
+        case GraphModule():
+            return {graph._node_refs[node_id] for node_id in unit._nodes}
+
+
 def node_order(graph: GraphModule, nodes: list[OutputNode]) -> list[OutputNode]:
-    """Sort nodes into a topologically-valid sequence relative to `graph`."""
+    """Sort nodes into a topologically-valid sequence relative to `graph`.
+
+    Raises:
+        ValueError: If the nodes depend on each other, i.e. they cannot be executed as units.
+    """
     topo = {ref: i for i, ref in enumerate(topological_sort(graph))}
+    leaves = {node: _unit_leaves(graph, node) for node in nodes}
+    owner = {leaf: node for node in nodes for leaf in leaves[node]}
 
-    def _sort_key(node: OutputNode) -> int:
-        match node:
-            case NodeRef() if node.id in graph._fold_ids:
-                leaves = graph.fold_outputs(node)
-                return max(topo[leaf] for leaf in leaves) if leaves else 0
-            case NodeRef():
-                return topo[node]
-            case GraphModule() as subgraph:
-                bases = [ref.unwrap_ref() for ref in subgraph._outputs]
-                return max(
-                    topo[graph._node_refs[base.id]] for base in bases if isinstance(base, NodeRef)
-                )
+    dependencies: dict[OutputNode, set[OutputNode]] = {}
+    for node in nodes:
+        reads = {ref for leaf in leaves[node] for ref in graph.node_inputs(leaf)}
+        if isinstance(node, NodeRef):
+            reads.update(graph.node_inputs(node))
+        dependencies[node] = {owner[ref] for ref in reads if ref in owner} - {node}
 
-    return sorted(nodes, key=_sort_key)
+    def _sort_key(node: OutputNode) -> int:
+        return max((topo[leaf] for leaf in leaves[node]), default=0)
+
+    remaining = sorted(nodes, key=_sort_key)
+    ordered: dict[OutputNode, None] = {}
+    while remaining:
+        ready = next((node for node in remaining if dependencies[node] <= ordered.keys()), None)
+        if ready is None:
+            msg = "Circular dependency detected among regions: they cannot be executed as units"
+            raise ValueError(msg)
+        ordered[ready] = None
+        remaining.remove(ready)
+    return list(ordered)
 
 
 def _coarse_complement(graph: GraphModule, targets: set[NodeRef]) -> list[NodeRef]:
@@ -1160,20 +1200,6 @@ def _coarse_complement(graph: GraphModule, targets: set[NodeRef]) -> list[NodeRe
     return complement
 
 
-def _resolve_subgraph_input(name: str, context: dict[str, _BaseRef]) -> _BaseRef:
-    """Look up a subgraph input name (possibly ``'name[attr]'``) in the context."""
-    base, sep, rest = name.partition("[")
-    if not sep or not rest.endswith("]"):
-        return context[name]
-    inner = rest[:-1]
-    base_ref = context[base]
-    try:
-        return base_ref[int(inner)]
-    except ValueError:
-        attr_ref: _BaseRef = getattr(base_ref, inner)
-        return attr_ref
-
-
 def reduce_resolution(
     graph: GraphModule, specs: list[SubgraphSpec]
 ) -> tuple[GraphModule, list[SubgraphSpec]]:
@@ -1189,83 +1215,81 @@ def reduce_resolution(
     for Span/Group).
     """
     targets: set[NodeRef] = set()
-    subgraphs: list[tuple[set[NodeRef], GraphModule]] = []
+    subgraphs: list[GraphModule] = []
     seen_targets: set[NodeRef] = set()
+    units: list[NodeRef | GraphModule] = []
     spec_targets: list[torch.nn.Module] = []
 
     # Create "targets": the most granular collection of nodes we need to have, given the specs.
     for spec in specs:
         resolved = spec.resolve(graph)
-        if overlap := resolved.nodes & seen_targets:
+        covered = resolved.leaves(graph)
+        if overlap := covered & seen_targets:
             msg = f"Overlapping nodes in subgraph specs: {overlap}"
             raise ValueError(msg)
 
-        seen_targets |= resolved.nodes
+        seen_targets |= covered
         targets |= resolved.nodes
         spec_targets.append(resolved.target)
-        if isinstance(resolved.target, GraphModule):
-            subgraphs.append((resolved.nodes, resolved.target))
+        if isinstance(spec.region, (Span, Group)):
+            assert isinstance(resolved.target, GraphModule)
+            subgraphs.append(resolved.target)
+            units.append(resolved.target)
+        else:
+            units.extend(resolved.nodes)
 
     # Now create the coarse complement. whatever we dont see as targets, try and get the
     # coarsest level (try not to unfold into leaves if not needed).
     complement = _coarse_complement(graph, targets)
 
-    for path_nodes, _ in subgraphs:
-        targets -= path_nodes
-
     new_graph = GraphModule()
-    context: dict[str, _BaseRef] = {name: new_graph.add_input(name) for name in graph.input_names}
-    subgraph_idx = 0
+    context: dict[_BaseRef, _BaseRef] = {
+        ref: new_graph.add_input(name) for name, ref in graph._inputs.items()
+    }
+    placed: dict[NodeRef | GraphModule, NodeRef] = {}
+
+    def _bind_outputs(ref: NodeRef, outputs: Sequence[NodeRef | AttributeRef]) -> None:
+        for i, out in enumerate(outputs):
+            context[out] = ref if len(outputs) == 1 else ref[i]
 
     # Rewire the new graph's path in a dependency-based (topo) order.
-    for node in node_order(graph, [*targets, *complement, *[gm for _, gm in subgraphs]]):
-        match node:
+    for unit in node_order(graph, [*units, *complement]):
+        match unit:
             case GraphModule() as subgraph:
-                args = [_resolve_subgraph_input(name, context) for name in subgraph.input_names]
+                args = [
+                    _substitute_reference(source, context)
+                    for source in subgraph._input_sources.values()
+                ]
                 # Path-specific subgraphs have _no_ kwargs, that wiring is done by input name only.
-                ref = new_graph.add_node(f"subgraph_{subgraph_idx}", subgraph, args, kwargs={})
-                subgraph_idx += 1
-
-                for i, out in enumerate(subgraph._outputs):
-                    if isinstance(base := out.unwrap_ref(), NodeRef):
-                        context[base.name] = ref if len(subgraph._outputs) == 1 else ref[i]
-
-            case NodeRef(id=node_id, name=node_name) if node_id in graph._fold_ids:
-                original_node = graph._nodes[node_id]
-                args = [remap_subgraph_reference(arg, context, {}) for arg in original_node.args]
-                kwargs = {
-                    key: remap_subgraph_reference(value, context, {})
-                    for key, value in original_node.kwargs.items()
-                }
                 ref = new_graph.add_node(
-                    node_name, original_node.target, args, kwargs=kwargs, op=original_node.op
+                    f"subgraph_{subgraphs.index(subgraph)}", subgraph, args, kwargs={}
                 )
-                context[node_name] = ref
-
-                fold_outputs = graph.fold_outputs(node)
-                for i, leaf in enumerate(fold_outputs):
-                    context[leaf.name] = ref if len(fold_outputs) == 1 else ref[i]
+                _bind_outputs(ref, subgraph._outputs)
 
             case NodeRef(id=node_id, name=node_name):
                 original_node = graph._nodes[node_id]
-                args = [remap_subgraph_reference(arg, context, {}) for arg in original_node.args]
+                args = [_substitute_reference(arg, context) for arg in original_node.args]
                 kwargs = {
-                    key: remap_subgraph_reference(value, context, {})
+                    key: _substitute_reference(value, context)
                     for key, value in original_node.kwargs.items()
                 }
-                node_ref = new_graph.add_node(
-                    node_name, original_node.target, args, kwargs, op=original_node.op
+                ref = new_graph.add_node(
+                    node_name, original_node.target, args, kwargs=kwargs, op=original_node.op
                 )
-                context[node_name] = node_ref
+                if node_id in graph._fold_ids:
+                    _bind_outputs(ref, graph._fold_outputs[node_id])
+                else:
+                    context[unit] = ref
+        placed[unit] = ref
 
     for graph_output in graph._outputs:
-        rewritten = remap_subgraph_reference(graph_output, context, {})
+        rewritten = _substitute_reference(graph_output, context)
         assert isinstance(rewritten, (NodeRef, AttributeRef))
         new_graph.add_output(rewritten)
 
     # Attach delegates to their target node in the reduced graph.
-    for target, spec in zip(spec_targets, specs):
-        base_ref = new_graph.node_ref(target)
+    for unit, spec in zip(units, specs):
+        base_ref = placed[unit]
         new_graph._nodes[base_ref.id] = dataclasses.replace(
             new_graph._nodes[base_ref.id], delegate=spec.delegate
         )
-- 
2.43.0


From bf7ade0ea4a3d0efdf7234ed2e163a00db8c5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 59/93] fix: bind output activations of fold regions

---
 src/fastforward/_orchestration/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/scheduler.py b/src/fastforward/_orchestration/scheduler.py
index e89a473..378af5d 100644
--- a/src/fastforward/_orchestration/scheduler.py
+++ b/src/fastforward/_orchestration/scheduler.py
@@ -100,7 +100,8 @@ def bind_flows(graph: GraphModule, region: NodeRef, flows: Sequence[DataFlow]) -
                 msg = f"unsupported DataFlow type: {type(flow).__name__}"
                 raise TypeError(msg)
 
-        ordered = sorted(node_set, key=lambda ref: topo_index[ref.id])
+        # A fold is not part of the topological order: it comes after the leaves it depends on.
+        ordered = sorted(node_set, key=lambda ref: topo_index.get(ref.id, len(topo_index)))
         plans.append(
             FlowPlan(
                 flow=flow,
-- 
2.43.0


From a7501a7821203864d63b82e5a632150382a0a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 60/93] fix: pass container values through span and group units

---
 .../_orchestration/graph_module.py            | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 41c0a2b..85f1292 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -368,6 +368,9 @@ class GraphModule(torch.nn.Module):
         # For extracted subgraphs: what each input stands for in the graph it was extracted from.
         self._input_sources: dict[str, _BaseRef] = {}
 
+        # Units of a reduced graph are called like any other module: their arguments are values, not batches.
+        self._takes_values = False
+
         self._program: Any = None
         self._engine: InstructionEngine | None = None
         self._topo_order: list[NodeRef] | None = None
@@ -767,7 +770,13 @@ class GraphModule(torch.nn.Module):
         Returns:
             Output tensor(s) from the graph's output nodes
         """
-        args, kwargs = _sanitize_inputs(self.input_names, args, kwargs)
+        if self._takes_values:
+            from fastforward._orchestration.instruction_engine import ActivationDataset
+
+            args = tuple(ActivationDataset([arg]) for arg in args)
+            kwargs = {key: ActivationDataset([arg]) for key, arg in kwargs.items()}
+        else:
+            args, kwargs = _sanitize_inputs(self.input_names, args, kwargs)
 
         if self._engine is None:
             from fastforward._orchestration.instruction_engine import (
@@ -1104,6 +1113,12 @@ class SubgraphSpec:
 
     def resolve(self, graph: GraphModule) -> ResolvedRegion:
         """Resolve this spec's region into concrete graph nodes and an optional wrapper subgraph."""
+
+        def _wrap(nodes: set[NodeRef]) -> ResolvedRegion:
+            subgraph = create_subgraph(graph, nodes)
+            subgraph._takes_values = True
+            return ResolvedRegion(nodes, subgraph)
+
         match self.region:
             case Span(start=start, end=end):
                 in_ref, out_ref = graph.node_ref(start), graph.node_ref(end)
@@ -1111,11 +1126,11 @@ class SubgraphSpec:
                 if not reached:
                     msg = f"Node {in_ref.name} is not reachable from {out_ref.name}"
                     raise ValueError(msg)
-                return ResolvedRegion(path_nodes, create_subgraph(graph, path_nodes))
+                return _wrap(path_nodes)
             case Group(modules=modules):
                 group_refs = [graph.node_ref(m) for m in modules]
                 _validate_siblings(graph, group_refs)
-                return ResolvedRegion(set(group_refs), create_subgraph(graph, set(group_refs)))
+                return _wrap(set(group_refs))
             case torch.nn.Module() as module:
                 return ResolvedRegion({graph.node_ref(module)}, module)
 
-- 
2.43.0


From 58786e012d817b4992c3ed00b52278052a91acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 61/93] fix: run the instructions that follow the return

---
 src/fastforward/_orchestration/instruction_engine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 4be5202..d31c10f 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -748,9 +748,13 @@ class InstructionEngine:
         Returns:
             Result from RETURN instruction, or None if no RETURN is executed.
         """
+        returned: Any = None
         for instruction in instructions:
-            if (result := instruction.execute(register)) is not None:
-                return result
+            # Instructions that follow the RETURN, e.g., to restore device placement, still execute.
+            result = instruction.execute(register)
+            if returned is None:
+                returned = result
+        return returned
 
     def run(self, program: InstructionProgram, *args: Any, **kwargs: Any) -> Any:
         """Run instructions with provided inputs.
-- 
2.43.0


From 81dca762a10f36996025386d3878fe434c0eb3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 62/93] fix: keep the load of a module whose initial offload
 directly precedes it

---
 .../_orchestration/instruction_engine.py      | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index d31c10f..819f3fd 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -1017,9 +1017,17 @@ def _offloading_pass(
 def _cancel_module_round_trips(
     instructions: Instructions, compute_device: torch.device, storage_device: torch.device
 ) -> Instructions:
-    """Cancel adjacent MoveModule round-trips."""
+    """Cancel adjacent MoveModule round-trips.
+
+    A round-trip starts and ends on the same device, but two adjacent moves are only a round-trip
+    if the module is on the device of the second move to begin with. The initial offload of a
+    module that is followed by its first load, for example, must be kept.
+    """
     device_pair = {compute_device, storage_device}
 
+    # Device of each module, as far as it is known from the preceding instructions.
+    module_device: dict[torch.nn.Module, torch.device | dict[str, torch.device]] = {}
+
     def _is_round_trip(left: Instruction, right: Instruction) -> bool:
         return (
             isinstance(left, MoveModule)
@@ -1028,6 +1036,7 @@ def _cancel_module_round_trips(
             and isinstance(left.device, torch.device)
             and isinstance(right.device, torch.device)
             and {left.device, right.device} == device_pair
+            and module_device.get(left.module) == right.device
         )
 
     result: list[Instruction] = []
@@ -1035,9 +1044,20 @@ def _cancel_module_round_trips(
     while i < len(instructions):
         if i + 1 < len(instructions) and _is_round_trip(instructions[i], instructions[i + 1]):
             i += 2
-        else:
-            result.append(instructions[i])
-            i += 1
+            continue
+
+        match instructions[i]:
+            case MoveModule(device=device, module=module):
+                module_device[module] = device
+            case CallModule(module=module) | OptimizeModule(module=module) if isinstance(
+                module, torch.nn.Module
+            ):
+                # Modules execute on the compute device.
+                module_device[module] = compute_device
+            case _:
+                pass
+        result.append(instructions[i])
+        i += 1
 
     return tuple(result)
 
-- 
2.43.0


From e61d3c81c435aa299491cbdd19f418394eacbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 63/93] fix: track the devices of a value and its attributes
 separately

---
 .../_orchestration/instruction_engine.py      | 44 ++++++++++++-------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 819f3fd..6c3adee 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -1077,35 +1077,49 @@ def _cancel_redundant_activation_moves(
     - ``nn.Module`` calls produce on ``compute_device`` (MoveModule guarantees this).
     - Non-Module callables (aten ops) inherit the device of their inputs when
       all inputs agree; otherwise the output device is left unknown.
+    - Loaded attributes inherit the device of the value they are loaded from.
+
+    A value and its attributes are separate register entries, that each have their own device.
     """
     ref_device: dict[_BaseRef, torch.device] = {}
     pending: dict[_BaseRef, MoveActivations] = {}
     result: list[Instruction] = []
 
+    def _set_device(ref: _BaseRef, device: torch.device | None) -> None:
+        # The entry of `ref` is new: whatever was known about an earlier entry no longer holds.
+        pending.pop(ref, None)
+        if device is None:
+            ref_device.pop(ref, None)
+        else:
+            ref_device[ref] = device
+
     def _infer_output_device(instr: Instruction) -> None:
-        if not isinstance(instr, CallModule):
-            return
-        key = instr.target.unwrap_ref()
-        if isinstance(instr.module, torch.nn.Module):
-            ref_device[key] = compute_device
-            return
-        devs = {ref_device[a.unwrap_ref()] for a in instr.args if a.unwrap_ref() in ref_device}
-        if len(devs) == 1:
-            ref_device[key] = devs.pop()
+        match instr:
+            case CallModule(module=torch.nn.Module()):
+                _set_device(instr.target, compute_device)
+            case CallModule():
+                devs = {ref_device.get(ref) for ref in instr.uses() if not isinstance(ref, Const)}
+                _set_device(instr.target, devs.pop() if len(devs) == 1 else None)
+            case LoadAttribute():
+                _set_device(instr.target, ref_device.get(instr.source))
+            case DeleteRegisterEntries():
+                for ref in instr.targets:
+                    _set_device(ref, None)
+            case _:
+                pass
 
     def _flush(ref: _BaseRef) -> None:
-        key = ref.unwrap_ref()
-        if (move := pending.pop(key, None)) is not None:
-            if ref_device.get(key) != move.device:
+        if (move := pending.pop(ref, None)) is not None:
+            if not _is_redundant(move):
                 result.append(move)
-                ref_device[key] = move.device
+                ref_device[ref] = move.device
 
     def _is_redundant(move: MoveActivations) -> bool:
-        return ref_device.get(move.register_ref.unwrap_ref()) == move.device
+        return ref_device.get(move.register_ref) == move.device
 
     for instr in instructions:
         if isinstance(instr, MoveActivations):
-            pending[instr.register_ref.unwrap_ref()] = instr
+            pending[instr.register_ref] = instr
         else:
             for ref in instr.uses():
                 _flush(ref)
-- 
2.43.0


From 9c20efa56e30022cb228118347dbd45398fcb617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 64/93] fix: move the contents of named tuples and dataclasses
 between devices

---
 .../_orchestration/instruction_engine.py          | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 6c3adee..9f09580 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -3,6 +3,7 @@
 
 
 import abc
+import copy
 import dataclasses
 import itertools
 
@@ -558,7 +559,11 @@ def _move_to_device(value: Any, device: torch.device) -> Any:
         case torch.Tensor():
             return value.to(device=device)
         case tuple():
-            return tuple(_move_to_device(v, device) for v in value)
+            moved_items = [_move_to_device(v, device) for v in value]
+            # Preserve named tuples.
+            if hasattr(value, "_fields"):
+                return type(value)(*moved_items)
+            return tuple(moved_items)
         case list():
             return [_move_to_device(v, device) for v in value]
         case dict() if type(value) is not dict:
@@ -571,6 +576,14 @@ def _move_to_device(value: Any, device: torch.device) -> Any:
             return moved
         case dict():
             return {k: _move_to_device(v, device) for k, v in value.items()}
+        case _ if dataclasses.is_dataclass(value) and not isinstance(value, type):
+            # Copy the instance, the fields may not all be accepted by its `__init__`.
+            moved_instance = copy.copy(value)
+            for field in dataclasses.fields(value):
+                if hasattr(value, field.name):
+                    moved_value = _move_to_device(getattr(value, field.name), device)
+                    object.__setattr__(moved_instance, field.name, moved_value)
+            return moved_instance
     return value
 
 
-- 
2.43.0


From a478bcf23d2ce3068269e243ba847d7b2bdde28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 65/93] fix: keep the input position of a stage that is
 replaced or followed by a new stage

---
 src/fastforward/export/pipeline/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/export/pipeline/core.py b/src/fastforward/export/pipeline/core.py
index 33ed274..dd8bbc9 100644
--- a/src/fastforward/export/pipeline/core.py
+++ b/src/fastforward/export/pipeline/core.py
@@ -49,6 +49,12 @@ class StageReference:
             raise KeyError(msg)
         del self._dependencies[dep]
 
+    def _replace_dependency(self, dep: "StageReference", replacement: "StageReference") -> None:
+        """Replace `dep` by `replacement`, in the same position."""
+        self._set_dependencies(
+            replacement if current is dep else current for current in self._dependencies
+        )
+
     def __repr__(self) -> str:
         return f"StageReference(stage_fn={self.stage_fn}, name={self.name})"
 
@@ -236,8 +242,7 @@ class Pipeline:
         new_stage = self.register_stage(stage_fn, name, capture_stage_output)
         new_stage.depends_on(target_ref)
         for dependent in existing_dependents:
-            dependent._remove_dependency(target_ref)
-            dependent.depends_on(new_stage)
+            dependent._replace_dependency(target_ref, new_stage)
         return new_stage
 
     def replace_stage(
@@ -294,8 +299,7 @@ class Pipeline:
         new_stage.depends_on(*inherited)
 
         for dependent in dependents:
-            dependent._remove_dependency(target_ref)
-            dependent.depends_on(new_stage)
+            dependent._replace_dependency(target_ref, new_stage)
 
         return new_stage
 
-- 
2.43.0


From eb6ced284a4a6e130bf0c25faa9c7838d1eccfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 66/93] fix: keep the position of a replaced stage

---
 src/fastforward/export/pipeline/core.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/fastforward/export/pipeline/core.py b/src/fastforward/export/pipeline/core.py
index dd8bbc9..f3a6fd0 100644
--- a/src/fastforward/export/pipeline/core.py
+++ b/src/fastforward/export/pipeline/core.py
@@ -281,23 +281,25 @@ class Pipeline:
             msg = f"Stage name '{new_name}' is already registered"
             raise ValueError(msg)
 
-        was_eval = target_ref in self._evaluation_stages
         was_captured = target_ref in self._result_stages
         capture = capture_stage_output if capture_stage_output is not None else was_captured
 
         inherited = list(target_ref._dependencies)
         dependents = self._dependents_of(target_ref)
 
-        del self._stages[target_ref]
-        self._result_stages.pop(target_ref, None)
-        self._evaluation_stages.pop(target_ref, None)
-
-        if was_eval:
-            new_stage = self.register_eval_stage(stage_fn, new_name, capture)
-        else:
-            new_stage = self.register_stage(stage_fn, new_name, capture)
+        new_stage = StageReference(stage_fn, new_name)
         new_stage.depends_on(*inherited)
 
+        def _replace_in(stages: dict[StageReference, str]) -> dict[StageReference, str]:
+            # Stages are executed, reported and compared in order: keep the position of the target.
+            refs = (new_stage if stage is target_ref else stage for stage in stages)
+            return {stage: stage.name for stage in refs}
+
+        self._stages = _replace_in(self._stages)
+        self._evaluation_stages = _replace_in(self._evaluation_stages)
+        captured = {*self._result_stages, *((new_stage,) if capture else ())}
+        self._result_stages = {s: name for s, name in self._stages.items() if s in captured}
+
         for dependent in dependents:
             dependent._replace_dependency(target_ref, new_stage)
 
-- 
2.43.0


From e79dda6483be3325097c4d1b8ad8bfd6b47644ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 67/93] fix: mark encodings symmetric only when every offset is
 zero

---
 src/fastforward/export/_export_schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 513de00..0296699 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -48,7 +48,7 @@ def _preprocess_quantization_params(
     offset = ensure_tensor(offset)
     offset = torch.round(offset)
 
-    is_symmetric = (torch.all(offset).item()) == 0
+    is_symmetric = not torch.any(offset).item()
     bitwidth = _strict_cast_to_int(bitwidth, "bitwidth")
 
     qnn_offset = offset - 2 ** (bitwidth - 1)
-- 
2.43.0


From d79c1c65409ac63948133ac49596504b7912abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 68/93] fix: use QNN offsets for block encodings in schema
 2.0.0

---
 src/fastforward/export/_export_schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 0296699..c87fff4 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -428,7 +428,7 @@ class V2SchemaHandler:
                     qparams.scale.detach().cpu().numpy().reshape(parameter_shape).tolist()
                 )
                 reconstructed_offset = (
-                    qparams.offset.detach().cpu().numpy().reshape(parameter_shape).tolist()
+                    qparams.qnn_offset.detach().cpu().numpy().reshape(parameter_shape).tolist()
                 )
 
                 entry["y_scale"] = reconstructed_scale
-- 
2.43.0


From d6e1497ad96fbbc9ab2186393e3ab3f058230796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 69/93] fix: accept scalar scales and offsets in encodings

---
 src/fastforward/export/_export_schemas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index c87fff4..b523137 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -42,10 +42,10 @@ def _preprocess_quantization_params(
     data_shape = torch.Size(encoding_value["data_shape"])
     tile_size = torch.Size(encoding_value["tile_size"])
 
-    scale = ensure_tensor(scale)
+    scale = ensure_tensor(scale).reshape(-1)
     if offset is None:
         offset = _infer_offset(offset, scale)
-    offset = ensure_tensor(offset)
+    offset = ensure_tensor(offset).reshape(-1)
     offset = torch.round(offset)
 
     is_symmetric = not torch.any(offset).item()
-- 
2.43.0


From ddc7af49baaee472d83c0351ac968c331a22a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 70/93] fix: refuse tilings that ONNX Q/DQ operators cannot
 express

---
 .../stages/onnx/onnx_qdq_export_stages.py     | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
index 1c70840..87803a5 100644
--- a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
@@ -247,4 +247,31 @@ def stage_fx_to_onnx_program_qdq(
     to ``stage_fx_to_onnx_program``. The input context and any user-owned
     nested dicts are left unmodified.
     """
-    return stage_fx_to_onnx_program(modules, sample_inputs, _with_ff_qdq_lowerings(context))
+    qdq_context = _with_ff_qdq_lowerings(context)
+    quantize_op = torch.ops.fastforward.quantize_by_tile.default
+    user_table = (context.get("onnx_export_options") or {}).get("custom_translation_table") or {}
+    if quantize_op not in user_table:
+        for module in modules:
+            for node in module.graph.find_nodes(op="call_function", target=quantize_op):
+                _validate_quantize_by_tile_node(node)
+    return stage_fx_to_onnx_program(modules, sample_inputs, qdq_context)
+
+
+def _validate_quantize_by_tile_node(node: torch.fx.Node) -> None:
+    """Raise if the quantization in `node` cannot be expressed by ONNX Q/DQ operators.
+
+    The lowerings express per-tensor and single-axis per-channel quantization.
+    Any other tiling would silently be interpreted as one of these.
+    """
+    data, tile_size = node.args[0], node.args[2]
+    assert isinstance(data, torch.fx.Node)
+    assert isinstance(tile_size, (tuple, list))
+    shape = data.meta["val"].shape
+
+    split_axes = [idx for idx, dim in enumerate(tile_size) if dim != shape[idx]]
+    if len(split_axes) > 1 or any(tile_size[axis] != 1 for axis in split_axes):
+        msg = (
+            "QDQ ONNX lowering supports only per-tensor and single-axis per-channel "
+            f"quantization, got tile size {tuple(tile_size)} for data of shape {tuple(shape)}"
+        )
+        raise ExportError(msg)
-- 
2.43.0


From 418ec2298229456c105c13c8523f3826e98b11f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 71/93] fix: refuse offsets that are no zero point of the ONNX
 storage type

---
 .../stages/onnx/onnx_qdq_export_stages.py      | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
index 87803a5..e6ec44f 100644
--- a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
 import functools
+import operator
 
 from typing import Any, Callable, TypeAlias
 
@@ -275,3 +276,20 @@ def _validate_quantize_by_tile_node(node: torch.fx.Node) -> None:
             f"quantization, got tile size {tuple(tile_size)} for data of shape {tuple(shape)}"
         )
         raise ExportError(msg)
+
+    num_bits = node.args[3]
+    offset = node.args[5] if len(node.args) > 5 else node.kwargs.get("offset")
+    if not isinstance(offset, torch.fx.Node) or offset.op != "get_attr":
+        return
+    assert isinstance(num_bits, (int, float))
+    assert isinstance(offset.target, str)
+    zero_point = -torch.round(
+        operator.attrgetter(offset.target)(offset.graph.owning_module).detach()
+    )
+    limit = 2 ** (num_bits - 1)
+    if torch.any(zero_point < -limit) or torch.any(zero_point > limit - 1):
+        msg = (
+            f"QDQ ONNX lowering cannot represent offsets {offset.target} as zero points: "
+            f"they fall outside of the range of a {num_bits}-bit integer"
+        )
+        raise ExportError(msg)
-- 
2.43.0


From e04e7e4874afda98162f5047d5e3fdd37a317113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 72/93] fix: refuse fractional bitwidths in the QDQ lowering

---
 src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
index e6ec44f..a29ed7c 100644
--- a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
@@ -129,10 +129,9 @@ def _make_ff_quantize_by_tile_onnx(op: Any) -> Callable[..., Any]:
         offset: Any | None = None,
     ) -> Any:
         del output_dtype
-        bitwidth = int(num_bits)
         axis = _ff_axis_from_tile_size(tile_size, data=input)
         zero_point = _ff_zero_point_from_offset(scale, offset, op)
-        zero_point = op.Cast(zero_point, to=_ff_quant_dtype_for_bitwidth(bitwidth))
+        zero_point = op.Cast(zero_point, to=_ff_quant_dtype_for_bitwidth(num_bits))
         if axis is None:
             return op.QuantizeLinear(input, scale, zero_point)
         return op.QuantizeLinear(input, scale, zero_point, axis=axis)
-- 
2.43.0


From 25feee7e7b7bbf4274b730d5bd3b769d6eafdda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 73/93] fix: refuse one-sided quantizers in GGUF export

---
 src/fastforward/export/stages/gguf/_extract.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fastforward/export/stages/gguf/_extract.py b/src/fastforward/export/stages/gguf/_extract.py
index 22da710..61e0e44 100644
--- a/src/fastforward/export/stages/gguf/_extract.py
+++ b/src/fastforward/export/stages/gguf/_extract.py
@@ -97,6 +97,14 @@ def _validate_quantizer(
         )
         raise ExportError(msg)
 
+    offset = quantizer.offset
+    if quant_format.symmetric and offset is not None and torch.any(torch.round(offset) != 0):
+        msg = (
+            f"Parameter '{hf_name}': quantizer has a one-sided (unsigned) range but GGUF format "
+            f"'{quant_format.name}' stores signed codes without offset"
+        )
+        raise ExportError(msg)
+
     if quantizer.num_bits != quant_format.num_bits:
         msg = (
             f"Parameter '{hf_name}': quantizer num_bits={quantizer.num_bits} does not match "
-- 
2.43.0


From e608f3fa4bde6092910d7405c6d057dadd6b63a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 74/93] fix: export quantizers without offset to ONNX with
 encodings

---
 src/fastforward/export/stages/annotations.py | 13 +++++++++----
 src/fastforward/export/stages/passes.py      |  6 ++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/export/stages/annotations.py b/src/fastforward/export/stages/annotations.py
index 664f409..97c4625 100644
--- a/src/fastforward/export/stages/annotations.py
+++ b/src/fastforward/export/stages/annotations.py
@@ -29,12 +29,17 @@ def _ff_quantizer_spec(
         msg = f"Unsupported target: {node.target}"
         raise NotImplementedError(msg)
 
-    data, scale, tile_size, num_bits, _output_dtype, offset = node.args
+    data, scale, tile_size, num_bits, _output_dtype, *offset_arg = node.args
+    # A trailing offset of None (its default) is not part of node.args
+    offset = offset_arg[0] if offset_arg else None
 
     assert isinstance(scale, torch.fx.Node) and isinstance(scale.target, str)
-    assert isinstance(offset, torch.fx.Node) and isinstance(offset.target, str)
     scale_value = quant_params[scale.target]
-    offset_value = quant_params[offset.target]
+    if offset is None:
+        offset_value = torch.zeros_like(scale_value)
+    else:
+        assert isinstance(offset, torch.fx.Node) and isinstance(offset.target, str)
+        offset_value = quant_params[offset.target]
     symmetric = _is_symmetric_offset(offset_value)
 
     if not isinstance(num_bits, (int, float)):
@@ -46,7 +51,7 @@ def _ff_quantizer_spec(
         raise ValueError(msg)
 
     if not symmetric:
-        offset_value = 2 ** (num_bits - 1) - quant_params[offset.target]
+        offset_value = 2 ** (num_bits - 1) - offset_value
 
     tile_size_tuple: tuple[int, ...] | None = None
     if isinstance(tile_size, torch.Size):
diff --git a/src/fastforward/export/stages/passes.py b/src/fastforward/export/stages/passes.py
index d5f2416..002159a 100644
--- a/src/fastforward/export/stages/passes.py
+++ b/src/fastforward/export/stages/passes.py
@@ -126,12 +126,14 @@ def _ff_quantization_parameters(
     for node in _ff_quantization_nodes(module.graph):
         match node.target:
             case torch.ops.fastforward.quantize_by_tile.default:
-                _data, scale, _tile_size, _num_bits, _output_dtype, offset = node.args
+                _data, scale, _tile_size, _num_bits, _output_dtype, *offset_arg = node.args
             case torch.ops.fastforward.dequantize_by_tile.default:
-                _data, scale, _tile_size, offset, _output_dtype = node.args
+                _data, scale, _tile_size, *offset_arg = node.args
             case _:
                 assert False, "unreachable"
 
+        # Trailing arguments that equal their default (e.g., no offset) are not part of node.args
+        offset = offset_arg[0] if offset_arg else None
         for param_node in (scale, offset):
             if param_node is None:
                 continue
-- 
2.43.0


From d8b257208f499f5cd213025ae6d3482334c97d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 75/93] fix: keep a quantizer uninitialized when its range is
 refused

---
 src/fastforward/nn/linear_quantizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/nn/linear_quantizer.py b/src/fastforward/nn/linear_quantizer.py
index 4c6b0f3..b5d0f4f 100644
--- a/src/fastforward/nn/linear_quantizer.py
+++ b/src/fastforward/nn/linear_quantizer.py
@@ -344,11 +344,14 @@ class LinearQuantizer(AbstractAffineQuantizer["affine_quant.StaticAffineQuantPar
             raise ValueError(
                 "Tried to set quantization range with a single value. A 2-tuple is expected"
             ) from e
-        if self.has_uninitialized_params:
-            self._initialize_parameters(min.numel())
 
         with torch.no_grad():
+            # Validate the range before materializing any parameter, such that a
+            # refused range leaves an uninitialized quantizer uninitialized.
             scale, offset = self._parameters_for_range(min, max)
+            if self.has_uninitialized_params:
+                scale = scale.expand(min.numel())
+                self._initialize_parameters(min.numel())
             _ = self.scale.copy_(scale)
             if self.offset is not None:
                 if offset is not None:
-- 
2.43.0


From a8b13fd86fd8f48923f74381ca753d46540ca345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 76/93] fix: set ranges on partially initialized quantizers

---
 src/fastforward/nn/linear_quantizer.py | 28 +++++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/fastforward/nn/linear_quantizer.py b/src/fastforward/nn/linear_quantizer.py
index b5d0f4f..ec10ce2 100644
--- a/src/fastforward/nn/linear_quantizer.py
+++ b/src/fastforward/nn/linear_quantizer.py
@@ -68,8 +68,8 @@ class AbstractAffineQuantizer(Quantizer, abc.ABC, Generic[QuantParams_co]):
     @property
     def has_uninitialized_params(self) -> bool:
         """Check if there any quantization parameters that are uninitialized."""
-        Uninitialized = torch.nn.parameter.UninitializedParameter
-        return any(isinstance(p, Uninitialized) for p in self.parameters())
+        is_lazy = torch.nn.parameter.is_lazy
+        return any(is_lazy(p) for p in (*self.parameters(), *self.buffers()))
 
     @override
     def extra_repr(self) -> str:
@@ -211,14 +211,16 @@ class LinearQuantizer(AbstractAffineQuantizer["affine_quant.StaticAffineQuantPar
     def _initialize_parameters(self, parameter_dimensionality: int) -> None:  # pylint: disable=arguments-differ
         """Internal method to materialize the uninitialized parameters of the quantizer."""
         if self.has_uninitialized_params:  # type: ignore[unused-ignore]
-            scale_shape = torch.Size([parameter_dimensionality])
-            offset_shape = scale_shape if self.offset is not None else None
+            # One of the parameters may already be materialized, e.g., when only a
+            # part of the parameters was loaded from a state dictionary.
+            shape = torch.Size([parameter_dimensionality])
 
             with torch.no_grad():
-                self.scale.materialize(scale_shape)  # type: ignore[union-attr]
-                self.scale.fill_(1.0)
-                if offset_shape and self.offset is not None:
-                    self.offset.materialize(offset_shape)  # type: ignore[attr-defined]
+                if torch.nn.parameter.is_lazy(self.scale):
+                    self.scale.materialize(shape)  # type: ignore[union-attr]
+                    self.scale.fill_(1.0)
+                if self.offset is not None and torch.nn.parameter.is_lazy(self.offset):
+                    self.offset.materialize(shape)  # type: ignore[union-attr]
                     self.offset.fill_(0.0)
 
     @override
@@ -350,8 +352,14 @@ class LinearQuantizer(AbstractAffineQuantizer["affine_quant.StaticAffineQuantPar
             # refused range leaves an uninitialized quantizer uninitialized.
             scale, offset = self._parameters_for_range(min, max)
             if self.has_uninitialized_params:
-                scale = scale.expand(min.numel())
-                self._initialize_parameters(min.numel())
+                materialized = [
+                    p
+                    for p in (self.scale, self.offset)
+                    if p is not None and not torch.nn.parameter.is_lazy(p)
+                ]
+                shape = materialized[0].shape if materialized else torch.Size([min.numel()])
+                scale = scale.expand(shape)
+                self._initialize_parameters(shape.numel())
             _ = self.scale.copy_(scale)
             if self.offset is not None:
                 if offset is not None:
-- 
2.43.0


From 40daf4315e652160f25c73a8ce0a0c292c824720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 77/93] fix: keep parameters of copied and pickled quantizers

---
 src/fastforward/nn/quantizer.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index 1ecc360..cbf832c 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -3,6 +3,7 @@
 
 import collections
 import copy
+import copyreg
 import logging
 
 from types import SimpleNamespace
@@ -57,6 +58,9 @@ class Tag:
         # copy here.
         return self
 
+    def __reduce__(self) -> tuple[type[Self], tuple[str]]:
+        return type(self), (self._symbol,)
+
     @typing_override
     def __str__(self) -> str:
         return f"#{self._symbol}"
@@ -303,6 +307,11 @@ class Quantizer(torch.nn.Module):
         Args:
             state: Dictionary containing the object's state to restore.
         """
+        if "_parameters" in state:
+            # Full module state, see __reduce_ex__.
+            super().__setstate__(state)
+            return
+
         # Restore all attributes from the state dictionary
         for attr, value in state.items():
             setattr(self, attr, value)
@@ -337,6 +346,16 @@ class Quantizer(torch.nn.Module):
             if key not in ignored_attribures and not isinstance(value, torch.Tensor)
         }
 
+    @typing_override
+    def __reduce_ex__(self, protocol: Any) -> tuple[Any, ...]:
+        """Reduce to the full module state circumventing custom __getstate__.
+
+        `__getstate__` only contains the settings of the quantizer. Copies and
+        pickles of a quantizer must also have its parameters and buffers.
+        """
+        self.__getstate__()  # Refuses quantizers that cannot be serialized.
+        return copyreg.__newobj__, (type(self),), super().__getstate__()  # type: ignore[attr-defined]
+
     def __deepcopy__(self, memo: dict[int, Any]) -> Self:
         """Create a deepcopy circumventing custom __setstate_ and __getstate__."""
         if id(self) in memo:
@@ -344,6 +363,16 @@ class Quantizer(torch.nn.Module):
 
         # Use torch.nn.Module.__getstate__
         state = super().__getstate__()
+
+        # Uninitialized buffers do not support deepcopy.
+        for buffer in self._buffers.values():
+            if isinstance(buffer, torch.nn.UninitializedBuffer):
+                memo[id(buffer)] = type(buffer)(
+                    requires_grad=buffer.requires_grad,
+                    device=buffer.device,  # type: ignore[call-arg]
+                    dtype=buffer.dtype,
+                )
+
         new_state = copy.deepcopy(state, memo)
 
         cls = type(self)
-- 
2.43.0


From e71418779ccabfabe6c0b0c4c0025b3da261a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 78/93] fix: leave the operator table unchanged when an alias
 collides

---
 src/fastforward/_quantops/optable.py | 59 ++++++++++++++++------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/fastforward/_quantops/optable.py b/src/fastforward/_quantops/optable.py
index 91e2d35..f4f0dd2 100644
--- a/src/fastforward/_quantops/optable.py
+++ b/src/fastforward/_quantops/optable.py
@@ -15,7 +15,7 @@ import yaml
 from typing_extensions import Self
 
 from fastforward._import import QualifiedNameReference, fully_qualified_name
-from fastforward._quantops.operator import Operator
+from fastforward._quantops.operator import Operator, OperatorMetadata
 
 logger = logging.getLogger(__name__)
 
@@ -141,11 +141,20 @@ class OperatorTable:
             new_metadata = dataclasses.replace(operator.metadata, dispatch_op=dispatch_op)
             operator = dataclasses.replace(operator, metadata=new_metadata)
 
+        spec_idx = self._py_op_index.get(py_op, len(self._operator_specs))
+
+        # Resolve all aliases first, such that the table is unchanged if one of
+        # them collides.
+        callable_aliases = {
+            alias_qualname: alias_op
+            for alias_qualname in aliases
+            if (alias_op := self._resolve_callable_alias(alias_qualname, metadata, spec_idx))
+        }
+
         if py_op in self._py_op_index:
-            spec_idx = self._py_op_index[py_op]
             self._operator_specs[spec_idx].append(operator)
         else:
-            self._py_op_index[py_op] = spec_idx = len(self._operator_specs)
+            self._py_op_index[py_op] = spec_idx
             self._operator_specs.append([operator])
 
             assert operator.metadata  # helping mypy and friends
@@ -153,15 +162,17 @@ class OperatorTable:
                 if alias := alias_ext(operator):
                     self.add_alias(alias, py_op)
 
-        for alias_qualname in aliases:
-            self._register_callable_alias(alias_qualname, spec_idx)
+        for alias_qualname, alias_op in callable_aliases.items():
+            self._py_op_index[alias_op] = spec_idx
+            self._py_op_aliases[alias_qualname] = alias_op
 
-    def _register_callable_alias(self, qualified_name: str, spec_idx: int) -> None:
-        """Register a qualified-name alias against an existing operator entry.
+    def _resolve_callable_alias(
+        self, qualified_name: str, metadata: OperatorMetadata, spec_idx: int
+    ) -> _PyOp | None:
+        """Resolve a qualified-name alias for the operator entry at `spec_idx`.
 
-        Resolves `qualified_name` to a Python callable and adds it to
-        `_py_op_index` pointing to `spec_idx`. Also registers the qualified
-        name as a string alias.
+        Resolves `qualified_name` to a Python callable that can be added to
+        `_py_op_index` pointing to `spec_idx`.
 
         Import failures are logged and skipped — the rest of the table remains
         usable (e.g. when running against a torch version that lacks the alias).
@@ -178,23 +189,19 @@ class OperatorTable:
                 "is still registered.",
                 qualified_name,
             )
-            return
-
-        if alias_op in self._py_op_index:
-            existing_idx = self._py_op_index[alias_op]
-            if existing_idx != spec_idx:
-                canonical = self._operator_specs[spec_idx][0].metadata
-                other = self._operator_specs[existing_idx][0].metadata
-                assert canonical is not None and other is not None
-                msg = (
-                    f"Alias '{qualified_name}' for '{canonical.fallback}' is already "
-                    f"registered as the canonical or alias of '{other.fallback}'."
-                )
-                raise ValueError(msg)
-        else:
-            self._py_op_index[alias_op] = spec_idx
+            return None
+
+        existing_idx = self._py_op_index.get(alias_op, spec_idx)
+        if existing_idx != spec_idx:
+            other = self._operator_specs[existing_idx][0].metadata
+            assert other is not None
+            msg = (
+                f"Alias '{qualified_name}' for '{metadata.fallback}' is already "
+                f"registered as the canonical or alias of '{other.fallback}'."
+            )
+            raise ValueError(msg)
 
-        self._py_op_aliases[qualified_name] = alias_op
+        return alias_op  # type: ignore[no-any-return]
 
     def add(
         self,
-- 
2.43.0


From 7f90bf9f4ed3e9e89533678680f64d877acc646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 79/93] fix: add lookup aliases for every operator

---
 src/fastforward/_quantops/optable.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/_quantops/optable.py b/src/fastforward/_quantops/optable.py
index f4f0dd2..36116b2 100644
--- a/src/fastforward/_quantops/optable.py
+++ b/src/fastforward/_quantops/optable.py
@@ -157,10 +157,9 @@ class OperatorTable:
             self._py_op_index[py_op] = spec_idx
             self._operator_specs.append([operator])
 
-            assert operator.metadata  # helping mypy and friends
-            for alias_ext in self._alias_extensions:
-                if alias := alias_ext(operator):
-                    self.add_alias(alias, py_op)
+        for alias_ext in self._alias_extensions:
+            if alias := alias_ext(operator):
+                self.add_alias(alias, py_op)
 
         for alias_qualname, alias_op in callable_aliases.items():
             self._py_op_index[alias_op] = spec_idx
-- 
2.43.0


From 5e7e1b2ea0a64bcb09f9cf7360e367e95d13edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 80/93] fix: keep the order of positional-only operator
 parameters

---
 src/fastforward/_quantops/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/_quantops/operator.py b/src/fastforward/_quantops/operator.py
index 8d0aaeb..7e55fc9 100644
--- a/src/fastforward/_quantops/operator.py
+++ b/src/fastforward/_quantops/operator.py
@@ -94,7 +94,7 @@ class Operator:
             logger.warning(msg, (funcdef.name.value))
 
         for param in itertools.chain(
-            funcdef.params.params, funcdef.params.kwonly_params, funcdef.params.posonly_params
+            funcdef.params.posonly_params, funcdef.params.params, funcdef.params.kwonly_params
         ):
             name = param.name.value
             if param.annotation is None:
-- 
2.43.0


From 51efc6b1d06a4dc98ccd8b7382f3e1f84c221756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 81/93] fix: compare all members of union types

---
 src/fastforward/_quantops/symtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/_quantops/symtypes.py b/src/fastforward/_quantops/symtypes.py
index 687c8b5..886513a 100644
--- a/src/fastforward/_quantops/symtypes.py
+++ b/src/fastforward/_quantops/symtypes.py
@@ -130,10 +130,10 @@ class _GenericUnionType(GenericType):
             return NotImplemented
         if self.name != other.name:
             return False
-        for param in other.parameters():
-            if param not in self:
-                return False
-        return True
+        return frozenset(self.parameters()) == frozenset(other.parameters())
+
+    def __hash__(self) -> int:
+        return hash((self.name, frozenset(self.parameters())))
 
 
 @dataclasses.dataclass(frozen=True, slots=True)
-- 
2.43.0


From ef8f2f4d6c33cf5709d86699f6b85a6430a244b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 82/93] fix: return inputs and constants from traced models

---
 src/fastforward/_orchestration/trace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index b21f813..dab193c 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -378,11 +378,11 @@ class _GraphBuilder:
         raw: tuple[Any, ...] | list[Any] = fx_node.args
         if len(raw) == 1 and isinstance(raw[0], (list, tuple)):
             raw = raw[0]
-        flat_refs = tuple(self._fx_to_ff[a] for a in raw if isinstance(a, fx.Node))
 
         if self._is_root:
             assert self._out_spec is not None
-            assert all(isinstance(r, NodeRef) for r in flat_refs)
+            # Outputs may be (returned) inputs or constants, neither of which is a node.
+            flat_refs = tuple(self._convert_arg(a, f"output_{i}") for i, a in enumerate(raw))
             unflatten_ref = self._graph.add_node(
                 "_prepare_output",
                 _prepare_output(self._out_spec),
@@ -391,7 +391,7 @@ class _GraphBuilder:
             )
             self._graph.add_output(unflatten_ref)
         else:
-            for ref in flat_refs:
+            for ref in (self._fx_to_ff[a] for a in raw if isinstance(a, fx.Node)):
                 assert isinstance(ref, NodeRef)
                 self._graph.add_output(ref)
 
-- 
2.43.0


From dbf0d1bcff1baaabeab9e61f8cfe736d1b145cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:42 +0000
Subject: [PATCH 83/93] fix: call submodules with their original arguments in
 traced graphs

---
 src/fastforward/_orchestration/trace.py | 121 +++++++++++++++++++++---
 1 file changed, 108 insertions(+), 13 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index dab193c..537c0e9 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -5,11 +5,12 @@ from __future__ import annotations
 
 import contextlib
 import inspect
+import itertools
 import re
 import warnings
 import weakref
 
-from typing import Any, Callable, Iterator, cast
+from typing import Any, Callable, Collection, Iterator, cast
 
 import torch
 import torch.nn as nn
@@ -215,6 +216,57 @@ def _fold_needs_preservation(mod: nn.Module) -> bool:
     return n_placeholders > 1
 
 
+@contextlib.contextmanager
+def _record_call_structures(
+    module: nn.Module,
+) -> Iterator[dict[nn.Module, list[tuple[pytree.TreeSpec, pytree.TreeSpec, bool]]]]:
+    """Record how each submodule of `module` is called.
+
+    For each call, the structure of the arguments, the structure of the output and whether
+    the call is _simple_, i.e. it takes a single positional tensor and returns a tensor, are
+    recorded. Export flattens the arguments and outputs of calls. This is harmless for
+    simple calls, but loses constants, unused, repeated and keyword arguments of other calls.
+    """
+    calls: dict[nn.Module, list[tuple[pytree.TreeSpec, pytree.TreeSpec, bool]]] = {}
+
+    def _record(mod: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any], out: Any) -> None:
+        simple = (
+            len(args) == 1
+            and not kwargs
+            and isinstance(args[0], torch.Tensor)
+            and isinstance(out, torch.Tensor)
+        )
+        in_spec, out_spec = pytree.tree_structure((args, kwargs)), pytree.tree_structure(out)
+        calls.setdefault(mod, []).append((in_spec, out_spec, simple))
+
+    handles = [
+        submodule.register_forward_hook(_record, with_kwargs=True)
+        for submodule in module.modules()
+        if submodule is not module
+    ]
+    try:
+        yield calls
+    finally:
+        for handle in handles:
+            handle.remove()
+
+
+def _share_state(captured: nn.Module, original: nn.Module) -> None:
+    """Let `captured` use the parameters and buffers of `original` instead of copies thereof."""
+    tensors = (
+        original.named_parameters(remove_duplicate=False),
+        original.named_buffers(remove_duplicate=False),
+    )
+    for name, tensor in itertools.chain(*tensors):
+        *path, leaf = name.split(".")
+        owner: Any = captured
+        for part in path:
+            owner = getattr(owner, part, None)
+        if isinstance(getattr(owner, leaf, None), torch.Tensor):
+            delattr(owner, leaf)
+            setattr(owner, leaf, tensor)
+
+
 def _can_call_original(original: nn.Module, submod: nn.Module, fx_node: fx.Node) -> bool:
     """Check if calling original.forward matches the captured FX call.
 
@@ -267,6 +319,9 @@ class _GraphBuilder:
         is_root: bool = False,
         positional_names: list[str] | None = None,
         out_spec: pytree.TreeSpec | None = None,
+        preserved: Collection[str] = (),
+        ambiguous: Collection[str] = (),
+        call_counts: dict[nn.Module, int] | None = None,
     ) -> None:
         self._graph = GraphModule()
         self._fx_to_ff: dict[fx.Node, _BaseRef] = {}
@@ -275,8 +330,13 @@ class _GraphBuilder:
         self._is_root = is_root
         self._positional_names = positional_names or []
         self._out_spec = out_spec
+        self._preserved = preserved
+        self._ambiguous = ambiguous
+        self._call_counts: dict[nn.Module, int] = call_counts if call_counts is not None else {}
 
     def _absolute_path(self, target: str) -> str:
+        # Calls of the same module that result in different graphs are marked by an index.
+        target = re.sub(r"@\d+", "", target)
         return f"{self._path_prefix}.{target}" if self._path_prefix else target
 
     def _has_attr_on_original(self, absolute_path: str) -> bool:
@@ -348,14 +408,23 @@ class _GraphBuilder:
     def _handle_call_module(self, fx_node: fx.Node, fx_gm: nn.Module) -> None:
         assert isinstance(fx_node.target, str)
         target = fx_node.target
-        submod = fx_gm.get_submodule(target)
+        submod = self._next_call(fx_gm.get_submodule(target))
         absolute_path = self._absolute_path(target)
 
         if _is_non_leaf_graph_module(submod):
-            sub_builder = _GraphBuilder(self._original_root, absolute_path)
+            sub_builder = _GraphBuilder(
+                self._original_root,
+                absolute_path,
+                preserved=self._preserved,
+                ambiguous=self._ambiguous,
+                call_counts=self._call_counts,
+            )
             sub_ff = sub_builder.build(submod)
             args, kwargs = self._convert_args(fx_node)
-            original = self._original_root.get_submodule(absolute_path)
+            original: nn.Module | None = self._original_root.get_submodule(absolute_path)
+            if absolute_path in self._ambiguous:
+                # The captured call does not match the signature of the original.
+                original = None
             output_refs = self._graph.add_subgraph(
                 target, sub_ff, args, kwargs, original_module=original
             )
@@ -370,10 +439,22 @@ class _GraphBuilder:
                 )
         else:
             original = self._original_root.get_submodule(absolute_path)
-            if not _can_call_original(original, submod, fx_node):
+            if absolute_path not in self._preserved and (
+                absolute_path in self._ambiguous
+                or not _can_call_original(original, submod, fx_node)
+            ):
+                _share_state(submod, original)
                 original = submod
             self._fx_to_ff[fx_node] = self._add_op_node(fx_node, target, original, Op.torch_module)
 
+    def _next_call(self, submod: nn.Module) -> nn.Module:
+        """Select the captured call if `submod` dispatches to a sequence of captured calls."""
+        if (call_modules := getattr(submod, "_call_modules", None)) is None:
+            return submod
+        index = self._call_counts.get(submod, 0)
+        self._call_counts[submod] = index + 1
+        return cast(nn.Module, call_modules[index % len(call_modules)])
+
     def _handle_output(self, fx_node: fx.Node) -> None:
         raw: tuple[Any, ...] | list[Any] = fx_node.args
         if len(raw) == 1 and isinstance(raw[0], (list, tuple)):
@@ -509,17 +590,29 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
     ]
 
     with ff.disable_quantization(module), _placeholder_uninitialized_params(module):
-        exported_program = torch.export.export(module, args=args, kwargs=kwargs)
+        with _record_call_structures(module) as calls:
+            exported_program = torch.export.export(module, args=args, kwargs=kwargs)
         unflattened = torch.export.unflatten(exported_program)
 
-        fold_fqns = tuple(
-            name
-            for name, mod in unflattened.named_modules()
-            if _is_non_leaf_graph_module(mod) and name and _fold_needs_preservation(mod)
-        )
-        if fold_fqns:
+        # Calls that cannot be recovered from their flattened arguments need a preserved
+        # signature, unless the module is called in more than one way.
+        preserved: set[str] = set()
+        ambiguous: set[str] = set()
+        for name, submodule in module.named_modules(remove_duplicate=False):
+            if all(simple for *_, simple in calls.get(submodule, ())):
+                continue
+            structures = {str(structure) for structure in calls[submodule]}
+            (preserved if len(structures) == 1 else ambiguous).add(name)
+
+        for name, mod in unflattened.named_modules():
+            name = re.sub(r"@\d+", "", name)
+            if _is_non_leaf_graph_module(mod) and name and _fold_needs_preservation(mod):
+                if name not in ambiguous:
+                    preserved.add(name)
+
+        if preserved:
             exported_program = torch.export.export(
-                module, args=args, kwargs=kwargs, preserve_module_call_signature=fold_fqns
+                module, args=args, kwargs=kwargs, preserve_module_call_signature=tuple(preserved)
             )
             with warnings.catch_warnings():
                 warnings.filterwarnings(
@@ -538,6 +631,8 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         is_root=True,
         positional_names=positional_names,
         out_spec=out_spec,
+        preserved=preserved,
+        ambiguous=ambiguous,
     )
 
     _graph_cache[module] = builder.build(unflattened)
-- 
2.43.0


From 9d2dd39ce18eb68b0a21667695af54fa4f1d8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:42 +0000
Subject: [PATCH 84/93] fix: trace repeated example inputs as distinct inputs

---
 src/fastforward/_orchestration/trace.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 537c0e9..57f710a 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -589,6 +589,18 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)
     ]
 
+    # Export identifies inputs that are the same tensor, also when the graph is used for others.
+    seen: set[int] = set()
+
+    def _distinct(x: Any) -> Any:
+        if isinstance(x, torch.Tensor):
+            if id(x) in seen:
+                return x.clone()
+            seen.add(id(x))
+        return x
+
+    args, kwargs = pytree.tree_map(_distinct, (args, kwargs))
+
     with ff.disable_quantization(module), _placeholder_uninitialized_params(module):
         with _record_call_structures(module) as calls:
             exported_program = torch.export.export(module, args=args, kwargs=kwargs)
-- 
2.43.0


From 5ab3b61d4ef05e5ff12bfa091da0ff32f4110bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:42 +0000
Subject: [PATCH 85/93] fix: retrace models that changed since they were traced

---
 src/fastforward/_orchestration/trace.py | 39 +++++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 57f710a..17df313 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -545,8 +545,33 @@ class _GraphBuilder:
 
 
 # We keep track of a GraphModule cache to ensure we don't re-trace the same model twice
-# under different orchestration needs (e.g. PTQ vs inference).
-_graph_cache: weakref.WeakKeyDictionary[torch.nn.Module, GraphModule] = weakref.WeakKeyDictionary()
+# under different orchestration needs (e.g. PTQ vs inference). A graph is only reused if neither the
+# modules nor the structure of the example inputs changed.
+_graph_cache: weakref.WeakKeyDictionary[
+    torch.nn.Module, tuple[tuple[Any, ...], GraphModule]
+] = weakref.WeakKeyDictionary()
+
+
+def _cache_key(
+    module: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any]
+) -> tuple[Any, ...]:
+    """Identify the module structure and input structure that a graph is traced for."""
+    leaves, spec = pytree.tree_flatten((args, kwargs))
+    return (
+        module.training,
+        tuple(
+            (name, submodule, submodule.training)
+            for name, submodule in module.named_modules(remove_duplicate=False)
+            if submodule is not module
+        ),
+        str(spec),
+        tuple(
+            (leaf.shape, leaf.dtype, leaf.device)
+            if isinstance(leaf, torch.Tensor)
+            else (type(leaf), repr(leaf))
+            for leaf in leaves
+        ),
+    )
 
 
 @ff.flags.context(ff.strict_quantization, False)
@@ -580,8 +605,9 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         msg = f"fastforward._orchestration.trace requires PyTorch >= {_MIN_TORCH_VERSION}; got {torch.__version__}."
         raise RuntimeError(msg)
 
-    if module in _graph_cache:
-        return _graph_cache[module]
+    cache_key = _cache_key(module, args, kwargs)
+    if (cached := _graph_cache.get(module)) is not None and cached[0] == cache_key:
+        return cached[1]
 
     positional_names = [
         p.name
@@ -647,5 +673,6 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         ambiguous=ambiguous,
     )
 
-    _graph_cache[module] = builder.build(unflattened)
-    return _graph_cache[module]
+    graph = builder.build(unflattened)
+    _graph_cache[module] = (cache_key, graph)
+    return graph
-- 
2.43.0


From 8a694ba030c2ec92dcf9db173cd8029b42364d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 86/93] fix: register modules of nodes that are named after
 graph attributes

---
 src/fastforward/_orchestration/graph_module.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 85f1292..d327c77 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -19,6 +19,7 @@ from typing import (
     Iterator,
     Sequence,
     TypeAlias,
+    cast,
 )
 
 import torch
@@ -585,9 +586,9 @@ class GraphModule(torch.nn.Module):
             *module_path, leaf_name = name.split(".")
             parent_module: torch.nn.Module = self
             for attr in module_path:
-                if not hasattr(parent_module, attr):
-                    parent_module.add_module(attr, torch.nn.Module())
-                parent_module = getattr(parent_module, attr)
+                if parent_module._modules.get(attr) is None:
+                    parent_module._modules[attr] = torch.nn.Module()
+                parent_module = cast(torch.nn.Module, parent_module._modules[attr])
 
             # Don't overwrite children of original modules registered as folds —
             # those belong to the user's model and must not be mutated.
@@ -595,7 +596,8 @@ class GraphModule(torch.nn.Module):
                 parent_module is self._nodes[fid].target for fid in self._fold_ids
             )
             if not is_fold_original:
-                parent_module.add_module(leaf_name, node.target)
+                # Node names may coincide with names of (non-module) attributes.
+                parent_module._modules[leaf_name] = node.target
 
         return ref
 
-- 
2.43.0


From fb87a3b6394e7d7d85109e790a22234551f0526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 87/93] fix: recover the arguments of calls of shared
 submodules

---
 src/fastforward/_orchestration/trace.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 17df313..7fc7e75 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -4,6 +4,7 @@
 from __future__ import annotations
 
 import contextlib
+import functools
 import inspect
 import itertools
 import re
@@ -229,7 +230,10 @@ def _record_call_structures(
     """
     calls: dict[nn.Module, list[tuple[pytree.TreeSpec, pytree.TreeSpec, bool]]] = {}
 
-    def _record(mod: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any], out: Any) -> None:
+    # Export may call a module through a proxy, i.e. hooks don't always receive `submodule` itself.
+    def _record(
+        submodule: nn.Module, _: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any], out: Any
+    ) -> None:
         simple = (
             len(args) == 1
             and not kwargs
@@ -237,10 +241,10 @@ def _record_call_structures(
             and isinstance(out, torch.Tensor)
         )
         in_spec, out_spec = pytree.tree_structure((args, kwargs)), pytree.tree_structure(out)
-        calls.setdefault(mod, []).append((in_spec, out_spec, simple))
+        calls.setdefault(submodule, []).append((in_spec, out_spec, simple))
 
     handles = [
-        submodule.register_forward_hook(_record, with_kwargs=True)
+        submodule.register_forward_hook(functools.partial(_record, submodule), with_kwargs=True)
         for submodule in module.modules()
         if submodule is not module
     ]
-- 
2.43.0


From 5ea260dbbc60f44e207c274a6f8c162f19e3aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 88/93] fix: order inputs of traced graphs as the parameters of
 the model

---
 src/fastforward/_orchestration/trace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 7fc7e75..7763a56 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -609,13 +609,17 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         msg = f"fastforward._orchestration.trace requires PyTorch >= {_MIN_TORCH_VERSION}; got {torch.__version__}."
         raise RuntimeError(msg)
 
+    # The inputs of the graph have the order of the parameters of `module`.
+    parameters = inspect.signature(module.forward).parameters
+    kwargs = {k: kwargs[k] for k in (*parameters, *kwargs) if k in kwargs}
+
     cache_key = _cache_key(module, args, kwargs)
     if (cached := _graph_cache.get(module)) is not None and cached[0] == cache_key:
         return cached[1]
 
     positional_names = [
         p.name
-        for p in inspect.signature(module.forward).parameters.values()
+        for p in parameters.values()
         if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)
     ]
 
-- 
2.43.0


From c755f1302c37666466db4d745d492a7636e27864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 89/93] fix: keep all submodules of traced models

---
 src/fastforward/_orchestration/graph_module.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index d327c77..5f1ae01 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -589,13 +589,12 @@ class GraphModule(torch.nn.Module):
                 if parent_module._modules.get(attr) is None:
                     parent_module._modules[attr] = torch.nn.Module()
                 parent_module = cast(torch.nn.Module, parent_module._modules[attr])
-
-            # Don't overwrite children of original modules registered as folds —
-            # those belong to the user's model and must not be mutated.
-            is_fold_original = any(
-                parent_module is self._nodes[fid].target for fid in self._fold_ids
-            )
-            if not is_fold_original:
+                if type(parent_module) is not torch.nn.Module:
+                    # Don't overwrite children of original modules registered as folds (or of
+                    # their descendants) — those belong to the user's model and must not be
+                    # mutated.
+                    break
+            else:
                 # Node names may coincide with names of (non-module) attributes.
                 parent_module._modules[leaf_name] = node.target
 
-- 
2.43.0


From ca7d637d3c32d089d1e6b6c4d806471f53d16710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 90/93] fix: view plain tensors as quantized tensors

---
 src/fastforward/quantized_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantized_tensor.py b/src/fastforward/quantized_tensor.py
index 3082ccc..0c63d5c 100644
--- a/src/fastforward/quantized_tensor.py
+++ b/src/fastforward/quantized_tensor.py
@@ -577,8 +577,8 @@ def _view_predicate(self: QuantizedTensor, *shape: int | Sequence[int] | torch.S
 
 @Predicate
 def _view_as_predicate(self: QuantizedTensor, other: torch.Tensor) -> bool:
-    if not isinstance(other, torch.Tensor):
-        return False  # type: ignore[unreachable]
+    if not isinstance(self, QuantizedTensor) or not isinstance(other, torch.Tensor):
+        return False
     return other.shape == self.shape
 
 
-- 
2.43.0


From e14a34b1f6f2478cff749b4b061c95cc9385606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:01 +0000
Subject: [PATCH 91/93] fix: list root, repeated and uninitialized quantizers

---
 src/fastforward/nn/quantized_module.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index ffb6f12..753cf20 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -63,13 +63,16 @@ def named_quantizers(
     """
     if recurse:
         module_iter = module.named_modules(prefix="", remove_duplicate=remove_duplicate)
-    else:
+    elif remove_duplicate:
         module_iter = module.named_children()
+    else:
+        children = module._modules.items()
+        module_iter = ((name, child) for name, child in children if child is not None)
     for name, module in module_iter:
         if isinstance(module, Quantizer):
             if skip_stubs and isinstance(module, QuantizerStub):
                 continue
-            prefixed_name = prefix + ("." if prefix else "") + name
+            prefixed_name = prefix + ("." if prefix and name else "") + name
             yield prefixed_name, module
 
 
@@ -88,6 +91,9 @@ def quantizer_state_dict(module: torch.nn.Module) -> dict[str, Any]:
     """
     state_dict: dict[str, torch.Tensor] = {}
     for name, quantizer in ff.nn.quantized_module.named_quantizers(module):
+        state = (*quantizer.parameters(), *quantizer.buffers())
+        if any(torch.nn.parameter.is_lazy(value) for value in state):
+            continue  # The state of an uninitialized quantizer cannot be stored.
         prefix = name + ("." if name else "")
         quantizer.state_dict(destination=state_dict, prefix=prefix)
     return state_dict
-- 
2.43.0


From a8724225c3db31f43d658c241b98c227839f76b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:43 +0000
Subject: [PATCH 92/93] fix: run the partial that is given for a registered
 algorithm

---
 src/fastforward/_orchestration/registry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/registry.py b/src/fastforward/_orchestration/registry.py
index 088b001..62323bb 100644
--- a/src/fastforward/_orchestration/registry.py
+++ b/src/fastforward/_orchestration/registry.py
@@ -245,7 +245,10 @@ class _AlgorithmRegistry(Mapping[Algorithm, AlgorithmSpec]):
             if key not in self._specs:
                 msg = f"No target registered for algorithm {_algorithm_name(algorithm)!r}."
                 raise NoTargetsFound(msg)
-            spec_list = [self._specs[key]]
+            spec = self._specs[key]
+            if isinstance(algorithm, functools.partial):  # Keep the arguments that were given.
+                spec = dataclasses.replace(spec, fn=algorithm)
+            spec_list = [spec]
 
         result: list[SubgraphSpec] = []
         for spec in spec_list:
-- 
2.43.0


From 81d1caf80a5c256cb55ee6a7bf340f69c00bb17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:11 +0000
Subject: [PATCH 93/93] fix: quantized modules that are called in several ways

---
 src/fastforward/_orchestration/trace.py | 45 ++++++++++++++++++-------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 7763a56..eda6c35 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -220,28 +220,34 @@ def _fold_needs_preservation(mod: nn.Module) -> bool:
 @contextlib.contextmanager
 def _record_call_structures(
     module: nn.Module,
-) -> Iterator[dict[nn.Module, list[tuple[pytree.TreeSpec, pytree.TreeSpec, bool]]]]:
+) -> Iterator[dict[nn.Module, list[tuple[pytree.TreeSpec, pytree.TreeSpec, bool, bool]]]]:
     """Record how each submodule of `module` is called.
 
-    For each call, the structure of the arguments, the structure of the output and whether
-    the call is _simple_, i.e. it takes a single positional tensor and returns a tensor, are
-    recorded. Export flattens the arguments and outputs of calls. This is harmless for
+    For each call, the structure of the arguments, the structure of the output, whether the call
+    is equivalent to passing a single positional tensor and returns a tensor, and whether the call
+    is _simple_, i.e. it is such a call without keyword arguments, are recorded. Export flattens the arguments and outputs of calls. This is harmless for
     simple calls, but loses constants, unused, repeated and keyword arguments of other calls.
     """
-    calls: dict[nn.Module, list[tuple[pytree.TreeSpec, pytree.TreeSpec, bool]]] = {}
+    calls: dict[nn.Module, list[tuple[pytree.TreeSpec, pytree.TreeSpec, bool, bool]]] = {}
 
     # Export may call a module through a proxy, i.e. hooks don't always receive `submodule` itself.
     def _record(
         submodule: nn.Module, _: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any], out: Any
     ) -> None:
-        simple = (
-            len(args) == 1
-            and not kwargs
-            and isinstance(args[0], torch.Tensor)
-            and isinstance(out, torch.Tensor)
-        )
+        try:
+            bound = inspect.signature(submodule.forward).bind(*args, **kwargs)
+        except (ValueError, TypeError):
+            single = False
+        else:
+            single = (
+                len(bound.args) == 1
+                and not bound.kwargs
+                and isinstance(bound.args[0], torch.Tensor)
+                and isinstance(out, torch.Tensor)
+            )
+        simple = single and not kwargs
         in_spec, out_spec = pytree.tree_structure((args, kwargs)), pytree.tree_structure(out)
-        calls.setdefault(submodule, []).append((in_spec, out_spec, simple))
+        calls.setdefault(submodule, []).append((in_spec, out_spec, single, simple))
 
     handles = [
         submodule.register_forward_hook(functools.partial(_record, submodule), with_kwargs=True)
@@ -447,6 +453,16 @@ class _GraphBuilder:
                 absolute_path in self._ambiguous
                 or not _can_call_original(original, submod, fx_node)
             ):
+                if absolute_path in self._ambiguous and any(
+                    isinstance(m, ff.nn.Quantizer) and not isinstance(m, ff.nn.QuantizerStub)
+                    for m in original.modules()
+                ):
+                    # The captured call does not quantize.
+                    msg = (
+                        f"Cannot trace '{absolute_path}': quantized modules must be called with "
+                        "the same structure of arguments throughout the model."
+                    )
+                    raise ValueError(msg)
                 _share_state(submod, original)
                 original = submod
             self._fx_to_ff[fx_node] = self._add_op_node(fx_node, target, original, Op.torch_module)
@@ -648,7 +664,10 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
             if all(simple for *_, simple in calls.get(submodule, ())):
                 continue
             structures = {str(structure) for structure in calls[submodule]}
-            (preserved if len(structures) == 1 else ambiguous).add(name)
+            if len(structures) == 1:
+                preserved.add(name)
+            elif not all(single for *_, single, _ in calls[submodule]):
+                ambiguous.add(name)
 
         for name, mod in unflattened.named_modules():
             name = re.sub(r"@\d+", "", name)
-- 
2.43.0

