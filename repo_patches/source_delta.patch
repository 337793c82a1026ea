From ebfdaa3e6529fd4e64a27fc2445111df07df2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 01/45] fix: decode negative fixed-point values of large
 magnitude correctly

The floor division used scale - 1 as divisor for negative values, so every value
at or below about -scale decoded one or more units too low (-65536.0 decoded to
-65537.0).
---
 crypten/encoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crypten/encoder.py b/crypten/encoder.py
index c567a93..27f9c93 100644
--- a/crypten/encoder.py
+++ b/crypten/encoder.py
@@ -71,10 +71,9 @@ class FixedPointEncoder:
             return None
         assert is_int_tensor(tensor), "input must be a LongTensor"
         if self._scale > 1:
-            correction = (tensor < 0).long()
-            dividend = tensor.div(self._scale - correction, rounding_mode="floor")
+            # floor division and modulo agree: tensor = dividend * scale + remainder
+            dividend = tensor.div(self._scale, rounding_mode="floor")
             remainder = tensor % self._scale
-            remainder += (remainder == 0).long() * self._scale * correction
 
             tensor = dividend.float() + remainder.float() / self._scale
         else:
-- 
2.43.0


From 57b016f1eb7af7c6b228cb04567957f16993cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 02/45] fix: keep the fractional part when encoding
 floating-point numpy arrays

The array was cast to long before it was scaled, which dropped all fractions.
---
 crypten/encoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/encoder.py b/crypten/encoder.py
index 27f9c93..37cb8ec 100644
--- a/crypten/encoder.py
+++ b/crypten/encoder.py
@@ -59,7 +59,10 @@ class FixedPointEncoder:
         elif is_int_tensor(x):
             return self._scale * x.long()
         elif isinstance(x, np.ndarray):
-            return self._scale * torch.from_numpy(x).long().to(device)
+            x = torch.from_numpy(x).to(device)
+            if is_float_tensor(x):
+                return (self._scale * x).long()
+            return self._scale * x.long()
         elif torch.is_tensor(x):
             raise TypeError("Cannot encode input with dtype %s" % x.dtype)
         else:
-- 
2.43.0


From 0295e2d85edcc358bf5d9d2ca956535f9e2a8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:27 +0000
Subject: [PATCH 03/45] fix: rescale products of private tensors with different
 scales correctly

The product of tensors encoded with scales s and t carries scale s * t, so it
has to be divided by t to be read back with the encoder of the first operand.
---
 crypten/mpc/primitives/arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index f3f4dab..498376e 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -393,9 +393,9 @@ class ArithmeticSharedTensor:
                     return result.div_(result.encoder.scale)
                 else:
                     result.encoder = self.encoder
-            else:  # scale by larger of self.encoder.scale and y.encoder.scale
+            else:  # scale by y.encoder.scale; result keeps self.encoder.scale
                 if self.encoder.scale > 1 and y.encoder.scale > 1:
-                    return result.div_(result.encoder.scale)
+                    return result.div_(y.encoder.scale)
                 elif self.encoder.scale > 1:
                     result.encoder = self.encoder
                 else:
-- 
2.43.0


From af31ccf908039484db5e440292b61d7a768e9609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:44 +0000
Subject: [PATCH 04/45] fix: compute odd powers greater than three correctly

pow(5) returned (x ** 3) ** 2 = x ** 6.
---
 crypten/common/functions/power.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypten/common/functions/power.py b/crypten/common/functions/power.py
index cc2254f..96670e1 100644
--- a/crypten/common/functions/power.py
+++ b/crypten/common/functions/power.py
@@ -41,8 +41,7 @@ def pow(self, p, **kwargs):
     elif p % 2 == 0:
         return self.square().pow(p // 2)
     else:
-        x = self.square().mul_(self)
-        return x.pow((p - 1) // 2)
+        return self.square().pow((p - 1) // 2).mul_(self)
 
 
 def pos_pow(self, p):
-- 
2.43.0


From 7185951536d125e23b23084659eb60b0e3b7de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:02 +0000
Subject: [PATCH 05/45] fix: make comparisons return 0 or 1 for tensors with a
 non-default scale

The comparison bit was converted to arithmetic sharing with the ratio between
the default scale and the scale of the compared tensors, and then read back as
if that ratio was 1.
---
 crypten/mpc/mpc.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crypten/mpc/mpc.py b/crypten/mpc/mpc.py
index 5a755c3..f6570ee 100644
--- a/crypten/mpc/mpc.py
+++ b/crypten/mpc/mpc.py
@@ -233,13 +233,11 @@ class MPCTensor(CrypTensor):
     def _ltz(self):
         """Returns 1 for elements that are < 0 and 0 otherwise"""
         shift = torch.iinfo(torch.long).bits - 1
-        precision = 0 if self.encoder.scale == 1 else None
 
         result = self._to_ptype(Ptype.binary)
         result.share >>= shift
-        result = result._to_ptype(Ptype.arithmetic, precision=precision, bits=1)
-        result.encoder._scale = 1
-        return result
+        result.encoder = FixedPointEncoder(precision_bits=0)
+        return result._to_ptype(Ptype.arithmetic, precision=0, bits=1)
 
     def eq(self, y):
         """Returns self == y"""
@@ -265,13 +263,10 @@ class MPCTensor(CrypTensor):
 
         # Perform equality testing using binary shares
         x0._tensor = x0._tensor.eq(x1._tensor)
-        x0.encoder = self.encoder
+        x0.encoder = FixedPointEncoder(precision_bits=0)
 
         # Convert to Arithmetic sharing
-        result = x0.to(Ptype.arithmetic, bits=1)
-        result.encoder._scale = 1
-
-        return result
+        return x0.to(Ptype.arithmetic, precision=0, bits=1)
 
     def div(self, y):
         r"""Divides each element of :attr:`self` with the scalar :attr:`y` or
-- 
2.43.0


From 416ed0b96afea33c564c17d80e958bb9b36183da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:03 +0000
Subject: [PATCH 06/45] fix: count the underflow of a sum of shares that wraps
 around to zero

---
 crypten/common/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/common/util.py b/crypten/common/util.py
index bc051ea..ec94e40 100644
--- a/crypten/common/util.py
+++ b/crypten/common/util.py
@@ -22,7 +22,7 @@ def count_wraps(share_list):
     prev = share_list[0]
     for cur in share_list[1:]:
         next = cur + prev
-        result -= ((prev < 0) & (cur < 0) & (next > 0)).long()  # underflow
+        result -= ((prev < 0) & (cur < 0) & (next >= 0)).long()  # underflow
         result += ((prev > 0) & (cur > 0) & (next < 0)).long()  # overflow
         prev = next
     return result
-- 
2.43.0


From 0ac6218f3f5da68d43eeefdd814758be6330dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:03 +0000
Subject: [PATCH 07/45] fix: reject replicated multiplication with more than
 three parties

The products of shares that are not held by neighbouring parties were dropped
silently, so results were wrong.
---
 crypten/mpc/primitives/replicated.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypten/mpc/primitives/replicated.py b/crypten/mpc/primitives/replicated.py
index 4f245b8..5945f41 100644
--- a/crypten/mpc/primitives/replicated.py
+++ b/crypten/mpc/primitives/replicated.py
@@ -16,6 +16,10 @@ def replicate_shares(share_list):
     world_size = comm.get().get_world_size()
     if world_size < 3:
         raise ValueError("Cannot utilize Replicated Sharing securely with < 3 parties.")
+    if world_size > 3:
+        raise NotImplementedError(
+            "Replicated Sharing is only implemented for world_size == 3."
+        )
     rank = comm.get().get_rank()
     prev_rank = (rank - 1) % world_size
     next_rank = (rank + 1) % world_size
-- 
2.43.0


From feada0759f0b778c734b7e2bce50fb0014052482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:24 +0000
Subject: [PATCH 08/45] fix: keep the value when converting binary shares to a
 coarser arithmetic scale

The ratio of the two scales was rounded down to zero, so that the result was
zero whatever the input.
---
 crypten/mpc/primitives/converters.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crypten/mpc/primitives/converters.py b/crypten/mpc/primitives/converters.py
index f94b9fc..d9ab1a3 100644
--- a/crypten/mpc/primitives/converters.py
+++ b/crypten/mpc/primitives/converters.py
@@ -63,10 +63,8 @@ def _B2A(binary_tensor, precision=None, bits=None):
 
         arithmetic_tensor = arithmetic_bits.mul_(multiplier).sum(0)
 
-    arithmetic_tensor.encoder = FixedPointEncoder(precision_bits=precision)
-    scale = arithmetic_tensor.encoder._scale // binary_tensor.encoder._scale
-    arithmetic_tensor *= scale
-    return arithmetic_tensor
+    arithmetic_tensor.encoder = binary_tensor.encoder
+    return arithmetic_tensor.encode_(FixedPointEncoder(precision_bits=precision))
 
 
 def convert(tensor, ptype, **kwargs):
-- 
2.43.0


From 9a99ee6d267c2fb687ac02d9d67555b37cd21b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:03 +0000
Subject: [PATCH 09/45] fix: keep the fractional part of public operands of
 integer-encoded tensors

---
 crypten/mpc/primitives/arithmetic.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 498376e..644bad4 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -24,6 +24,13 @@ from . import beaver, replicated  # noqa: F401
 SENTINEL = -1
 
 
+def has_fraction(y):
+    """Returns True if y is a number or tensor with elements that are not integers"""
+    if isinstance(y, float):
+        return not y.is_integer()
+    return is_float_tensor(y) and not y.frac().eq(0).all()
+
+
 # MPC tensor where shares additive-sharings.
 class ArithmeticSharedTensor:
     """
@@ -359,9 +366,14 @@ class ArithmeticSharedTensor:
             result = self.clone()
 
         if public:
-            y = result.encoder.encode(y, device=self.device)
+            encoder = result.encoder
+            if encoder.scale == 1 and has_fraction(y):
+                # an integer encoding would drop the fractional part of y
+                encoder = FixedPointEncoder()
+            y = encoder.encode(y, device=self.device)
 
             if additive_func:  # ['add', 'sub']
+                result.encode_(encoder)
                 if result.rank == 0:
                     result.share = getattr(result.share, op)(y)
                 else:
@@ -392,7 +404,7 @@ class ArithmeticSharedTensor:
                 if self.encoder.scale > 1:
                     return result.div_(result.encoder.scale)
                 else:
-                    result.encoder = self.encoder
+                    result.encoder = encoder
             else:  # scale by y.encoder.scale; result keeps self.encoder.scale
                 if self.encoder.scale > 1 and y.encoder.scale > 1:
                     return result.div_(y.encoder.scale)
-- 
2.43.0


From f70eedeb6ffe9c59081ddc8f6d1a0c9618f8764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:15 +0000
Subject: [PATCH 10/45] fix: pad the right dimensions in max pooling with
 unequal padding

---
 crypten/common/functions/pooling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index e726478..ccad122 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -377,17 +377,18 @@ def _pool2d_reshape(
     if padding is not None:
         padding = (padding, padding) if isinstance(padding, int) else padding
         assert len(padding) == 2, "Padding must be an integer or a pair"
-        padding = (padding[0], padding[0], padding[1], padding[1])
+        # torch.nn.functional.pad expects the padding of the last dimension first
+        padding = (padding[1], padding[1], padding[0], padding[0])
     else:
         padding = (0, 0, 0, 0)
 
     # Compute output size based on parameters
     n = input.size()[:-2]
     h = _pooling_output_shape(
-        input.size(-2), k[0], padding[0], padding[1], s[0], d[0], ceil_mode
+        input.size(-2), k[0], padding[2], padding[3], s[0], d[0], ceil_mode
     )
     w = _pooling_output_shape(
-        input.size(-1), k[1], padding[2], padding[3], s[1], d[1], ceil_mode
+        input.size(-1), k[1], padding[0], padding[1], s[1], d[1], ceil_mode
     )
 
     out_size = tuple(n + (h, w))
-- 
2.43.0


From 108253203a770c93f743d9f72fc059104e034c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:15 +0000
Subject: [PATCH 11/45] fix: accept a single size and per-dimension None in
 adaptive pooling

---
 crypten/common/functions/pooling.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index ccad122..ee1160e 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -156,8 +156,7 @@ def adaptive_avg_pool2d(self, output_size):
         output_size: the target output size (single integer or
             double-integer tuple)
     """
-    if output_size is None or output_size[0] is None:
-        output_size = self.shape[-2:]
+    output_size = _adaptive_output_size(self, output_size)
 
     if self.shape[-2:] == output_size:
         return self.clone()
@@ -179,8 +178,7 @@ def adaptive_max_pool2d(self, output_size, return_indices=False):
             double-integer tuple)
         return_indices: whether to return pooling indices. Default: ``False``
     """
-    if output_size is None or output_size[0] is None:
-        output_size = self.shape[-2:]
+    output_size = _adaptive_output_size(self, output_size)
 
     if self.shape[-2:] == output_size:
         if return_indices:
@@ -196,6 +194,16 @@ def adaptive_max_pool2d(self, output_size, return_indices=False):
 
 
 # Helper functions
+def _adaptive_output_size(input, output_size):
+    """Returns the target size as a pair; `None` keeps the size of the input"""
+    if output_size is None or isinstance(output_size, int):
+        output_size = (output_size, output_size)
+    return tuple(
+        size if out is None else out
+        for out, size in zip(output_size, input.shape[-2:])
+    )
+
+
 def _adaptive_pool2d_helper(input, output_size, reduction="mean"):
     r"""
     Provides a helper that adapts the input size and provides input
-- 
2.43.0


From 4eab99139928b54c6f8fd7a02ec330fcd4502956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:46 +0000
Subject: [PATCH 12/45] fix: align fixed-point scales when data moves between
 encrypted tensors

---
 crypten/common/functions/regular.py  | 19 ++++---
 crypten/mpc/primitives/arithmetic.py | 81 +++++++++++++++++++---------
 2 files changed, 66 insertions(+), 34 deletions(-)

diff --git a/crypten/common/functions/regular.py b/crypten/common/functions/regular.py
index d40dd95..36dc6e2 100644
--- a/crypten/common/functions/regular.py
+++ b/crypten/common/functions/regular.py
@@ -60,12 +60,10 @@ PROPERTY_FUNCTIONS = ["__len__", "nelement", "dim", "size", "numel"]
 
 def __setitem__(self, index, value):
     """Set tensor values by index"""
-    if not isinstance(value, type(self)):
-        kwargs = {"device": self.device}
-        if hasattr(self, "ptype"):
-            kwargs["ptype"] = self.ptype
-        value = self.new(value, **kwargs)
-    self._tensor.__setitem__(index, value._tensor)
+    # the tensors underlying an MPCTensor encode public values themselves
+    if is_tensor(self._tensor) and not isinstance(value, type(self)):
+        value = self.new(value, device=self.device)
+    self._tensor.__setitem__(index, getattr(value, "_tensor", value))
 
 
 def pad(self, pad, mode="constant", value=0):
@@ -109,10 +107,11 @@ def scatter_add(self, dim, index, other):
 def scatter(self, dim, index, src):
     """Out-of-place version of :meth:`CrypTensor.scatter_`"""
     result = self.clone()
-    if is_tensor(src):
+    # the tensors underlying an MPCTensor encode public values themselves
+    if is_tensor(self._tensor) and is_tensor(src):
         src = self.new(src)
-    assert isinstance(src, type(self)), "Unrecognized scatter src type: %s" % type(src)
-    result._tensor.scatter_(dim, index, src._tensor)
+    src = getattr(src, "_tensor", src)
+    result._tensor.scatter_(dim, index, src)
     return result
 
 
@@ -255,7 +254,7 @@ def __cat_stack_helper(op, tensors, *args, **kwargs):
         func = getattr(tensors[0]._tensor, op)
 
     # type coordination
-    for i, tensor in enumerate(tensors[1:]):
+    for i, tensor in enumerate(tensors[1:], start=1):
         if torch.is_tensor(tensor) or isinstance(tensor, (int, float)):
             tensors[i] = tensors[0].new(tensor)
         assert isinstance(tensors[i], type(tensors[0])), f"{op} tensor type mismatch"
diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 644bad4..8cb67f8 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -228,13 +228,45 @@ class ArithmeticSharedTensor:
 
     def __setitem__(self, index, value):
         """Set tensor values by index"""
+        if isinstance(value, list):
+            value = torch.tensor(value)
         if isinstance(value, (int, float)) or is_tensor(value):
-            value = ArithmeticSharedTensor(value)
+            value = self._share_operand(value)
         assert isinstance(value, ArithmeticSharedTensor), (
             "Unsupported input type %s for __setitem__" % type(value)
         )
+        value = self._match_scale_(value)
         self.share.__setitem__(index, value.share)
 
+    def _share_operand(self, value):
+        """Shares a public value using the encoding of self. If that is an integer
+        encoding and the value has a fractional part, uses the default encoding."""
+        bits = self.encoder._precision_bits
+        if self.encoder.scale == 1 and has_fraction(value):
+            bits = None
+        if is_int_tensor(value) and bits != 0:
+            value = value.float()
+        encoder = FixedPointEncoder(precision_bits=bits)
+        share = encoder.encode(value, device=self.device)
+        if self.rank != 0:
+            share = torch.zeros_like(share)
+        return ArithmeticSharedTensor.from_shares(share, precision=bits)
+
+    def _match_scale_(self, other):
+        """Rescales self (in-place) or a copy of `other` to the larger of the scales
+        of both. Returns `other` at that scale."""
+        if self.encoder.scale < other.encoder.scale:
+            self.encode_as_(other)
+        elif self.encoder.scale > other.encoder.scale:
+            other = other.encode_as(self)
+        return other
+
+    @staticmethod
+    def _match_scales(tensors):
+        """Returns the `tensors`, rescaled to the largest of their scales"""
+        largest = max(tensors, key=lambda tensor: tensor.encoder.scale)
+        return [tensor.encode_as(largest) for tensor in tensors]
+
     def pad(self, pad, mode="constant", value=0):
         """
         Pads the input tensor with values provided in `value`.
@@ -243,22 +275,17 @@ class ArithmeticSharedTensor:
             "Padding with mode %s is currently unsupported" % mode
         )
 
-        result = self.shallow_copy()
+        result = self.clone()
         if isinstance(value, (int, float)):
-            value = self.encoder.encode(value).item()
-            if result.rank == 0:
-                result.share = torch.nn.functional.pad(
-                    result.share, pad, mode=mode, value=value
-                )
-            else:
-                result.share = torch.nn.functional.pad(
-                    result.share, pad, mode=mode, value=0
-                )
+            value = result._match_scale_(result._share_operand(value)).share.item()
+            result.share = torch.nn.functional.pad(
+                result.share, pad, mode=mode, value=value
+            )
         elif isinstance(value, ArithmeticSharedTensor):
             assert (
                 value.dim() == 0
             ), "Private values used for padding must be 0-dimensional"
-            value = value.share.item()
+            value = result._match_scale_(value).share.item()
             result.share = torch.nn.functional.pad(
                 result.share, pad, mode=mode, value=value
             )
@@ -279,12 +306,20 @@ class ArithmeticSharedTensor:
                 "Can't stack %s with ArithmeticSharedTensor" % type(tensor)
             )
 
+        tensors = ArithmeticSharedTensor._match_scales(tensors)
         result = tensors[0].shallow_copy()
         result.share = torch_stack(
             [tensor.share for tensor in tensors], *args, **kwargs
         )
         return result
 
+    @staticmethod
+    def cat(tensors, *args, **kwargs):
+        """Perform tensor concatenation"""
+        if all(isinstance(tensor, ArithmeticSharedTensor) for tensor in tensors):
+            tensors = ArithmeticSharedTensor._match_scales(tensors)
+        return regular.cat(tensors, *args, **kwargs)
+
     @staticmethod
     def reveal_batch(tensor_or_list, dst=None):
         """Get (batched) plaintext without any downscaling"""
@@ -525,13 +560,11 @@ class ArithmeticSharedTensor:
         public = isinstance(tensor, (int, float)) or is_tensor(tensor)
         private = isinstance(tensor, ArithmeticSharedTensor)
         if public:
-            enc_tensor = self.encoder.encode(tensor)
-            if self.rank == 0:
-                self._tensor.index_add_(dim, index, enc_tensor)
-        elif private:
-            self._tensor.index_add_(dim, index, tensor._tensor)
-        else:
+            tensor = self._share_operand(tensor)
+        elif not private:
             raise TypeError("index_add second tensor of unsupported type")
+        tensor = self._match_scale_(tensor)
+        self._tensor.index_add_(dim, index, tensor._tensor)
         return self
 
     def scatter_add(self, dim, index, other):
@@ -553,12 +586,11 @@ class ArithmeticSharedTensor:
         public = isinstance(other, (int, float)) or is_tensor(other)
         private = isinstance(other, ArithmeticSharedTensor)
         if public:
-            if self.rank == 0:
-                self.share.scatter_add_(dim, index, self.encoder.encode(other))
-        elif private:
-            self.share.scatter_add_(dim, index, other.share)
-        else:
+            other = self._share_operand(other)
+        elif not private:
             raise TypeError("scatter_add second tensor of unsupported type")
+        other = self._match_scale_(other)
+        self.share.scatter_add_(dim, index, other.share)
         return self
 
     def avg_pool2d(self, kernel_size, stride=None, padding=0, ceil_mode=False):
@@ -641,10 +673,11 @@ class ArithmeticSharedTensor:
         corresponding value in `index` for `dimension = dim`.
         """
         if is_tensor(src):
-            src = ArithmeticSharedTensor(src)
+            src = self._share_operand(src)
         assert isinstance(src, ArithmeticSharedTensor), (
             "Unrecognized scatter src type: %s" % type(src)
         )
+        src = self._match_scale_(src)
         self.share.scatter_(dim, index, src.share)
         return self
 
-- 
2.43.0


From 2625dba2598ed8439cf9e1b6f8f7abcac802a77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 13/45] fix: accumulate gradients out of place

The first gradient a node receives may be the caller's seed, a view of it or the
gradient of another node; adding the next one in-place changed those too.
---
 crypten/cryptensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 4f71d7d..8543994 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -236,7 +236,9 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
                 if self.grad is None:
                     self.grad = grad_input  # store gradient...
                 else:
-                    self.grad.add_(grad_input)  # ... or accumulate gradient
+                    # ... or accumulate gradient (the stored gradient may be shared
+                    # with other nodes, so do not change it in-place)
+                    self.grad = self.grad.add(grad_input)
 
                 # if we are in a leaf or if not all parents have backpropagated:
                 if len(self.children) == 0 or self.grad_received < self.grad_expected:
-- 
2.43.0


From d3842484ee2c20d113d5bd1ae62f45f7861cf758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 14/45] fix: record indexing with x[index] in the autograd
 graph

The operator bypassed autograd, so gradients through it were silently lost.
---
 crypten/cryptensor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 8543994..2fba0f0 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -729,3 +729,14 @@ for module_name in functions.__all__:
     module = getattr(functions, module_name)
     for func in module.__all__:
         setattr(CrypTensor, func, getattr(module, func))
+
+
+def _getitem(self, index):
+    # Python looks `x[index]` up on the type, bypassing __getattribute__; send
+    # it there so that indexing is recorded by autograd like any other function
+    if CrypTensor.AUTOGRAD_ENABLED and self.requires_grad:
+        return self.__getattribute__("__getitem__")(index)
+    return functions.regular.__getitem__(self, index)
+
+
+CrypTensor.__getitem__ = _getitem
-- 
2.43.0


From 7efcb4fea20b48444d68281001ff5a035571ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 15/45] fix: accumulate the gradient of elements that are
 indexed more than once

Also lets the gradient of take deal with a negative dim.
---
 crypten/gradients.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 58b19da..96d015b 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -320,9 +320,10 @@ class AutogradTake(AutogradFunction):
             grad_flat = grad.flatten()
             flat_index = index.flatten()
             grad_output_flat = grad_output.flatten()
-            grad_flat[flat_index] = grad_output_flat
+            grad_flat.index_add_(0, flat_index, grad_output_flat)
             grad = grad_flat.reshape(size)
         else:
+            dim %= len(size)
             flat_index = index.flatten()
             grad_output_flat = grad_output.flatten(
                 start_dim=dim, end_dim=(dim + index.dim() - 1)
@@ -462,9 +463,11 @@ class AutogradGetItem(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         size, index = ctx.saved_tensors
-        grad = grad_output.new(torch.zeros(size))
-        grad[index] = grad_output
-        return grad
+        # the same element may be selected more than once
+        positions = torch.arange(size.numel()).reshape(size)[index].flatten()
+        grad = grad_output.new(torch.zeros(size.numel()))
+        grad = grad.index_add_(0, positions, grad_output.flatten())
+        return grad.reshape(size)
 
 
 @register_function("neg")
-- 
2.43.0


From dc415e5ef847842c885ca92d57cc3aa2b2930a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 16/45] fix: negative dims in permute, narrow and
 cosine_similarity with autograd

---
 crypten/gradients.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 96d015b..52d3a80 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -189,6 +189,7 @@ class AutogradPermute(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         (dims,) = ctx.saved_tensors
+        dims = [dim % len(dims) for dim in dims]
         inds = [dims.index(x) for x in range(len(dims))]
         return grad_output.permute(inds)
 
@@ -295,7 +296,7 @@ class AutogradNarrow(AutogradFunction):
         size, dim, start, length = ctx.saved_tensors
 
         # pad is applied to dimensions in reverse order
-        dim = grad_output.dim() - 1 - dim
+        dim = grad_output.dim() - 1 - dim % grad_output.dim()
 
         # pad is applied in pairs that denote the pads at the beginning and end
         # of the tensor along the given dimension
@@ -1018,6 +1019,7 @@ class AutogradCosineSimilarity(AutogradFunction):
         if zero_dim:
             x1 = x1.unsqueeze(0)
             x2 = x2.unsqueeze(0)
+        dim %= x1.dim()
 
         # Handle 1-d vectors
         if x1.size(dim) == 1:
-- 
2.43.0


From 99b8885f9e93fdd035426882cba9414cc40cbb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 17/45] fix: gradient of scatter when src is larger than index

---
 crypten/gradients.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 52d3a80..02478da 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -365,16 +365,22 @@ class AutogradScatter(AutogradFunction):
     @staticmethod
     def forward(ctx, input, dim, index, src):
         output = input.scatter(dim, index, src)
-        ctx.save_multiple_for_backward([dim, index])
+        src_size = src.size() if hasattr(src, "size") else index.size()
+        ctx.save_multiple_for_backward([dim, index, src_size])
         return output
 
     @staticmethod
     def backward(ctx, grad_output):
-        dim, index = ctx.saved_tensors
+        dim, index, src_size = ctx.saved_tensors
         size = grad_output.size()
         mask = torch.ones(size).scatter(dim, index, torch.zeros(size)).long()
         input_grad = grad_output.mul(mask)
         src_grad = grad_output.gather(dim, index)
+        if src_grad.size() != src_size:  # elements of src beyond index are unused
+            pad = []
+            for used, total in zip(reversed(index.size()), reversed(src_size)):
+                pad.extend([0, total - used])
+            src_grad = src_grad.pad(pad)
         return (input_grad, src_grad)
 
 
-- 
2.43.0


From 75fc36cbb04c95a776b4d101e619f09b91bb9703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 18/45] fix: do not change the caller's coefficients in the
 gradient of polynomial

---
 crypten/gradients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 02478da..d13791a 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -852,7 +852,7 @@ class AutogradPolynomial(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         input, coeffs, func = ctx.saved_tensors
-        coeffs *= torch.arange(coeffs.size(0)).add(1)
+        coeffs = coeffs * torch.arange(coeffs.size(0)).add(1)
         return input.polynomial(coeffs[1:], func).add(coeffs[0]).mul_(grad_output)
 
 
-- 
2.43.0


From 92bee80d98f43fce3c3babfd9826c19862ec853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 19/45] fix: gradient of pos_pow for powers that are not
 integers

---
 crypten/gradients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index d13791a..23127aa 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -889,7 +889,7 @@ class AutogradPosPow(AutogradFunction):
         if isinstance(power, int) or (isinstance(power, float) and int(power) == power):
             return input.pow(power - 1.0).mul_(power).mul_(grad_output)
         else:
-            return input.mul(power - 1.0).mul_(power).exp().mul(grad_output)
+            return input.mul(power - 1.0).exp().mul(power).mul(grad_output)
 
 
 @register_function("square")
-- 
2.43.0


From d26ef9f8e2fb27bc0b1266fabb7a6c413b42e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 20/45] fix: gradient of matmul of a vector with a batch of
 matrices

---
 crypten/gradients.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 23127aa..40c95f2 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -753,13 +753,13 @@ class AutogradMatMul(AutogradFunction):
 
         # Deal with vectors that are represented by a
         # < 2 dimensional tensor
-        if self_.dim() < 2:
-            self_ = self_.unsqueeze(0)
-            grad_output = grad_output.unsqueeze(0)
-
         if other.dim() < 2:
             other = other.unsqueeze(1)
-            grad_output = grad_output.unsqueeze(1)
+            grad_output = grad_output.unsqueeze(-1)
+
+        if self_.dim() < 2:
+            self_ = self_.unsqueeze(0)
+            grad_output = grad_output.unsqueeze(-2)
 
         # Compute gradients
         self_grad = grad_output.matmul(other.transpose(-2, -1))
@@ -767,14 +767,10 @@ class AutogradMatMul(AutogradFunction):
 
         # Fix gradient sizes for vector inputs
         if len(self_size) < 2:
-            self_grad = self_grad.squeeze()
-            if self_grad.dim() < 1:
-                self_grad = self_grad.unsqueeze(0)
+            self_grad = _inverse_broadcast(self_grad, self_.size()).squeeze(0)
 
         if len(other_size) < 2:
-            other_grad = other_grad.squeeze()
-            if other_grad.dim() < 1:
-                other_grad = other_grad.unsqueeze(0)
+            other_grad = _inverse_broadcast(other_grad, other.size()).squeeze(1)
 
         return (
             _inverse_broadcast(self_grad, self_size),
-- 
2.43.0


From dfe2a42f9ccabd6a447171256108e9839187dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 21/45] fix: gradients of sum, mean and var over several
 dimensions

---
 crypten/gradients.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 40c95f2..6451691 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -55,6 +55,14 @@ def _ensure_tensor(input):
     return input
 
 
+def _unsqueeze_dims(tensor, dim, ndim):
+    """Restores dimensions `dim` that were reduced from a tensor of `ndim` dims."""
+    dims = [dim] if isinstance(dim, int) else dim
+    for d in sorted(d % ndim for d in dims):
+        tensor = tensor.unsqueeze(d)
+    return tensor
+
+
 def _inverse_broadcast(grad_output, input_size):
     """
     Performs the inverse operation of a broadcast.
@@ -1161,7 +1169,7 @@ class AutogradSum(AutogradFunction):
             return grad_output
 
         if not keepdim and dim is not None:
-            grad_output = grad_output.unsqueeze(dim)
+            grad_output = _unsqueeze_dims(grad_output, dim, len(input_size))
         return grad_output.mul(torch.ones(input_size))
 
 
@@ -1218,11 +1226,11 @@ class AutogradMean(AutogradFunction):
         if len(input_size) == 0:
             return grad_output
 
-        nelement = float(
-            reduce(lambda x, y: x * y, input_size) if dim is None else input_size[dim]
-        )
+        dims = range(len(input_size)) if dim is None else dim
+        dims = [dims] if isinstance(dims, int) else dims
+        nelement = float(reduce(lambda x, y: x * y, [input_size[d] for d in dims]))
         if not keepdim and dim is not None:
-            grad_output = grad_output.unsqueeze(dim)
+            grad_output = _unsqueeze_dims(grad_output, dim, len(input_size))
         return grad_output.mul(
             torch.ones(input_size, device=grad_output.device).div_(nelement)
         )
@@ -1276,7 +1284,7 @@ class AutogradVariance(AutogradFunction):
         input, mean, divisor, dim, keepdim = ctx.saved_tensors
 
         if not keepdim and dim is not None:
-            grad_output = grad_output.unsqueeze(dim)
+            grad_output = _unsqueeze_dims(grad_output, dim, input.dim())
 
         numerator = input.sub(mean).mul(2).mul(grad_output)
         if divisor == 0:
-- 
2.43.0


From 0e287dc78695d276013d30e0910e9eddb7a9cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 22/45] fix: var's unbiased flag had the opposite effect

The default keeps dividing by n - 1, as in PyTorch.
---
 crypten/common/functions/regular.py | 6 +++---
 crypten/gradients.py                | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crypten/common/functions/regular.py b/crypten/common/functions/regular.py
index 36dc6e2..ec3e558 100644
--- a/crypten/common/functions/regular.py
+++ b/crypten/common/functions/regular.py
@@ -165,11 +165,11 @@ def var(self, *args, **kwargs):
     # preprocess inputs:
     if len(args) == 0:
         dim = None
-        unbiased = kwargs.get("unbiased", False)
+        unbiased = kwargs.get("unbiased", True)
         mean = self.mean()
     elif len(args) == 1:
         dim = args[0]
-        unbiased = kwargs.get("unbiased", False)
+        unbiased = kwargs.get("unbiased", True)
         keepdim = kwargs.get("keepdim", False)
     elif len(args) == 2:
         dim, unbiased = args[0], args[1]
@@ -189,7 +189,7 @@ def var(self, *args, **kwargs):
 
     # Determine divisor
     divisor = self.nelement() // result.nelement()
-    if not unbiased:
+    if unbiased:
         divisor -= 1
 
     # Compute mean square error
diff --git a/crypten/gradients.py b/crypten/gradients.py
index 6451691..613198b 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1243,12 +1243,12 @@ class AutogradVariance(AutogradFunction):
         # preprocess inputs:
         if len(args) == 0:
             dim = None
-            unbiased = kwargs.get("unbiased", False)
+            unbiased = kwargs.get("unbiased", True)
             keepdim = False
             mean = self.mean()
         elif len(args) == 1:
             dim = args[0]
-            unbiased = kwargs.get("unbiased", False)
+            unbiased = kwargs.get("unbiased", True)
             keepdim = kwargs.get("keepdim", False)
         elif len(args) == 2:
             dim, unbiased = args[0], args[1]
@@ -1268,7 +1268,7 @@ class AutogradVariance(AutogradFunction):
 
         # Determine divisor
         divisor = self.nelement() // result.nelement()
-        if not unbiased:
+        if unbiased:
             divisor -= 1
 
         # compute variance:
@@ -1816,7 +1816,7 @@ class AutogradBatchNorm(AutogradFunction):
         # compute mean and variance, track batch statistics:
         if training:
             mean = x.mean(stats_dimensions)
-            variance = x.var(stats_dimensions, unbiased=True)
+            variance = x.var(stats_dimensions, unbiased=False)
             if running_mean is not None and running_var is not None:
                 running_var.set(running_var * (1.0 - momentum) + variance * momentum)
                 running_mean.set(running_mean * (1.0 - momentum) + mean * momentum)
-- 
2.43.0


From 4934fbd5fa930816269d9607d01dea9c68007318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 23/45] fix: gradient of norm along a dimension that is not
 kept

---
 crypten/gradients.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 613198b..6f7aadb 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1128,7 +1128,9 @@ class AutogradNorm(AutogradFunction):
     def backward(ctx, grad_output):
         input, norm, p, dim, keepdim = ctx.saved_tensors
         if not keepdim and dim is not None:
-            grad_output.unsqueeze(dim)
+            grad_output = grad_output.unsqueeze(dim)
+            if p != float("inf"):
+                norm = norm.unsqueeze(dim)
 
         if p == 2 or p == "fro":
             return grad_output.mul(input.div(norm))
-- 
2.43.0


From 0c1e6803752679370f739b744b2ed8e54664a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 24/45] fix: division of a 0-dimensional tensor by a float

---
 crypten/mpc/primitives/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 8cb67f8..6d7f704 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -523,7 +523,7 @@ class ArithmeticSharedTensor:
 
         # Otherwise multiply by reciprocal
         if isinstance(y, float):
-            y = torch.tensor([y], dtype=torch.float, device=self.device)
+            y = torch.tensor(y, dtype=torch.float, device=self.device)
 
         assert is_float_tensor(y), "Unsupported type for div_: %s" % type(y)
         return self.mul_(y.reciprocal())
-- 
2.43.0


From 25fd4abbed85c6f184c2297783b4f0d82225274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 25/45] fix: graphs with repeated inputs of a node or several
 outputs

A node using a value twice was never computed, and an output that no other node
uses was dropped before all outputs were available.
---
 crypten/nn/module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 21d0fd5..44718cd 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -669,8 +669,9 @@ class Graph(Container):
             """Marks a value as having been computed."""
             computed[name] = True
             for key, value_list in self._graph.items():
-                if name in value_list:
-                    inputs_available[key][value_list.index(name)] = True
+                for idx, value in enumerate(value_list):
+                    if value == name:  # a node may use the same value repeatedly
+                        inputs_available[key][idx] = True
 
         def _find_computable_node():
             """Find a node for which all inputs are available."""
@@ -683,7 +684,8 @@ class Graph(Container):
             """Clear values that are no longer needed (to save memory)."""
             remove_keys = []
             for remove_key in values.keys():
-                can_be_removed = True
+                # outputs of the graph are always needed:
+                can_be_removed = remove_key not in self.output_names
 
                 # we cannot remove a value if it is still needed:
                 for key, value_list in self._graph.items():
-- 
2.43.0


From ad242d6004a9d9b399044b26eba5ec3aa7448333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 26/45] fix: chain modules of an OrderedDict in Sequential

The name of the previous module was used as a list of characters.
---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 44718cd..acde5e1 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -780,7 +780,7 @@ class Sequential(Graph):
             if isinstance(module, OrderedDict):
                 for key, val in module.items():
                     self.add_module(key, val, input_names)
-                    input_names = key
+                    input_names = [key]
                 self.output_names = [key]
             else:
                 module_name = str(idx)
-- 
2.43.0


From d8eb602d637869b95e316c1c9025bc88b05b9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 27/45] fix: convert padding that differs between dimensions in
 Conv.from_onnx

---
 crypten/nn/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index acde5e1..9a69fee 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2016,7 +2016,10 @@ class Conv(Module):
 
         # CrypTen and Torch use a single padding number per dimension:
         padding = attributes["pads"]
-        padding = [padding[idx] for idx in range(0, len(padding), 2)]
+        # (ONNX lists the padding at the start of each dimension, then at the end)
+        ndims = len(padding) // 2
+        assert padding[:ndims] == padding[ndims:], "only symmetric padding supported"
+        padding = padding[:ndims]
 
         # return module:
         return Conv(
-- 
2.43.0


From 7bd7f3cae39d4b30892a5e46d6b741cd16321450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 28/45] fix: convert all dimensions of kernel, stride and
 padding of pooling layers

Only the first was used, so rectangular kernels or padding gave wrong results;
dilation and excluded padding, which are not supported, are now refused.
---
 crypten/nn/module.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 9a69fee..ac96b99 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2560,20 +2560,25 @@ class _Pool2d(Module):
         # check attributes:
         if attributes is None:
             attributes = {}
-        if "pads" not in attributes:
-            attributes["pads"] = [0]
-        assert _all_the_same(["kernel_shape"]), "only square kernels are supported"
-        assert _all_the_same(
-            attributes["strides"]
-        ), "stride must be the same in each dimension"
+        kernel_size = tuple(attributes["kernel_shape"])
+        ndims = len(kernel_size)
+        pads = attributes.get("pads", [0] * 2 * ndims)
+        assert pads[:ndims] == pads[ndims:], "only symmetric padding supported"
+        assert all(
+            dilation == 1 for dilation in attributes.get("dilations", [])
+        ), "dilation is not supported"
+        if pool_type == "average" and any(pads):
+            assert attributes.get(
+                "count_include_pad", 0
+            ), "padding must be included in the average"
         attributes["ceil_mode"] = attributes.get("ceil_mode", 0)
         attributes["ceil_mode"] = attributes["ceil_mode"] > 0
 
         # initialize module
-        args = [attributes["kernel_shape"][0]]
+        args = [kernel_size]
         kwargs = {
-            "stride": attributes["strides"][0],
-            "padding": attributes["pads"][0],
+            "stride": tuple(attributes["strides"]),
+            "padding": tuple(pads[:ndims]),
             "ceil_mode": attributes["ceil_mode"],
         }
         if pool_type == "average":
-- 
2.43.0


From ec4e408ccd60a4a8a24d95824362e98ab15d75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 29/45] fix: align dimensions from the last one in Expand

---
 crypten/nn/module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index ac96b99..f7c9141 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1387,9 +1387,11 @@ class Expand(Module):
             shape = shape.long().tolist()
 
         # broadcasting in ONNX is different from PyTorch when shape is 1:
-        for idx in range(len(shape)):
-            if shape[idx] == 1 and input.size(idx) > 1:
-                shape[idx] = input.size(idx)
+        # (dimensions are aligned from the last one)
+        shape = list(shape)
+        for idx in range(1, min(len(shape), input.dim()) + 1):
+            if shape[-idx] == 1 and input.size(-idx) > 1:
+                shape[-idx] = input.size(-idx)
 
         # perform the expansion:
         return input.expand(shape)
-- 
2.43.0


From 90e094ddc0db731cebaf25ac912cd4199d11827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 30/45] fix: use the ONNX numbering of data types in
 Cast.from_onnx

A cast to float became a cast to int8, e.g. for the bounds of a converted clamp.
---
 crypten/nn/module.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index f7c9141..c53d70c 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1417,8 +1417,19 @@ class Cast(Module):
 
     @staticmethod
     def from_onnx(attributes=None):
-        dtype = sym_help._get_const(attributes["to"], "i", "dtype")
-        return Cast(dtype=sym_help.scalar_type_to_pytorch_type[dtype])
+        # data types as numbered in onnx.TensorProto.DataType
+        onnx_to_torch = {
+            1: torch.float,
+            2: torch.uint8,
+            3: torch.int8,
+            5: torch.int16,
+            6: torch.int32,
+            7: torch.int64,
+            9: torch.bool,
+            10: torch.half,
+            11: torch.double,
+        }
+        return Cast(dtype=onnx_to_torch[attributes["to"]])
 
 
 class Range(Module):
-- 
2.43.0


From 562621b65739161d4bfe6374d8ff77d5ae04e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 31/45] fix: negative indices in Slice

---
 crypten/nn/module.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index c53d70c..2b6089d 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1361,8 +1361,10 @@ class Slice(Module):
         # Perform slicing:
         output = x
         for idx, axis in enumerate(axes):
-            start, end = int(starts[idx]), int(ends[idx])
-            length = min(end, output.size(int(axis))) - start
+            # negative indices count from the end, others are clamped to the size
+            size = output.size(int(axis))
+            start, end, _ = slice(int(starts[idx]), int(ends[idx])).indices(size)
+            length = max(end - start, 0)
             output = output.narrow(int(axis), start, length)
         return output
 
-- 
2.43.0


From da162b7988cf3d077a376f8eb1f064acf70b3295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 32/45] fix: load buffers in load_state_dict

Running statistics of batch normalisation were silently left as they were.
---
 crypten/nn/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 2b6089d..b562b99 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -237,7 +237,10 @@ class Module:
 
         # get state dict for just the current module (without children)
         local_state = {
-            key: val for key, val in self.named_parameters() if val is not None
+            key: val
+            for state in (self.named_parameters, self.named_buffers)
+            for key, val in state(recurse=False)
+            if val is not None
         }
 
         # in strict mode, check for missing keys in the state_dict:
-- 
2.43.0


From bcd22af79f20929eb7741551a7a63edd01aed464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 33/45] fix: do not change gradients in update_parameters

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index b562b99..b3ba0cc 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -346,7 +346,7 @@ class Module:
                 else:
                     grad = param.grad
 
-                param.sub_(grad.mul_(learning_rate))
+                param.sub_(grad.mul(learning_rate))
 
     def register_buffer(self, name, buffer):
         """
-- 
2.43.0


From 331099dfdbafe757a81a96185ffe740dbce18077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 34/45] fix: run unencrypted Conv modules

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index b3ba0cc..09a3246 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2009,7 +2009,7 @@ class Conv(Module):
         # identify correct convolution function to use:
         if torch.is_tensor(x):
             func = getattr(torch.nn.functional, f"conv{dim}d", None)
-            args = [x] + args + bias  # torch function takes different inputs
+            args = [x] + args + [bias]  # torch function takes different inputs
         else:
             func = getattr(x, f"conv{dim}d", None)
 
-- 
2.43.0


From 51ef7955fbc243b6e1a7b8eafd27f4e117c53d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 35/45] fix: update the frozen inverse variance of BatchNorm
 with its statistics

When a model in evaluation mode was encrypted or loaded, the inverse variance kept
its earlier value: in the clear, and different in each party.
---
 crypten/nn/module.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 09a3246..5c58b58 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2933,13 +2933,27 @@ class _BatchNorm(Module):
     def train(self, mode=True):
         """Freezes the inverse variance during inference to save computation"""
         super().train(mode=mode)
+        self._freeze_inv_var()
+        return self
+
+    def encrypt(self, mode=True, src=0):
+        if mode != self.encrypted:
+            super().encrypt(mode=mode, src=src)
+            self._freeze_inv_var()
+        return self
+
+    def _load_from_state_dict_crypten(self, state_dict, prefix, strict):
+        super()._load_from_state_dict_crypten(state_dict, prefix, strict)
+        self._freeze_inv_var()
+
+    def _freeze_inv_var(self):
+        """Computes the inverse variance used in inference"""
         if self.training:
             self.inv_var = None
         elif isinstance(self.running_var, crypten.CrypTensor):
             self.inv_var = self.running_var.add(self.eps).inv_sqrt()
         else:
             self.inv_var = self.running_var.add(self.eps).sqrt().reciprocal()
-        return self
 
 
 class BatchNorm1d(_BatchNorm):
-- 
2.43.0


From 49fc1b11f352b1df02aac278056e45c87c44eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 36/45] fix: cross entropy of a single observation or of
 several per sample

The loss was divided by the number of classes for a batch of one observation, and
only by the batch size for inputs with further dimensions.
---
 crypten/gradients.py | 6 ++++--
 crypten/nn/loss.py   | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 6f7aadb..2750bb7 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -2033,10 +2033,12 @@ class AutogradCrossEntropy(AutogradFunction):
 
         # Compute full forward pass
         loss_values = softmax.log(input_in_01=True).mul_(target).neg_()
-        return loss_values.sum().div_(target.size(0))
+        return loss_values.sum().div_(target.nelement() // target.size(dim))
 
     @staticmethod
     def backward(ctx, grad_output):
         softmax, target = ctx.saved_tensors
+        dim = 1 if target.dim() > 1 else 0
         loss_grad = softmax.sub(target)
-        return loss_grad.div_(target.size(0)).mul_(grad_output)
+        loss_grad = loss_grad.div_(target.nelement() // target.size(dim))
+        return loss_grad.mul_(grad_output)
diff --git a/crypten/nn/loss.py b/crypten/nn/loss.py
index 0c33e74..aaf45df 100644
--- a/crypten/nn/loss.py
+++ b/crypten/nn/loss.py
@@ -141,8 +141,9 @@ class CrossEntropyLoss(_Loss):
     """  # noqa: W605
 
     def forward(self, x, y):
-        x = x.squeeze()
-        y = y.squeeze()
+        if x.size() != y.size():
+            x = x.squeeze()
+            y = y.squeeze()
         assert x.size() == y.size(), "input and target must have the same size"
         return x.cross_entropy(y, skip_forward=self.skip_forward)
 
-- 
2.43.0


From 79d2f6837b2c2d3b47f4229844c2d2a3d566f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 37/45] fix: gradient of take with a 0-dimensional index

---
 crypten/gradients.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 2750bb7..fbc205c 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -334,9 +334,12 @@ class AutogradTake(AutogradFunction):
         else:
             dim %= len(size)
             flat_index = index.flatten()
-            grad_output_flat = grad_output.flatten(
-                start_dim=dim, end_dim=(dim + index.dim() - 1)
-            )
+            if index.dim() == 0:
+                grad_output_flat = grad_output.unsqueeze(dim)
+            else:
+                grad_output_flat = grad_output.flatten(
+                    start_dim=dim, end_dim=(dim + index.dim() - 1)
+                )
             grad.index_add_(dim, flat_index, grad_output_flat)
         return grad
 
-- 
2.43.0


From e048dbc463972294eb65b189369b7f406a383773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 38/45] fix: pass gradients through GlobalAveragePool

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 5c58b58..530e782 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2792,7 +2792,7 @@ class GlobalAveragePool(Module):
         assert input.dim() > 2, "input needs to have more than two dimensions"
 
         # sum over all but batch dimension:
-        result = input.shallow_copy()
+        result = input
         for dim in range(2, input.dim()):
             result = result.sum(dim, keepdim=True)
 
-- 
2.43.0


From 1a32809d3d7e4fbebfe8f3114224bfb60730f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 39/45] fix: open-ended ranges in Slice

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 530e782..0f62827 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1354,7 +1354,7 @@ class Slice(Module):
                     raise ValueError("Only steps value of 1 currently supported.")
             else:
                 raise ValueError("list input x must have 3, 4, or 5, values")
-            starts, ends = starts.int().tolist(), ends.int().tolist()
+            starts, ends = starts.tolist(), ends.tolist()  # may exceed int range
         else:
             starts, ends, axes = self.starts, self.ends, self.axes
             steps = 1
-- 
2.43.0


From 8c03f6bbc44a176565711d10b8bfd80b9a883965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 40/45] fix: Gather.from_onnx gathers along the first axis by
 default

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 0f62827..b85cd73 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1783,7 +1783,7 @@ class Gather(Module):
         if attributes is None:
             attributes = {}
         if "axis" not in attributes:
-            attributes["axis"] = None
+            attributes["axis"] = 0
         if "shape" not in attributes:
             attributes["shape"] = None
         return Gather(attributes["axis"], indices=attributes["shape"])
-- 
2.43.0


From 42c6118a23b0e9de83ededc2849e1fd525aacb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 41/45] fix: order of the padding of an ONNX Pad node

---
 crypten/nn/module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index b85cd73..f822033 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1805,7 +1805,12 @@ class _ConstantPad(Module):
     def forward(self, input):
         if isinstance(input, list):
             assert len(input) == 2, "input should be [tensor, pads] list"
-            padding = tuple(input[1].int().tolist())
+            # ONNX lists the padding at the start of each dimension, then at the end;
+            # PyTorch lists both for each dimension, from the last to the first:
+            pads = input[1].int().tolist()
+            starts, ends = pads[: len(pads) // 2], pads[len(pads) // 2 :]
+            padding = [pad for pair in zip(starts, ends) for pad in reversed(pair)]
+            padding = tuple(reversed(padding))
             input = input[0]
         else:
             padding = self.padding
-- 
2.43.0


From a3f78f4a9a339092ddb3c17ee2a5a5a790bc4d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 42/45] fix: record expand in the autograd graph

---
 crypten/gradients.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index fbc205c..25677b1 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -423,6 +423,19 @@ class AutogradRoll(AutogradFunction):
         return grad_output.roll(shifts, dims)
 
 
+@register_function("expand")
+class AutogradExpand(AutogradFunction):
+    @staticmethod
+    def forward(ctx, input, *sizes):
+        ctx.save_for_backward(input.size())
+        return input.expand(*sizes)
+
+    @staticmethod
+    def backward(ctx, grad_output):
+        (input_size,) = ctx.saved_tensors
+        return _inverse_broadcast(grad_output, input_size)
+
+
 @register_function("squeeze")
 class AutogradSqueeze(AutogradFunction):
     @staticmethod
-- 
2.43.0


From 12174669388554d4ccdccae991c06c006b73a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 43/45] fix: gradient of take with negative indices

---
 crypten/gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 25677b1..055f90e 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -327,13 +327,13 @@ class AutogradTake(AutogradFunction):
         grad = grad_output.new(torch.zeros(size))
         if dim is None:
             grad_flat = grad.flatten()
-            flat_index = index.flatten()
+            flat_index = index.flatten() % grad_flat.nelement()
             grad_output_flat = grad_output.flatten()
             grad_flat.index_add_(0, flat_index, grad_output_flat)
             grad = grad_flat.reshape(size)
         else:
             dim %= len(size)
-            flat_index = index.flatten()
+            flat_index = index.flatten() % size[dim]
             if index.dim() == 0:
                 grad_output_flat = grad_output.unsqueeze(dim)
             else:
-- 
2.43.0


From a52f31c7b8cc42d6d06abe1a368729ebc40e8f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 44/45] fix: re-randomize the shares of replicated products

---
 crypten/mpc/primitives/replicated.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/replicated.py b/crypten/mpc/primitives/replicated.py
index 5945f41..7542c66 100644
--- a/crypten/mpc/primitives/replicated.py
+++ b/crypten/mpc/primitives/replicated.py
@@ -68,6 +68,9 @@ def __replicated_secret_sharing_protocol(op, x, y, *args, **kwargs):
     z.share += getattr(torch, op)(x1, y2, *args, **kwargs)
     z.share += getattr(torch, op)(x2, y1, *args, **kwargs)
 
+    # Add PRZS - otherwise, parties learn about each other's shares from z's shares
+    z.share += x.PRZS(z.share.size(), device=x.device).share
+
     return z
 
 
@@ -101,8 +104,9 @@ def square(x):
 
     x_square = x1**2 + 2 * x1 * x2
 
+    # Add PRZS - otherwise, parties learn about each other's shares from z's shares
     z = x.shallow_copy()
-    z.share = x_square
+    z.share = x_square + x.PRZS(x_square.size(), device=x.device).share
     return z
 
 
@@ -152,4 +156,7 @@ def AND(x, y):
     z = x.shallow_copy()
     z.share = (x1 & y1) ^ (x2 & y1) ^ (x1 & y2)
 
+    # Add PRZS - otherwise, parties learn about each other's shares from z's shares
+    z.share ^= BinarySharedTensor.PRZS(z.share.size(), device=z.share.device).share
+
     return z
-- 
2.43.0


From 4b82be04d770e5de328f3e1a7e835d18ee3c6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 45/45] fix: active-security check of triples of products other
 than elementwise ones

---
 crypten/mpc/primitives/beaver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crypten/mpc/primitives/beaver.py b/crypten/mpc/primitives/beaver.py
index e8ce7eb..e53d3b8 100644
--- a/crypten/mpc/primitives/beaver.py
+++ b/crypten/mpc/primitives/beaver.py
@@ -63,12 +63,15 @@ def __beaver_protocol(op, x, y, *args, **kwargs):
             x.size(), y.size(), op, device=x.device, *args, **kwargs
         )
 
-        t = ArithmeticSharedTensor.PRSS(a.size(), device=x.device)
-        t_plain_text = t.get_plain_text()
+        # a single integer coefficient t commutes with every bilinear op
+        t_plain_text = ArithmeticSharedTensor.PRSS((1,), device=x.device)[0].reveal()
 
         rho = (t_plain_text * a - f).get_plain_text()
         sigma = (b - g).get_plain_text()
-        triples_check = t_plain_text * c - h - sigma * f - rho * g - rho * sigma
+        triples_check = t_plain_text * c - h
+        triples_check._tensor -= getattr(torch, op)(f._tensor, sigma, *args, **kwargs)
+        triples_check._tensor -= getattr(torch, op)(rho, g._tensor, *args, **kwargs)
+        triples_check -= getattr(torch, op)(rho, sigma, *args, **kwargs)
         triples_check = triples_check.get_plain_text()
 
         if torch.any(triples_check != 0):
-- 
2.43.0

