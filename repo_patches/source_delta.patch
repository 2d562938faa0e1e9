From 696c15dd160a775855056a008a493847a7a25910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 01/25] fix: align low-rank factors on all batch elements,
 relative to their scale

Columns were compared in the first batch element only and against an absolute
threshold, so sums of batched or small-scale low-rank matrices were wrong.
---
 matrix/ops/algorithms/align.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/algorithms/align.py b/matrix/ops/algorithms/align.py
index 83f381e..17669f9 100644
--- a/matrix/ops/algorithms/align.py
+++ b/matrix/ops/algorithms/align.py
@@ -1,4 +1,5 @@
 import lab as B
+import numpy as np
 
 
 def align(a, b):
@@ -25,8 +26,20 @@ def align(a, b):
     a0 = a[(0,) * len(B.shape_batch(a)) + (slice(None), slice(None))]
     b0 = b[(0,) * len(B.shape_batch(b)) + (slice(None), slice(None))]
 
+    # The columns must be equal for every element of the batch. The comparison is
+    # relative to the size of the columns: whether two columns are equal should not
+    # depend on the scale. Only differences due to rounding may be ignored.
+    a_all, b_all = B.dense(a), B.dense(b)
+    dtype = B.dtype(a_all, b_all)
+    low_precision = B.issubdtype(dtype, np.float32) or B.issubdtype(dtype, np.float16)
+    tol = 1e-5 if low_precision else 1e-10
+
     def equal(index_a, index_b):
-        return B.mean(B.subtract(a0[:, index_a], b0[:, index_b]) ** 2) < 1e-10
+        col_a = a_all[..., index_a]
+        col_b = b_all[..., index_b]
+        diff = B.mean(B.abs(B.subtract(col_a, col_b)), axis=-1)
+        scale = B.mean(B.add(B.abs(col_a), B.abs(col_b)), axis=-1)
+        return B.all(diff <= tol * scale)
 
     # We need the norms later on.
     a_norms = B.sum(B.multiply(a0, a0), axis=0)
-- 
2.43.0


From 7ff33b29104ac5fc1de6a54dea61a3eb285a35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 02/25] fix: decide that a sum of low-rank matrices is zero
 relative to its terms

The mean over the whole batch was compared to an absolute threshold, which
replaced sums of small-scale low-rank matrices by zero.
---
 matrix/ops/add.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/add.py b/matrix/ops/add.py
index 1c5df07..5db3516 100644
--- a/matrix/ops/add.py
+++ b/matrix/ops/add.py
@@ -189,7 +189,9 @@ def add(a: LowRank, b: LowRank):
     if B.control_flow.use_cache:
         is_zero = B.control_flow.get_outcome("add:is_zero")
     else:
-        is_zero = B.mean(B.abs(join_middle)) < 1e-10
+        # The comparison is relative to the size of the terms that were added.
+        scale = B.add(B.abs(B.dense(a_mid)), B.abs(B.dense(b_mid)))
+        is_zero = B.all(B.abs(B.dense(join_middle)) <= 1e-10 * scale)
         if B.control_flow.caching:
             B.control_flow.set_outcome("add:is_zero", is_zero)
 
-- 
2.43.0


From c54be99e8e0b3f2e733540e7837f0a062c0cfeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 03/25] fix: take rows of the factors of batched low-rank
 matrices

The default axis of B.take is 0 for tensors, which is a batch dimension if the
factor is batched.
---
 matrix/ops/take.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/take.py b/matrix/ops/take.py
index dbd5015..6721126 100644
--- a/matrix/ops/take.py
+++ b/matrix/ops/take.py
@@ -104,9 +104,9 @@ def take(a: UpperTriangular, indices_or_mask, axis: B.Int = -2):
 def take(a: LowRank, indices_or_mask, axis: B.Int = -2):
     axis = resolve_axis(a, axis, negative=True)
     if axis == -2:
-        return LowRank(B.take(a.left, indices_or_mask), a.right, a.middle)
+        return LowRank(B.take(a.left, indices_or_mask, axis=-2), a.right, a.middle)
     elif axis == -1:
-        return LowRank(a.left, B.take(a.right, indices_or_mask), a.middle)
+        return LowRank(a.left, B.take(a.right, indices_or_mask, axis=-2), a.middle)
     else:
         left, middle, right = align_batch(a.left, a.middle, a.right)
         axis = resolve_axis(a, axis)
-- 
2.43.0


From 04e57d01356ad1d2cfcc0510e65345f04a29040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 04/25] fix: Kronecker product of two zero matrices

The two methods for Zero called each other without end.
---
 matrix/ops/kron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/kron.py b/matrix/ops/kron.py
index 0a5f26c..7ff996c 100644
--- a/matrix/ops/kron.py
+++ b/matrix/ops/kron.py
@@ -24,7 +24,7 @@ def kron(a: AbstractMatrix, b: Zero):
 
 @B.dispatch(precedence=proven())
 def kron(a: Zero, b: AbstractMatrix):
-    return kron(b, a)
+    return Zero(B.dtype(a), *B.shape_batch_broadcast(a, b), *_product_shape(a, b))
 
 
 # Dense
-- 
2.43.0


From 2137dd9dd6e63f4c303225d2aa0c98849423db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 05/25] fix: diagonal of Kronecker products with non-square
 factors

---
 matrix/ops/diag.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/matrix/ops/diag.py b/matrix/ops/diag.py
index 3c349a7..e8903f5 100644
--- a/matrix/ops/diag.py
+++ b/matrix/ops/diag.py
@@ -65,5 +65,13 @@ def diag(a: Woodbury):
 
 @B.dispatch
 def diag(a: Kronecker):
+    shapes = [B.shape_matrix(x) for x in (a.left, a.right)]
+    if any([rows != cols for rows, cols in shapes]):
+        # The diagonal is the Kronecker product of the diagonals only for square factors.
+        warn_upmodule(
+            f"Getting the diagonal of {a}: converting to dense.",
+            category=ToDenseWarning,
+        )
+        return B.diag_extract(B.dense(a))
     left, right = align_batch(a.left, a.right)
     return B.kron(B.diag(left), B.diag(right), -1)
-- 
2.43.0


From 7ba80a8777c9f3ea2900da0563a75cb6659fa2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 06/25] fix: broadcast low-rank and Kronecker matrices
 multiplied by a constant matrix

---
 matrix/ops/multiply.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/multiply.py b/matrix/ops/multiply.py
index 929aa6f..806e00d 100644
--- a/matrix/ops/multiply.py
+++ b/matrix/ops/multiply.py
@@ -231,7 +231,7 @@ def multiply(a: LowRank, b: LowRank):
 @B.dispatch
 def multiply(a: Constant, b: LowRank):
     assert_compatible(B.shape(a), B.shape(b))
-    return LowRank(
+    res = LowRank(
         b.left,
         b.right,
         B.multiply(
@@ -239,6 +239,7 @@ def multiply(a: Constant, b: LowRank):
             b.middle,
         ),
     )
+    return B.broadcast_to(res, *B.shape_broadcast(a, b))
 
 
 @B.dispatch
@@ -284,12 +285,13 @@ def multiply(a: Kronecker, b: Kronecker):
 @B.dispatch
 def multiply(a: Constant, b: Kronecker):
     assert_compatible(B.shape(a), B.shape(b))
-    return Kronecker(
+    res = Kronecker(
         B.multiply(
             B.expand_dims(a.const, axis=-1, times=2, ignore_scalar=True), b.left
         ),
         b.right,
     )
+    return B.broadcast_to(res, *B.shape_broadcast(a, b))
 
 
 @B.dispatch
-- 
2.43.0


From 9390c67efd2f2a9b1e789ea4ceea868d3bcd94af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 07/25] fix: dense version of tiled blocks is a numeric matrix

---
 matrix/ops/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/dense.py b/matrix/ops/dense.py
index f15fbf0..1cd0174 100644
--- a/matrix/ops/dense.py
+++ b/matrix/ops/dense.py
@@ -119,5 +119,5 @@ def dense(a: TiledBlocks):
 
             repeated_blocks.append(B.tile(block, *tile_reps))
 
-        a.dense = B.concat(*repeated_blocks, axis=axis)
+        a.dense = B.dense(B.concat(*repeated_blocks, axis=axis))
     return a.dense
-- 
2.43.0


From 255c530a2ea3a8a9783812c34162d88fd33bbb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 08/25] fix: let NumPy arrays defer to the reflected operators
 of matrices

An array on the left-hand side otherwise gives an object array of matrices.
---
 matrix/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matrix/matrix.py b/matrix/matrix.py
index d39eff5..6ef7a9a 100644
--- a/matrix/matrix.py
+++ b/matrix/matrix.py
@@ -17,6 +17,9 @@ _dispatch = Dispatcher()
 class AbstractMatrix(metaclass=abc.ABCMeta):
     """Abstract matrix type."""
 
+    # Let NumPy arrays defer to the reflected operators below.
+    __array_ufunc__ = None
+
     def __neg__(self):
         return B.negative(self)
 
-- 
2.43.0


From 86042cde22bb4f6bc26b15520416b776f5553b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 09/25] fix: unwrap the dimensions of a constant matrix, which
 multiply its constant

---
 matrix/constant.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/matrix/constant.py b/matrix/constant.py
index 4e27567..500022d 100644
--- a/matrix/constant.py
+++ b/matrix/constant.py
@@ -1,5 +1,5 @@
 import lab as B
-from lab.shape import Shape
+from lab.shape import Shape, unwrap_dimension
 
 from .matrix import AbstractMatrix, repr_format
 from .util import dtype_str, indent
@@ -76,8 +76,9 @@ class Constant(AbstractMatrix):
         # Check that at least a rank-2 tensor is specified.
         if len(shape) < 2:
             raise ValueError("Must specify the number of rows and columns.")
-        self.rows = shape[-2]
-        self.cols = shape[-1]
+        # These multiply `const`, so they must be numbers rather than `Dimension`s.
+        self.rows = unwrap_dimension(shape[-2])
+        self.cols = unwrap_dimension(shape[-1])
         if shape[:-2] == ():
             # No batch shape was specified. Infer it from `const`.
             self.batch = B.shape(const)
-- 
2.43.0


From 67f68d97c2ccf5c3578f71878970d8cbc4d3bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 10/25] fix: mean over an axis of a structured matrix is
 numeric

---
 matrix/ops/mean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/mean.py b/matrix/ops/mean.py
index 44094c6..8374b8b 100644
--- a/matrix/ops/mean.py
+++ b/matrix/ops/mean.py
@@ -3,6 +3,7 @@ from operator import mul
 from typing import Union
 
 import lab as B
+from lab.shape import unwrap_dimension
 from lab.util import resolve_axis
 
 from ..matrix import AbstractMatrix
@@ -15,5 +16,6 @@ def mean(a: AbstractMatrix, axis: Union[B.Int, None] = None):
     if axis is None:
         n = reduce(mul, B.shape(a), 1)
     else:
-        n = B.shape(a, resolve_axis(a, axis))
+        # An array divided by a `Dimension` would be an object array.
+        n = unwrap_dimension(B.shape(a, resolve_axis(a, axis)))
     return B.sum(a, axis=axis) / n
-- 
2.43.0


From 06405c8895039229d8b66efe195113219c512619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 11/25] fix: block-diagonal matrix of a single array

---
 matrix/ops/block_diag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/ops/block_diag.py b/matrix/ops/block_diag.py
index 0c03d1f..bd6504e 100644
--- a/matrix/ops/block_diag.py
+++ b/matrix/ops/block_diag.py
@@ -25,6 +25,10 @@ def block_diag(element: B.Numeric, *elements: B.Numeric):
     """
     elements = (element,) + elements
 
+    if len(elements) == 1:
+        # There is just one element. Return it.
+        return elements[0]
+
     # Align the batch dimensions to allow concatenation.
     elements = align_batch(*elements)
 
-- 
2.43.0


From 9d14b75c995805d7c8bd362371608928fe8a9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 12/25] fix: block-diagonal matrix of tiled batched arrays

---
 matrix/ops/block_diag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/block_diag.py b/matrix/ops/block_diag.py
index bd6504e..afc09e2 100644
--- a/matrix/ops/block_diag.py
+++ b/matrix/ops/block_diag.py
@@ -116,7 +116,8 @@ def _attempt_diagonal(blocks):
 def block_diag(a: TiledBlocks):
     return B.block_diag(
         *[
-            B.kron(B.eye(B.dtype(block), rep), block)
+            # Use `Dense`: the block may be numeric and have batch dimensions.
+            B.kron(Dense(B.eye(B.dtype(block), rep)), block)
             for block, rep in zip(a.blocks, a.reps)
         ]
     )
-- 
2.43.0


From fa30bedb36f314793c3423d1a0b4df0ace18b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 13/25] fix: decide that a sum of low-rank matrices is zero per
 batch element, relative to its scale

---
 matrix/ops/add.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/add.py b/matrix/ops/add.py
index 5db3516..fdd0f13 100644
--- a/matrix/ops/add.py
+++ b/matrix/ops/add.py
@@ -189,9 +189,12 @@ def add(a: LowRank, b: LowRank):
     if B.control_flow.use_cache:
         is_zero = B.control_flow.get_outcome("add:is_zero")
     else:
-        # The comparison is relative to the size of the terms that were added.
+        # The comparison is relative to the size of the terms that were added, for
+        # every element of the batch.
         scale = B.add(B.abs(B.dense(a_mid)), B.abs(B.dense(b_mid)))
-        is_zero = B.all(B.abs(B.dense(join_middle)) <= 1e-10 * scale)
+        scale = B.sum(B.sum(scale, axis=-1), axis=-1)
+        error = B.sum(B.sum(B.abs(B.dense(join_middle)), axis=-1), axis=-1)
+        is_zero = B.all(error <= 1e-10 * scale)
         if B.control_flow.caching:
             B.control_flow.set_outcome("add:is_zero", is_zero)
 
-- 
2.43.0


From cae6229115a84b1ea5e6db705b749728e7af5e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 14/25] fix: count the elements of a mask as a Python integer

---
 matrix/ops/take.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/take.py b/matrix/ops/take.py
index 6721126..8c7db59 100644
--- a/matrix/ops/take.py
+++ b/matrix/ops/take.py
@@ -40,7 +40,7 @@ def _count_indices_or_mask(indices_or_mask: B.Numeric):
     mask = B.issubdtype(B.dtype(indices_or_mask), bool)
     if mask:
         # Count all `True`s.
-        return B.sum(B.jit_to_numpy(indices_or_mask))
+        return int(B.sum(B.jit_to_numpy(indices_or_mask)))
     else:
         # Count the number of indices.
         return B.shape(indices_or_mask, 0)
-- 
2.43.0


From 69a1c70ca1743bc83df7450b431fca139acbed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 15/25] fix: compare the factors of low-rank integer matrices
 exactly

---
 matrix/ops/add.py              | 4 +++-
 matrix/ops/algorithms/align.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/add.py b/matrix/ops/add.py
index fdd0f13..6ca1742 100644
--- a/matrix/ops/add.py
+++ b/matrix/ops/add.py
@@ -2,6 +2,7 @@ import logging
 from typing import Union
 
 import lab as B
+import numpy as np
 from algebra import proven
 from plum import convert
 from wbml.warning import warn_upmodule
@@ -194,7 +195,8 @@ def add(a: LowRank, b: LowRank):
         scale = B.add(B.abs(B.dense(a_mid)), B.abs(B.dense(b_mid)))
         scale = B.sum(B.sum(scale, axis=-1), axis=-1)
         error = B.sum(B.sum(B.abs(B.dense(join_middle)), axis=-1), axis=-1)
-        is_zero = B.all(error <= 1e-10 * scale)
+        tol = 0 if B.issubdtype(B.dtype(error), np.integer) else 1e-10
+        is_zero = B.all(error <= tol * scale)
         if B.control_flow.caching:
             B.control_flow.set_outcome("add:is_zero", is_zero)
 
diff --git a/matrix/ops/algorithms/align.py b/matrix/ops/algorithms/align.py
index 17669f9..2d0925b 100644
--- a/matrix/ops/algorithms/align.py
+++ b/matrix/ops/algorithms/align.py
@@ -32,7 +32,8 @@ def align(a, b):
     a_all, b_all = B.dense(a), B.dense(b)
     dtype = B.dtype(a_all, b_all)
     low_precision = B.issubdtype(dtype, np.float32) or B.issubdtype(dtype, np.float16)
-    tol = 1e-5 if low_precision else 1e-10
+    exact = B.issubdtype(dtype, np.integer)
+    tol = 0 if exact else 1e-5 if low_precision else 1e-10
 
     def equal(index_a, index_b):
         col_a = a_all[..., index_a]
-- 
2.43.0


From 1fa0a4c030535695ab333b450be2535a54564333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 16/25] fix: log-determinant of zero, constant, and low-rank
 matrices

---
 matrix/ops/logdet.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/logdet.py b/matrix/ops/logdet.py
index bcc183a..27b4ecf 100644
--- a/matrix/ops/logdet.py
+++ b/matrix/ops/logdet.py
@@ -1,12 +1,16 @@
 from typing import Union
 
 import lab as B
+from wbml.warning import warn_upmodule
 
+from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
-from ..matrix import AbstractMatrix
+from ..lowrank import LowRank
+from ..matrix import AbstractMatrix, Dense
 from ..shape import assert_square
 from ..triangular import LowerTriangular, UpperTriangular
+from ..util import ToDenseWarning
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -17,6 +21,16 @@ def logdet(a: AbstractMatrix):
     return 2 * B.logdet(B.cholesky(a))
 
 
+@B.dispatch
+def logdet(a: Union[Zero, Constant, LowRank]):
+    # The Cholesky factors of these matrices are not triangular.
+    warn_upmodule(
+        f"Converting {a} to dense to compute its log-determinant.",
+        category=ToDenseWarning,
+    )
+    return B.logdet(Dense(B.dense(a)))
+
+
 @B.dispatch
 def logdet(a: Union[Diagonal, LowerTriangular, UpperTriangular]):
     return B.sum(B.log(B.diag(a)), axis=-1)
-- 
2.43.0


From f3610aa11cae30ea94b4186e2652d59505dd1c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 17/25] fix: refuse products of triangular and constant
 matrices of other sizes

---
 matrix/ops/multiply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matrix/ops/multiply.py b/matrix/ops/multiply.py
index 806e00d..5c9f083 100644
--- a/matrix/ops/multiply.py
+++ b/matrix/ops/multiply.py
@@ -138,6 +138,7 @@ def multiply(a: LowerTriangular, b: AbstractMatrix):
 
 @B.dispatch
 def multiply(a: LowerTriangular, b: Constant):
+    assert_compatible(B.shape(a), B.shape(b))
     return LowerTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
@@ -170,6 +171,7 @@ def multiply(a: UpperTriangular, b: AbstractMatrix):
 
 @B.dispatch
 def multiply(a: UpperTriangular, b: Constant):
+    assert_compatible(B.shape(a), B.shape(b))
     return UpperTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
-- 
2.43.0


From 1bcd6c3e60ad06704e132f0ba582e15ed5e92768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 18/25] fix: refuse to broadcast the batch of a zero matrix to
 a batch that it does not fit

---
 matrix/ops/broadcast_batch_to.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/ops/broadcast_batch_to.py b/matrix/ops/broadcast_batch_to.py
index 60e0e47..dff238f 100644
--- a/matrix/ops/broadcast_batch_to.py
+++ b/matrix/ops/broadcast_batch_to.py
@@ -1,10 +1,12 @@
 import lab as B
+from lab.shape import Shape
 
 from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
 from ..lowrank import LowRank
 from ..matrix import Dense
+from ..shape import expand_and_broadcast
 from ..triangular import LowerTriangular, UpperTriangular
 from ..woodbury import Woodbury
 
@@ -31,6 +33,8 @@ def broadcast_batch_to(a: B.Numeric, *batch: B.Int):
 
 @B.dispatch
 def broadcast_batch_to(a: Zero, *batch: B.Int):
+    if expand_and_broadcast(a.batch, batch) != Shape(*batch):
+        raise AssertionError(f"Cannot broadcast the batch of {a} to {Shape(*batch)}.")
     return Zero(a.dtype, *batch, a.rows, a.cols)
 
 
-- 
2.43.0


From edffd38364c2bfdbd56222428e6d7f44787c03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 19/25] fix: refuse to solve against a zero matrix that does
 not fit

---
 matrix/ops/solve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/ops/solve.py b/matrix/ops/solve.py
index 91d9275..15455e5 100644
--- a/matrix/ops/solve.py
+++ b/matrix/ops/solve.py
@@ -6,6 +6,7 @@ from .util import align_batch
 from ..constant import Zero
 from ..diagonal import Diagonal
 from ..matrix import AbstractMatrix, Dense, structured
+from ..shape import assert_compatible
 from ..triangular import LowerTriangular, UpperTriangular
 from ..util import ToDenseWarning
 from ..woodbury import Woodbury
@@ -15,6 +16,9 @@ __all__ = []
 
 @B.dispatch(precedence=proven())
 def solve(a: AbstractMatrix, b: Zero):
+    assert_compatible(B.shape_batch(a), B.shape_batch(b))
+    if B.shape_matrix(a, 1) != B.shape_matrix(b, 0):
+        raise AssertionError(f"The rows of {b} must match the columns of {a}.")
     return b
 
 
-- 
2.43.0


From 86a814f798f831995ef8d2661de27e11c6a7a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 20/25] fix: independent noise for every matrix in a batch when
 sampling Woodbury matrices

---
 matrix/ops/sample.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/sample.py b/matrix/ops/sample.py
index 42c9ed9..2d1e511 100644
--- a/matrix/ops/sample.py
+++ b/matrix/ops/sample.py
@@ -40,6 +40,13 @@ def sample(a, num: B.Int = 1):
 
 @B.dispatch
 def sample(state: B.RandomState, a: Woodbury, num: B.Int = 1):
-    state, sample_diag = B.sample(state, a.diag, num=num)
-    state, sample_lr = B.sample(state, a.lr, num=num)
+    # Every matrix in the batch must get its own noise, also if the batch shape of either
+    # part is broadcast.
+    batch = B.shape_batch(a)
+    diag, lr = (
+        part if B.shape_batch(part) == batch else B.broadcast_batch_to(part, *batch)
+        for part in (a.diag, a.lr)
+    )
+    state, sample_diag = B.sample(state, diag, num=num)
+    state, sample_lr = B.sample(state, lr, num=num)
     return state, sample_diag + sample_lr
-- 
2.43.0


From 904b12c98b9e81e931fbf17a1e6a1516a87d1f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 21/25] fix: preserve the data type in the Cholesky
 decomposition of constant matrices

---
 matrix/ops/cholesky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/cholesky.py b/matrix/ops/cholesky.py
index dcc63eb..313e84e 100644
--- a/matrix/ops/cholesky.py
+++ b/matrix/ops/cholesky.py
@@ -44,7 +44,7 @@ def cholesky(a: Diagonal):
 def cholesky(a: Constant):
     _assert_square_cholesky(a)
     if a.cholesky is None:
-        chol_const = B.divide(B.sqrt(a.const), B.sqrt(a.cols))
+        chol_const = B.sqrt(B.divide(a.const, a.cols))
         a.cholesky = Constant(chol_const, a.rows, a.cols)
     return a.cholesky
 
-- 
2.43.0


From 0b4144bc793e2cc52ff0c2a42a0896e03c498a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 22/25] fix: Keep sums of zero matrices over batches structured

---
 matrix/ops/sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/sum.py b/matrix/ops/sum.py
index 1973c08..7e32542 100644
--- a/matrix/ops/sum.py
+++ b/matrix/ops/sum.py
@@ -30,7 +30,7 @@ def sum(a: Zero, axis: Union[B.Int, None] = None):
         batch = list(B.shape_batch(a))
         # Make the axis positive: `batch` has a different number of elements.
         del batch[resolve_axis(a, axis)]
-        return B.zeros(a.dtype, *batch, a.rows, a.cols)
+        return Zero(a.dtype, *batch, a.rows, a.cols)
 
 
 @B.dispatch
-- 
2.43.0


From 0c24eaf2c5f758d37695fe28ab07c5fde57af6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:50 +0000
Subject: [PATCH 23/25] fix: refuse to broadcast zero and constant matrices to
 shapes that they do not fit

---
 matrix/ops/broadcast_to.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matrix/ops/broadcast_to.py b/matrix/ops/broadcast_to.py
index 27b25df..a2cb7cc 100644
--- a/matrix/ops/broadcast_to.py
+++ b/matrix/ops/broadcast_to.py
@@ -37,11 +37,18 @@ def _broadcast_to(a: AbstractMatrix, *shape: B.Int):
         return Dense(B.broadcast_to(B.dense(a), *shape))
 
 
+def _assert_broadcastable(a, *shape):
+    if tuple(expand_and_broadcast(B.shape(a), Shape(*shape))) != tuple(Shape(*shape)):
+        raise AssertionError(f"Cannot broadcast {a} to shape {Shape(*shape)}.")
+
+
 @_dispatch
 def _broadcast_to(a: Zero, *shape: B.Int):
+    _assert_broadcastable(a, *shape)
     return Zero(a.dtype, *expand_and_broadcast(B.shape(a), Shape(*shape)))
 
 
 @_dispatch
 def _broadcast_to(a: Constant, *shape: B.Int):
+    _assert_broadcastable(a, *shape)
     return Constant(a.const, *expand_and_broadcast(B.shape(a), Shape(*shape)))
-- 
2.43.0


From d867c36e818798a4fa77a783490644ad717acbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:50 +0000
Subject: [PATCH 24/25] fix: tiled blocks can be abstract

---
 matrix/ops/isabstract.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matrix/ops/isabstract.py b/matrix/ops/isabstract.py
index 08b5dd2..cdbdef8 100644
--- a/matrix/ops/isabstract.py
+++ b/matrix/ops/isabstract.py
@@ -7,6 +7,7 @@ from ..diagonal import Diagonal
 from ..kronecker import Kronecker
 from ..lowrank import LowRank
 from ..matrix import Dense
+from ..tiledblocks import TiledBlocks
 from ..triangular import LowerTriangular, UpperTriangular
 from ..woodbury import Woodbury
 
@@ -46,3 +47,8 @@ def isabstract(a: Woodbury):
 @B.dispatch
 def isabstract(a: Kronecker):
     return B.isabstract(a.left) or B.isabstract(a.right)
+
+
+@B.dispatch
+def isabstract(a: TiledBlocks):
+    return any([B.isabstract(block) for block in a.blocks])
-- 
2.43.0


From ab1f87018dd3ae00be5c5d3a0c14e182e1f87e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:51 +0000
Subject: [PATCH 25/25] fix: refuse the diagonal of products that are not
 defined

---
 matrix/ops/matmul_diag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/matmul_diag.py b/matrix/ops/matmul_diag.py
index 107f196..13ce445 100644
--- a/matrix/ops/matmul_diag.py
+++ b/matrix/ops/matmul_diag.py
@@ -1,7 +1,7 @@
 import lab as B
 
 from ..lowrank import LowRank
-from .matmul import _tr
+from .matmul import _assert_composable, _tr
 
 __all__ = []
 
@@ -19,6 +19,7 @@ def matmul_diag(a, b, tr_a: bool = False, tr_b: bool = False):
     Returns:
         vector: Diagonal of matrix product of `a` and `b`.
     """
+    _assert_composable(a, b, tr_a=tr_a, tr_b=tr_b)
     a = _tr(a, not tr_a)
     b = _tr(b, tr_b)
     return B.sum(B.multiply(a, b), axis=-2)
-- 
2.43.0

