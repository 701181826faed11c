From 3a4db45e62e91ac5f66942750b4cbfab6f046160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 01/20] fix: store plain integers as dimensions of zero and
 constant matrices

Sums and products of constants got wrapped dimensions, and further operations
then yielded arrays of data type object.
---
 matrix/constant.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/matrix/constant.py b/matrix/constant.py
index 4e27567..11b54dd 100644
--- a/matrix/constant.py
+++ b/matrix/constant.py
@@ -1,5 +1,5 @@
 import lab as B
-from lab.shape import Shape
+from lab.shape import Shape, unwrap_dimension
 
 from .matrix import AbstractMatrix, repr_format
 from .util import dtype_str, indent
@@ -30,6 +30,9 @@ class Zero(AbstractMatrix):
         # Check that at least a rank-2 tensor is specified.
         if len(shape) < 2:
             raise ValueError("Must specify the number of rows and columns.")
+        # Store plain dimensions: wrapped dimensions cannot always be used in place of
+        # integers.
+        shape = tuple(unwrap_dimension(dim) for dim in shape)
         self._dtype = dtype
         self.batch = shape[:-2]
         self.rows = shape[-2]
@@ -76,6 +79,9 @@ class Constant(AbstractMatrix):
         # Check that at least a rank-2 tensor is specified.
         if len(shape) < 2:
             raise ValueError("Must specify the number of rows and columns.")
+        # Store plain dimensions: wrapped dimensions cannot always be used in place of
+        # integers.
+        shape = tuple(unwrap_dimension(dim) for dim in shape)
         self.rows = shape[-2]
         self.cols = shape[-1]
         if shape[:-2] == ():
-- 
2.43.0


From cf0f8878e5f66dff5c060f97c57d690f1a03ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 02/20] fix: B.dense of a tile of blocks always yields an array

---
 matrix/ops/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/dense.py b/matrix/ops/dense.py
index f15fbf0..1cd0174 100644
--- a/matrix/ops/dense.py
+++ b/matrix/ops/dense.py
@@ -119,5 +119,5 @@ def dense(a: TiledBlocks):
 
             repeated_blocks.append(B.tile(block, *tile_reps))
 
-        a.dense = B.concat(*repeated_blocks, axis=axis)
+        a.dense = B.dense(B.concat(*repeated_blocks, axis=axis))
     return a.dense
-- 
2.43.0


From cfa627d749ef19e9d89cf9c8a990534bdadbe886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 03/20] fix: Kronecker product of two zero matrices recursed
 indefinitely

---
 matrix/ops/kron.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matrix/ops/kron.py b/matrix/ops/kron.py
index 0a5f26c..a35ad67 100644
--- a/matrix/ops/kron.py
+++ b/matrix/ops/kron.py
@@ -27,6 +27,11 @@ def kron(a: Zero, b: AbstractMatrix):
     return kron(b, a)
 
 
+@B.dispatch(precedence=proven())
+def kron(a: Zero, b: Zero):
+    return Zero(B.dtype(a), *B.shape_batch_broadcast(a, b), *_product_shape(a, b))
+
+
 # Dense
 
 
-- 
2.43.0


From f7ee03628532aa1fe746f7155dec5db905e619b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 04/20] fix: taking rows or columns of a batch of low-rank
 matrices with array factors

---
 matrix/ops/take.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/take.py b/matrix/ops/take.py
index dbd5015..6721126 100644
--- a/matrix/ops/take.py
+++ b/matrix/ops/take.py
@@ -104,9 +104,9 @@ def take(a: UpperTriangular, indices_or_mask, axis: B.Int = -2):
 def take(a: LowRank, indices_or_mask, axis: B.Int = -2):
     axis = resolve_axis(a, axis, negative=True)
     if axis == -2:
-        return LowRank(B.take(a.left, indices_or_mask), a.right, a.middle)
+        return LowRank(B.take(a.left, indices_or_mask, axis=-2), a.right, a.middle)
     elif axis == -1:
-        return LowRank(a.left, B.take(a.right, indices_or_mask), a.middle)
+        return LowRank(a.left, B.take(a.right, indices_or_mask, axis=-2), a.middle)
     else:
         left, middle, right = align_batch(a.left, a.middle, a.right)
         axis = resolve_axis(a, axis)
-- 
2.43.0


From 5c46113a8d38be6dd500f4c8cd9d6083e6de57d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 05/20] fix: diagonal of a Kronecker product with a non-square
 right factor

---
 matrix/ops/diag.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/matrix/ops/diag.py b/matrix/ops/diag.py
index 3c349a7..1398191 100644
--- a/matrix/ops/diag.py
+++ b/matrix/ops/diag.py
@@ -65,5 +65,13 @@ def diag(a: Woodbury):
 
 @B.dispatch
 def diag(a: Kronecker):
+    rows, cols = B.shape_matrix(a.right)
+    if rows != cols:
+        # The diagonal is not the product of the diagonals of the factors.
+        warn_upmodule(
+            f"Getting the diagonal of {a}: converting to dense.",
+            category=ToDenseWarning,
+        )
+        return B.diag_extract(B.dense(a))
     left, right = align_batch(a.left, a.right)
     return B.kron(B.diag(left), B.diag(right), -1)
-- 
2.43.0


From e3540a833d6d5c84d5d5e3109f57754c977b284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 06/20] fix: NumPy arrays as left operands of Python operators

---
 matrix/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matrix/matrix.py b/matrix/matrix.py
index d39eff5..4d9826c 100644
--- a/matrix/matrix.py
+++ b/matrix/matrix.py
@@ -17,6 +17,9 @@ _dispatch = Dispatcher()
 class AbstractMatrix(metaclass=abc.ABCMeta):
     """Abstract matrix type."""
 
+    # Let NumPy arrays defer to the reflected operators defined below.
+    __array_ufunc__ = None
+
     def __neg__(self):
         return B.negative(self)
 
-- 
2.43.0


From ec1627f2c2e6b724aecf8611b6cfd4a78a2a7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 07/20] fix: alignment of low-rank factors only looked at the
 first element of the batch

---
 matrix/ops/algorithms/align.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/matrix/ops/algorithms/align.py b/matrix/ops/algorithms/align.py
index 83f381e..0229ee1 100644
--- a/matrix/ops/algorithms/align.py
+++ b/matrix/ops/algorithms/align.py
@@ -21,16 +21,24 @@ def align(a, b):
         b_join_perm = B.control_flow.get_outcome("align:b_join_perm")
         return a_perm, b_perm, a_join_perm, b_join_perm
 
-    # We perform the sorting based on the first elements.
-    a0 = a[(0,) * len(B.shape_batch(a)) + (slice(None), slice(None))]
-    b0 = b[(0,) * len(B.shape_batch(b)) + (slice(None), slice(None))]
+    # The permutations must be right for all elements of the batch.
+    a0 = a[...]
+    b0 = b[...]
 
     def equal(index_a, index_b):
-        return B.mean(B.subtract(a0[:, index_a], b0[:, index_b]) ** 2) < 1e-10
+        diff = B.subtract(a0[..., index_a], b0[..., index_b])
+        return B.max(B.mean(B.multiply(diff, diff), axis=-1)) < 1e-10
+
+    def average(x):
+        # Average over all but the last dimension. Unlike the sum, the average is not
+        # affected by broadcasting.
+        while B.rank(x) > 1:
+            x = B.mean(x, axis=0)
+        return x
 
     # We need the norms later on.
-    a_norms = B.sum(B.multiply(a0, a0), axis=0)
-    b_norms = B.sum(B.multiply(b0, b0), axis=0)
+    a_norms = average(B.multiply(a0, a0))
+    b_norms = average(B.multiply(b0, b0))
 
     # Perform sorting to enable linear-time algorithm. These need to be regular Python
     # lists.
-- 
2.43.0


From 166f2a2725a942ff1928e795abcca9b35a0967c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 08/20] fix: sums of low-rank matrices with small entries were
 wrong or zero

Whether columns are equal and whether the sum vanishes is now determined
relative to the size of the entries.
---
 matrix/ops/add.py              | 4 +++-
 matrix/ops/algorithms/align.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/matrix/ops/add.py b/matrix/ops/add.py
index 1c5df07..2c90cb7 100644
--- a/matrix/ops/add.py
+++ b/matrix/ops/add.py
@@ -189,7 +189,9 @@ def add(a: LowRank, b: LowRank):
     if B.control_flow.use_cache:
         is_zero = B.control_flow.get_outcome("add:is_zero")
     else:
-        is_zero = B.mean(B.abs(join_middle)) < 1e-10
+        # Check this relative to the size of what is added.
+        size = B.mean(B.abs(a_mid)) + B.mean(B.abs(b_mid))
+        is_zero = B.mean(B.abs(join_middle)) <= 1e-10 * size
         if B.control_flow.caching:
             B.control_flow.set_outcome("add:is_zero", is_zero)
 
diff --git a/matrix/ops/algorithms/align.py b/matrix/ops/algorithms/align.py
index 0229ee1..30d9729 100644
--- a/matrix/ops/algorithms/align.py
+++ b/matrix/ops/algorithms/align.py
@@ -26,8 +26,11 @@ def align(a, b):
     b0 = b[...]
 
     def equal(index_a, index_b):
-        diff = B.subtract(a0[..., index_a], b0[..., index_b])
-        return B.max(B.mean(B.multiply(diff, diff), axis=-1)) < 1e-10
+        a_col = a0[..., index_a]
+        diff = B.subtract(a_col, b0[..., index_b])
+        # Compare relative to the size of the column.
+        diff_size = B.mean(B.multiply(diff, diff), axis=-1)
+        return B.all(diff_size <= 1e-10 * B.mean(B.multiply(a_col, a_col), axis=-1))
 
     def average(x):
         # Average over all but the last dimension. Unlike the sum, the average is not
-- 
2.43.0


From 3a25836bcc653186b9a321ce8e71339e71cf8ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 09/20] fix: mean of matrices with wrapped dimensions yielded
 object arrays

---
 matrix/ops/mean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/mean.py b/matrix/ops/mean.py
index 44094c6..fe7f9d1 100644
--- a/matrix/ops/mean.py
+++ b/matrix/ops/mean.py
@@ -3,6 +3,7 @@ from operator import mul
 from typing import Union
 
 import lab as B
+from lab.shape import unwrap_dimension
 from lab.util import resolve_axis
 
 from ..matrix import AbstractMatrix
@@ -16,4 +17,5 @@ def mean(a: AbstractMatrix, axis: Union[B.Int, None] = None):
         n = reduce(mul, B.shape(a), 1)
     else:
         n = B.shape(a, resolve_axis(a, axis))
-    return B.sum(a, axis=axis) / n
+    # The dimension may be wrapped, in which case it does not divide arrays properly.
+    return B.sum(a, axis=axis) / unwrap_dimension(n)
-- 
2.43.0


From e3c0615b02dd11ecc8d18cb8db15aeb418a2001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 10/20] fix: submatrices with repeated or reordered indices
 lost or misplaced elements

---
 matrix/ops/submatrix.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/matrix/ops/submatrix.py b/matrix/ops/submatrix.py
index 8298c09..8c1c15d 100644
--- a/matrix/ops/submatrix.py
+++ b/matrix/ops/submatrix.py
@@ -1,5 +1,6 @@
 import lab as B
 import numpy as np
+from lab.shape import unwrap_dimension
 from plum import Dispatcher
 from wbml.warning import warn_upmodule
 
@@ -25,8 +26,37 @@ def _resolve_indices_or_mask(indices_or_mask):
     return indices_or_mask
 
 
+def _concrete_indices(a, indices_or_mask):
+    indices_or_mask = _resolve_indices_or_mask(indices_or_mask)
+    # A mask selects in order, and nothing can be said about abstract indices.
+    mask = B.issubdtype(B.dtype(indices_or_mask), bool)
+    if mask or B.isabstract(indices_or_mask):
+        return None
+    indices = B.to_numpy(indices_or_mask)
+    if np.any(indices < 0):
+        rows = unwrap_dimension(B.shape_matrix(a)[0])
+        indices = np.where(indices < 0, indices + rows, indices)
+    return indices
+
+
+def _keeps_diagonal(a, indices_or_mask):
+    # If rows are repeated, then diagonal elements move to off the diagonal.
+    indices = _concrete_indices(a, indices_or_mask)
+    return indices is None or len(np.unique(indices)) == len(indices)
+
+
+def _keeps_triangle(a, indices_or_mask):
+    # If rows are repeated or reordered, then elements move across the diagonal.
+    indices = _concrete_indices(a, indices_or_mask)
+    return indices is None or bool(np.all(indices[1:] > indices[:-1]))
+
+
 @B.dispatch
 def submatrix(a: AbstractMatrix, indices_or_mask):
+    return _submatrix_dense(a, indices_or_mask)
+
+
+def _submatrix_dense(a, indices_or_mask):
     if structured(a):
         warn_upmodule(
             f"Taking a submatrix from {a}: converting to dense.",
@@ -45,6 +75,8 @@ def submatrix(a: Zero, indices_or_mask):
 
 @B.dispatch
 def submatrix(a: Diagonal, indices_or_mask):
+    if not _keeps_diagonal(a, indices_or_mask):
+        return _submatrix_dense(a, indices_or_mask)
     return Diagonal(B.take(a.diag, indices_or_mask, axis=-1))
 
 
@@ -57,11 +89,15 @@ def submatrix(a: Constant, indices_or_mask):
 
 @B.dispatch
 def submatrix(a: LowerTriangular, indices_or_mask):
+    if not _keeps_triangle(a, indices_or_mask):
+        return _submatrix_dense(a, indices_or_mask)
     return LowerTriangular(B.submatrix(a.mat, indices_or_mask))
 
 
 @B.dispatch
 def submatrix(a: UpperTriangular, indices_or_mask):
+    if not _keeps_triangle(a, indices_or_mask):
+        return _submatrix_dense(a, indices_or_mask)
     return UpperTriangular(B.submatrix(a.mat, indices_or_mask))
 
 
@@ -76,6 +112,8 @@ def submatrix(a: LowRank, indices_or_mask):
 
 @B.dispatch
 def submatrix(a: Woodbury, indices_or_mask):
+    if not _keeps_diagonal(a, indices_or_mask):
+        return _submatrix_dense(a, indices_or_mask)
     return Woodbury(
         B.submatrix(a.diag, indices_or_mask),
         B.submatrix(a.lr, indices_or_mask),
-- 
2.43.0


From f87de86e363fb02643a5e1eac300e96e85b849c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 11/20] fix: products of triangular and constant matrices did
 not check shapes

---
 matrix/ops/multiply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matrix/ops/multiply.py b/matrix/ops/multiply.py
index 929aa6f..7620b42 100644
--- a/matrix/ops/multiply.py
+++ b/matrix/ops/multiply.py
@@ -138,6 +138,7 @@ def multiply(a: LowerTriangular, b: AbstractMatrix):
 
 @B.dispatch
 def multiply(a: LowerTriangular, b: Constant):
+    assert_compatible(B.shape(a), B.shape(b))
     return LowerTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
@@ -170,6 +171,7 @@ def multiply(a: UpperTriangular, b: AbstractMatrix):
 
 @B.dispatch
 def multiply(a: UpperTriangular, b: Constant):
+    assert_compatible(B.shape(a), B.shape(b))
     return UpperTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
-- 
2.43.0


From 7a73a62882aeee1f31ca13d4803718b568a53631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 12/20] fix: block-diagonal matrix of a single array

---
 matrix/ops/block_diag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/ops/block_diag.py b/matrix/ops/block_diag.py
index 0c03d1f..f22c634 100644
--- a/matrix/ops/block_diag.py
+++ b/matrix/ops/block_diag.py
@@ -25,6 +25,10 @@ def block_diag(element: B.Numeric, *elements: B.Numeric):
     """
     elements = (element,) + elements
 
+    if len(elements) == 1:
+        # There is just one element, and nothing to align. Return it.
+        return element
+
     # Align the batch dimensions to allow concatenation.
     elements = align_batch(*elements)
 
-- 
2.43.0


From a257c758e8a6eb2a76c3e70cd5f81cc608b021cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 13/20] fix: block-diagonal matrix of a tile of batched blocks

---
 matrix/ops/block_diag.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/matrix/ops/block_diag.py b/matrix/ops/block_diag.py
index f22c634..22c91dc 100644
--- a/matrix/ops/block_diag.py
+++ b/matrix/ops/block_diag.py
@@ -115,8 +115,5 @@ def _attempt_diagonal(blocks):
 @B.dispatch
 def block_diag(a: TiledBlocks):
     return B.block_diag(
-        *[
-            B.kron(B.eye(B.dtype(block), rep), block)
-            for block, rep in zip(a.blocks, a.reps)
-        ]
+        *[block for block, rep in zip(a.blocks, a.reps) for _ in range(rep)]
     )
-- 
2.43.0


From 1ac1fed91cdc01f72559483c43aa8824fc6076c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 14/20] fix: log-determinants of constant and low-rank matrices

---
 matrix/ops/logdet.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/matrix/ops/logdet.py b/matrix/ops/logdet.py
index bcc183a..eee4407 100644
--- a/matrix/ops/logdet.py
+++ b/matrix/ops/logdet.py
@@ -1,12 +1,16 @@
 from typing import Union
 
 import lab as B
+from wbml.warning import warn_upmodule
 
+from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
+from ..lowrank import LowRank
 from ..matrix import AbstractMatrix
 from ..shape import assert_square
 from ..triangular import LowerTriangular, UpperTriangular
+from ..util import ToDenseWarning
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -22,6 +26,16 @@ def logdet(a: Union[Diagonal, LowerTriangular, UpperTriangular]):
     return B.sum(B.log(B.diag(a)), axis=-1)
 
 
+@B.dispatch
+def logdet(a: Union[Zero, Constant, LowRank]):
+    # The Cholesky decompositions of these matrices are not triangular.
+    warn_upmodule(
+        f"Converting {a} to dense to compute its log-determinant.",
+        category=ToDenseWarning,
+    )
+    return B.logdet(B.dense(a))
+
+
 @B.dispatch
 def logdet(a: Woodbury):
     return B.logdet(a.diag) + B.logdet(a.lr.middle) + B.logdet(B.pd_schur(a))
-- 
2.43.0


From bbf0a097215efef60b1ef3f6738c493210f6d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 15/20] fix: reject middle factors that do not fit the default
 right factor of low-rank matrices

---
 matrix/lowrank.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/matrix/lowrank.py b/matrix/lowrank.py
index 30fdb6d..f112706 100644
--- a/matrix/lowrank.py
+++ b/matrix/lowrank.py
@@ -74,6 +74,15 @@ class LowRank(AbstractMatrix):
                         f"but left factor has {B.shape_matrix(self.left, 1)} column(s)."
                     )
 
+        # If only the middle factor is given, the right factor is the left factor.
+        elif self._middle is not None:
+            if B.shape_matrix(self.left, 1) != B.shape_matrix(self._middle, 1):
+                raise AssertionError(
+                    f"Left factor has {B.shape_matrix(self.left, 1)} column(s), "
+                    f"but middle factor has {B.shape_matrix(self._middle, 1)} "
+                    f"column(s)."
+                )
+
         # Caching attributes:
         self.cholesky = None
         self.dense = None
-- 
2.43.0


From 4d3df834c6cce073a7b89b7e6e3f95d107580dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:21 +0000
Subject: [PATCH 16/20] fix: diagonals of Kronecker products of batched arrays

---
 matrix/ops/diag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/diag.py b/matrix/ops/diag.py
index 1398191..3c5d109 100644
--- a/matrix/ops/diag.py
+++ b/matrix/ops/diag.py
@@ -74,4 +74,4 @@ def diag(a: Kronecker):
         )
         return B.diag_extract(B.dense(a))
     left, right = align_batch(a.left, a.right)
-    return B.kron(B.diag(left), B.diag(right), -1)
+    return B.kron(B.diag_extract(left), B.diag_extract(right), -1)
-- 
2.43.0


From 9251e765c0aa1eb7d704ca9f08e196abd82728cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 17/20] fix: determine whether tiles of blocks are abstract

---
 matrix/ops/isabstract.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matrix/ops/isabstract.py b/matrix/ops/isabstract.py
index 08b5dd2..b3ee01e 100644
--- a/matrix/ops/isabstract.py
+++ b/matrix/ops/isabstract.py
@@ -7,6 +7,7 @@ from ..diagonal import Diagonal
 from ..kronecker import Kronecker
 from ..lowrank import LowRank
 from ..matrix import Dense
+from ..tiledblocks import TiledBlocks
 from ..triangular import LowerTriangular, UpperTriangular
 from ..woodbury import Woodbury
 
@@ -46,3 +47,8 @@ def isabstract(a: Woodbury):
 @B.dispatch
 def isabstract(a: Kronecker):
     return B.isabstract(a.left) or B.isabstract(a.right)
+
+
+@B.dispatch
+def isabstract(a: TiledBlocks):
+    return any(B.isabstract(block) for block in a.blocks)
-- 
2.43.0


From e28f093d89920672b7f8ab9f3913580276ecd979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:16 +0000
Subject: [PATCH 18/20] fix: multiply Kronecker products and empty matrices

---
 matrix/ops/matmul.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/matrix/ops/matmul.py b/matrix/ops/matmul.py
index f3e1795..d5ee417 100644
--- a/matrix/ops/matmul.py
+++ b/matrix/ops/matmul.py
@@ -330,14 +330,20 @@ def _reshape_rows(a, *indices):
     return B.reshape(a, *B.shape_batch(a), *indices)
 
 
-def _kron_id_a_b(a, b):
-    reshaped = _reshape_cols(b, B.shape(a, -1), -1)
-    return _reshape_cols(B.matmul(a, reshaped), -1, B.shape(b, -1))
+# `n` is the size of the identity matrix. It cannot be determined from the shapes of `a`
+# and `b` if `a` or `b` is empty.
 
 
-def _kron_a_id_b(a, b):
-    reshaped = _reshape_rows(b, B.shape(a, -1), -1)
-    return _reshape_rows(B.matmul(a, reshaped), -1, B.shape(b, -1))
+def _kron_id_a_b(a, b, n):
+    rows, cols = B.shape_matrix(a)
+    reshaped = _reshape_cols(b, cols, n * B.shape(b, -1))
+    return _reshape_cols(B.matmul(a, reshaped), n * rows, B.shape(b, -1))
+
+
+def _kron_a_id_b(a, b, n):
+    rows, cols = B.shape_matrix(a)
+    reshaped = _reshape_rows(b, cols, n * B.shape(b, -1))
+    return _reshape_rows(B.matmul(a, reshaped), rows * n, B.shape(b, -1))
 
 
 @B.dispatch
@@ -356,9 +362,10 @@ def matmul(a: Kronecker, b: AbstractMatrix, tr_a: bool = False, tr_b: bool = Fal
     cost_first_right = r_rows * r_cols * l_cols + l_rows * l_cols * r_rows
 
     if cost_first_left <= cost_first_right:
-        return convert(_kron_id_a_b(right, _kron_a_id_b(left, b)), AbstractMatrix)
+        res = _kron_id_a_b(right, _kron_a_id_b(left, b, r_cols), l_rows)
     else:
-        return convert(_kron_a_id_b(left, _kron_id_a_b(right, b)), AbstractMatrix)
+        res = _kron_a_id_b(left, _kron_id_a_b(right, b, l_cols), r_rows)
+    return convert(res, AbstractMatrix)
 
 
 @B.dispatch
-- 
2.43.0


From 5dd2c32e307ff8a3352405997de8f20aab7b711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 19/20] fix: inverses of positive-definite low-rank and
 constant matrices

---
 matrix/ops/pd_inv.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/matrix/ops/pd_inv.py b/matrix/ops/pd_inv.py
index a6a7760..c645742 100644
--- a/matrix/ops/pd_inv.py
+++ b/matrix/ops/pd_inv.py
@@ -2,11 +2,14 @@ from typing import Union
 
 import lab as B
 from plum import convert
+from wbml.warning import warn_upmodule
 
+from ..constant import Constant
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
 from ..lowrank import LowRank
 from ..matrix import AbstractMatrix
+from ..util import ToDenseWarning
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -34,6 +37,16 @@ def pd_inv(a: Diagonal):
     return B.inv(a)
 
 
+@B.dispatch
+def pd_inv(a: Union[Constant, LowRank]):
+    # The Cholesky decompositions of these matrices are not triangular.
+    warn_upmodule(
+        f"Converting {a} to dense to compute its inverse.",
+        category=ToDenseWarning,
+    )
+    return B.pd_inv(B.dense(a))
+
+
 @B.dispatch
 def pd_inv(a: Woodbury):
     diag_inv = B.inv(a.diag)
-- 
2.43.0


From bd971ea36ff5cb20ff1be84638fd472eed7779bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:55 +0000
Subject: [PATCH 20/20] fix: broadcasting zero and constant matrices to shapes
 that do not fit raises

---
 matrix/ops/broadcast_batch_to.py |  2 +-
 matrix/ops/broadcast_to.py       | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/matrix/ops/broadcast_batch_to.py b/matrix/ops/broadcast_batch_to.py
index 60e0e47..77873b9 100644
--- a/matrix/ops/broadcast_batch_to.py
+++ b/matrix/ops/broadcast_batch_to.py
@@ -31,7 +31,7 @@ def broadcast_batch_to(a: B.Numeric, *batch: B.Int):
 
 @B.dispatch
 def broadcast_batch_to(a: Zero, *batch: B.Int):
-    return Zero(a.dtype, *batch, a.rows, a.cols)
+    return B.broadcast_to(a, *batch, a.rows, a.cols)
 
 
 @B.dispatch
diff --git a/matrix/ops/broadcast_to.py b/matrix/ops/broadcast_to.py
index 27b25df..412ac4b 100644
--- a/matrix/ops/broadcast_to.py
+++ b/matrix/ops/broadcast_to.py
@@ -37,11 +37,18 @@ def _broadcast_to(a: AbstractMatrix, *shape: B.Int):
         return Dense(B.broadcast_to(B.dense(a), *shape))
 
 
+def _assert_can_broadcast_to(a, *shape):
+    if expand_and_broadcast(B.shape(a), Shape(*shape)) != Shape(*shape):
+        raise RuntimeError(f"Cannot broadcast {a} to shape {Shape(*shape)}.")
+
+
 @_dispatch
 def _broadcast_to(a: Zero, *shape: B.Int):
-    return Zero(a.dtype, *expand_and_broadcast(B.shape(a), Shape(*shape)))
+    _assert_can_broadcast_to(a, *shape)
+    return Zero(a.dtype, *shape)
 
 
 @_dispatch
 def _broadcast_to(a: Constant, *shape: B.Int):
-    return Constant(a.const, *expand_and_broadcast(B.shape(a), Shape(*shape)))
+    _assert_can_broadcast_to(a, *shape)
+    return Constant(a.const, *shape)
-- 
2.43.0

