From 91e4e086ea1243b470bc440326df0a608c1aa124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 01/12] fix: use the transpose in block-diagonal rmatmat and
 from_inner

---
 singd/structures/blockdiagonal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index d2f22f0..d470467 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -246,7 +246,9 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The result of the multiplication with the represented matrix's transpose.
         """
-        return self @ mat
+        # NOTE The blocks are not symmetric in general (e.g. after multiplications)
+        transposed = self.__class__(self._blocks.transpose(1, 2), self._last.T)
+        return transposed @ mat
 
     ###############################################################################
     #                        Special operations for IF-KFAC                       #
@@ -273,8 +275,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             `self.T @ X @ X^T @ self`.
         """
         if X is None:
-            out_blocks = einsum("nij,nkj->nik", self._blocks, self._blocks)
-            out_last = self._last @ self._last.T
+            out_blocks = einsum("nji,njk->nik", self._blocks, self._blocks)
+            out_last = self._last.T @ self._last
             return self.__class__(out_blocks, out_last)
         else:
             S = self.rmatmat(X)
-- 
2.43.0


From 26fd436d16937331cdcd515d0f528d9829a35645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 02/12] fix: reject block-diagonal blocks of wrong dimension

---
 singd/structures/blockdiagonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index d470467..58e2fe4 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -90,7 +90,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             raise ValueError(
                 f"Diagonal blocks must be 3-dimensional, got {blocks.ndim}."
             )
-        if blocks.shape[1] != blocks.shape[2] != self.BLOCK_DIM:
+        if blocks.shape[1:] != (self.BLOCK_DIM, self.BLOCK_DIM):
             raise ValueError(
                 f"Diagonal blocks must be square with dimension {self.BLOCK_DIM},"
                 f" got {blocks.shape[1:]} instead."
-- 
2.43.0


From 4d1593348b1b31f3c2dd469459440f399656ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 03/12] fix: write all_reduce result back for non-contiguous
 tensors

---
 singd/structures/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index e541c57..982d3f3 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -253,7 +253,9 @@ class StructuredMatrix(ABC):
         """
         handles = []
         for _, tensor in self.named_tensors():
-            tensor = tensor.contiguous()
+            # NOTE The result must be written into the registered tensor, not a copy
+            if not tensor.is_contiguous():
+                tensor.data = tensor.contiguous()
             if async_op:
                 handles.append(
                     dist.all_reduce(tensor, op=op, group=group, async_op=True)
-- 
2.43.0


From 3ae710ce6f15cc7725975f5f2b4b7388a88abae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 04/12] fix: report correct method names in naive
 implementation warnings

---
 singd/structures/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index 982d3f3..3eab4fb 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -321,7 +321,7 @@ class StructuredMatrix(ABC):
         Returns:
             The average trace of the represented matrix.
         """
-        self._warn_naive_implementation("trace")
+        self._warn_naive_implementation("average_trace")
         return self.to_dense().diag().mean()
 
     def diag_add_(self, value: float) -> StructuredMatrix:
@@ -390,7 +390,7 @@ class StructuredMatrix(ABC):
         Returns:
             A structured matrix representing the zero matrix.
         """
-        cls._warn_naive_implementation("zero")
+        cls._warn_naive_implementation("zeros")
         return cls.from_dense(zeros((dim, dim), dtype=dtype, device=device))
 
     @classmethod
-- 
2.43.0


From 07a9fee9b21f22992763331f28771022c981465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 05/12] fix: do not warn when Toeplitz from_inner falls back to
 from_mat_inner

---
 singd/structures/triltoeplitz.py | 1 +
 singd/structures/triutoeplitz.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/singd/structures/triltoeplitz.py b/singd/structures/triltoeplitz.py
index dd29863..b9edd07 100644
--- a/singd/structures/triltoeplitz.py
+++ b/singd/structures/triltoeplitz.py
@@ -42,6 +42,7 @@ class TrilToeplitzMatrix(StructuredMatrix):
     WARN_NAIVE_EXCEPTIONS = {  # hard to leverage structure for efficient implementation
         "from_inner",
         "from_inner2",
+        "from_mat_inner",  # called by `from_inner`
     }
 
     def __init__(self, lower_diags: Tensor) -> None:
diff --git a/singd/structures/triutoeplitz.py b/singd/structures/triutoeplitz.py
index 1a6205d..5fc2792 100644
--- a/singd/structures/triutoeplitz.py
+++ b/singd/structures/triutoeplitz.py
@@ -42,6 +42,7 @@ class TriuToeplitzMatrix(StructuredMatrix):
     WARN_NAIVE_EXCEPTIONS = {  # hard to leverage structure for efficient implementation
         "from_inner",
         "from_inner2",
+        "from_mat_inner",  # called by `from_inner`
     }
 
     def __init__(self, upper_diags: Tensor) -> None:
-- 
2.43.0


From 9582b633338a07fe978a933f0d7b38d57629cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 06/12] fix: do not modify the state dict passed to
 load_state_dict

---
 singd/optim/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 7cad745..cd3b4b3 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -885,8 +885,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             state_dict: A dictionary containing a valid state obtained from this
                 class's `.state_dict()` method.
         """
-        attributes = {name: state_dict.pop(name) for name in self.STATE_ATTRIBUTES}
-        super().load_state_dict(state_dict)
+        attributes = {name: state_dict[name] for name in self.STATE_ATTRIBUTES}
+        super().load_state_dict(
+            {key: value for key, value in state_dict.items() if key not in attributes}
+        )
 
         for name, value in attributes.items():
             setattr(self, name, value)
-- 
2.43.0


From 35e20ccfddf825efb9ac2362967a0975870ac0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 07/12] fix: reject negative integer hyper-parameters

---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index cd3b4b3..9eebf80 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -210,7 +210,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             (momentum, "momentum"),
             (weight_decay, "weight_decay"),
         ]:
-            if isinstance(x, float) and x < 0.0:
+            if isinstance(x, (int, float)) and x < 0.0:
                 raise ValueError(f"{name} must be positive. Got {x}")
 
         defaults = dict(
-- 
2.43.0


From 887765411963a05d3552e8680e6d0795863e4e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 08/12] fix: do not train layer parameters that were not passed
 to the optimizer

---
 singd/optim/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 9eebf80..fe26be8 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -795,6 +795,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             lr = self._get_param_group_entry(module, "lr")
 
             for p, p_nat_grad in zip(parameters, natural_gradients):
+                # only train parameters that were passed to the optimizer
+                if p.data_ptr() not in self.param_to_group_idx:
+                    continue
+
                 p_step = p_nat_grad
 
                 # add weight decay
-- 
2.43.0


From 11892985f135b41870a9ad6d7be58352230cebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 09/12] fix: do not change global warning filters when skipping
 a step

---
 singd/optim/optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index fe26be8..041df05 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -3,7 +3,7 @@
 from functools import partial
 from math import sqrt
 from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
-from warnings import simplefilter, warn
+from warnings import catch_warnings, simplefilter, warn
 
 import torch.distributed as dist
 from torch import Tensor, cat, device, dtype, is_grad_enabled, zeros_like
@@ -764,8 +764,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         if found_inf:
             # Skip the update step if `inf`s were encountered in the gradients.
             # The `GradScaler` will adjust the scale in this case.
-            simplefilter("always", UserWarning)  # Warn every time this happens.
-            warn("Encountered inf in gradients. Skipping update.")
+            with catch_warnings():  # restores the user's warning filters
+                simplefilter("always", UserWarning)  # Warn every time this happens.
+                warn("Encountered inf in gradients. Skipping update.")
             # Also, empty the accumulators because this step will be skipped.
             for name in self.module_names.values():
                 if name in self.H_Ks:
-- 
2.43.0


From c2e570e132c6fd2dabdddeac9b8f566441aad1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 10/12] fix: average input statistics across devices for summed
 losses

---
 singd/optim/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 041df05..6899065 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -623,7 +623,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         if dist.is_initialized():
             # all-reduce across devices (computes average by default).
             op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
-            H_K.all_reduce(op=op)
+            # NOTE `H_K` is an average over the data, independent of the loss reduction
+            H_K.all_reduce(op=dist.ReduceOp.AVG)
             H_C.all_reduce(op=op)
 
         # store or update existing quantities (they get flushed in `.step`)
-- 
2.43.0


From bdb04ceffe3bded10ae554a70bfab90db25dd634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 11/12] fix: cast natural gradient to the weight's dtype when
 preconditioner dtype is None

---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 6899065..fe47e37 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -699,7 +699,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         module_name = self.module_names[module]
 
         # load the gradient to the pre-conditioner precision while multiplying
-        dtype_K, dtype_C = self._get_param_group_entry(module, "preconditioner_dtype")
+        (dtype_K, dtype_C), _ = self._get_preconditioner_dtypes_and_device(module)
 
         # We need to compute `W @ K @ K^T` where `W` is the weight gradient
         # `K` supports `K @ ...` and `K^T @ ...`. Hence, we rewrite into
-- 
2.43.0


From 4145faa11f3a331fd9c199e96809aabe280bb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 12/12] fix: reject Toeplitz coefficient vectors of even length
 in toeplitz_matmul

---
 singd/structures/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/singd/structures/utils.py b/singd/structures/utils.py
index 2ed041b..f86d3ba 100644
--- a/singd/structures/utils.py
+++ b/singd/structures/utils.py
@@ -98,9 +98,11 @@ def toeplitz_matmul(coeffs: Tensor, mat: Tensor) -> Tensor:
     Raises:
         RuntimeError: If the specified tensors have incorrect shape.
     """
-    toeplitz_dim = (coeffs.shape[0] + 1) // 2
-    if toeplitz_dim != mat.shape[0]:
-        raise RuntimeError(f"Toeplitz dim={toeplitz_dim}, but `mat` is {mat.shape}.")
+    if coeffs.shape[0] != 2 * mat.shape[0] - 1:
+        raise RuntimeError(
+            f"Toeplitz matrix has {coeffs.shape[0]} coefficients, but `mat` is "
+            f"{mat.shape} (expected 2 * N - 1 coefficients for N rows)."
+        )
 
     num_rows = mat.shape[0]
     num_cols = mat.shape[1]
-- 
2.43.0

