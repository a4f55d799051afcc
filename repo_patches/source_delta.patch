From 6fb147c4c515bef76f045ba4c996a3846e2ae2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 01/45] fix: scaling a SketchContainer used an undefined name

__mul__ (and so negation, subtraction and division of a streaming sketch) always raised UnboundLocalError.
---
 tt_sketch/sketch_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_container.py b/tt_sketch/sketch_container.py
index fed61f3..9bc3c89 100644
--- a/tt_sketch/sketch_container.py
+++ b/tt_sketch/sketch_container.py
@@ -75,7 +75,7 @@ class SketchContainer:
         return self.__class__(Psi_cores_new, Omega_mats_new)
 
     def __mul__(self, other: float) -> SketchContainer:
-        new_Psi_cores = [Psi * other for Psi in new_Psi_cores]
+        new_Psi_cores = [Psi * other for Psi in self.Psi_cores]
         new_Omega_mats = [Omega * other for Omega in self.Omega_mats]
         return self.__class__(new_Psi_cores, new_Omega_mats)
 
-- 
2.43.0


From dfbf6a0e61e8ec926f431f11cc37fb14e9a4b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 02/45] fix: CPTensor.size is a property, as for every other
 tensor

TensorSum.size raised TypeError when a summand was a CPTensor.
---
 tt_sketch/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 75fb187..b6511a2 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -685,6 +685,7 @@ class CPTensor(Tensor):
         self.rank = cores[0].shape[1]
         self.shape = tuple(C.shape[0] for C in cores)
 
+    @property
     def size(self) -> int:
         return sum(C.size for C in self.cores)
 
-- 
2.43.0


From 3b5e794df10aaa090a2e7843d60ae7d887dd2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 03/45] fix: hmt_sketch(return_drm=True) raised NameError

There is only one DRM in the HMT sketch.
---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 4a79abf..b6c4fd2 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -73,7 +73,7 @@ def hmt_sketch(
 
     sketched = TensorTrain(sketch.Psi_cores)
     if return_drm:  # this really is mostly for testing purposes
-        return sketched, drm, right_drm  # type: ignore
+        return sketched, drm  # type: ignore
     else:
         return sketched
 
-- 
2.43.0


From 2aa228dc95ba5b5adc63f1da856c06ac6c52825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 04/45] fix: multiplying an MPO by a scalar modified the MPO
 itself

---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index f02ae69..d209ad5 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -129,7 +129,7 @@ class MPO(Tensor, TTLinearMap):
         return cls(cores)
 
     def __mul__(self, other: float) -> MPO:
-        new_cores = self.cores
+        new_cores = list(self.cores)
         new_cores[0] = new_cores[0] * other
         return self.__class__(new_cores)
 
-- 
2.43.0


From 62332d01212b07a24753b81a0cdd88e643e7cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 05/45] fix: power_decay_tensor used a name that is not
 imported

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 22d33a7..95d5d9e 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -46,7 +46,7 @@ def power_decay_tensor(
     unfolding decay with a power law."""
     # if seed is not None:
     #     np.random.seed(np.mod(seed, 2**32 - 1))
-    seq = SeedSequence(seed)
+    seq = np.random.SeedSequence(seed)
     A_seed = seq.generate_state(1)[0]
     A = random_normal(shape=shape, seed=A_seed)
     for mode in range(len(A.shape)):
-- 
2.43.0


From 3622a6e988217e7e3146639c260ff3ae1067487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 06/45] fix: sqrt_tensor swapped the first two modes of the
 requested shape

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 95d5d9e..f12de64 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -33,7 +33,7 @@ def sqrt_tensor(shape: Tuple[int, ...], a=-0.2, b=2) -> npt.NDArray:
         return np.sqrt(np.abs(np.sum(X, axis=0)))
 
     vals = [np.linspace(a, b, s) for s in shape]
-    grid = np.stack(np.meshgrid(*vals))
+    grid = np.stack(np.meshgrid(*vals, indexing="ij"))
     X = sqrt_sum(grid)
     X /= np.linalg.norm(X)
     return X
-- 
2.43.0


From c710d2540901f41b7b3e5973baa545031374419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 07/45] fix: fast error between two zero tensors was NaN

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index b6511a2..8898e89 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -69,7 +69,7 @@ class Tensor(ABC):
             self_norm = self.norm()
             dot = self.dot(other)
             norm_sum = self_norm**2 + other_norm**2
-            error = np.sqrt(norm_sum) * np.sqrt(np.abs(1 - 2 * dot / norm_sum))
+            error = np.sqrt(np.abs(norm_sum - 2 * dot))
         else:
             error = np.linalg.norm(self.to_numpy() - other.to_numpy())
         if relative:
-- 
2.43.0


From ae7cf5a3f5002bfa9b98c62f5e6c6eb30cf3a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 08/45] fix: SparseTensor.gather and dot used stale entries

The index->entry dictionary was cached on first use, so changing the entries
in place (as the tutorial does) was not seen by later inner products.
---
 tt_sketch/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 8898e89..295745f 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 from abc import ABC, abstractmethod, abstractproperty
 from copy import deepcopy
 from dataclasses import dataclass
-from functools import cached_property
 from typing import (
     Iterable,
     List,
@@ -285,7 +284,7 @@ class SparseTensor(Tensor):
             out[i] = dic.get(ind, 0.0)
         return out
 
-    @cached_property
+    @property
     def dict(self) -> Dict[int, float]:
         dense_indices = np.ravel_multi_index(self.indices, self.shape)
         return {i: v for i, v in zip(dense_indices, self.entries)}
-- 
2.43.0


From a76e7735922512727b45ec87b5fd3acb6a738fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 09/45] fix: trim_ranks stopped after 100 sweeps without having
 converged

A bound on the right travels left by one edge per sweep, so in long trains the
result was not the exact reduced rank.
---
 tt_sketch/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index f12de64..2d9f88b 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -137,7 +137,7 @@ def trim_ranks(
         ranks_trimmed[i] = min(r, dim_left, dim_right)
     changed = True
     ranks_trimmed = [1] + ranks_trimmed + [1]
-    for _ in range(100):
+    while changed:
         changed = False
         for i, d in enumerate(dims):
             if ranks_trimmed[i + 1] > ranks_trimmed[i] * d:
@@ -146,8 +146,6 @@ def trim_ranks(
             if ranks_trimmed[i] > d * ranks_trimmed[i + 1]:
                 changed = True
                 ranks_trimmed[i] = d * ranks_trimmed[i + 1]
-        if not changed:
-            break
 
     return tuple(ranks_trimmed[1:-1])
 
-- 
2.43.0


From 5dace944f8dc2dd44da3a07c1e05ed4b4bde38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 10/45] fix: empty TensorSum lost its shape under transposition
 and arithmetic

---
 tt_sketch/tensor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 295745f..421f7b8 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -627,7 +627,8 @@ class TensorSum(Generic[TType], Tensor):
     @property
     def T(self) -> TensorSum:
         new_tensors: List[TType] = [X.T for X in self.tensors]
-        return self.__class__(new_tensors)
+        new_shape = None if new_tensors else self.shape[::-1]
+        return self.__class__(new_tensors, new_shape)
 
     def to_numpy(self) -> npt.NDArray[np.float64]:
         s = np.zeros(self.shape)
@@ -637,9 +638,9 @@ class TensorSum(Generic[TType], Tensor):
 
     def __add__(self, other: TType) -> TensorSum:
         if isinstance(other, TensorSum):
-            return self.__class__(self.tensors + other.tensors)
+            return self.__class__(self.tensors + other.tensors, self.shape)
         else:
-            return self.__class__(self.tensors + [other])
+            return self.__class__(self.tensors + [other], self.shape)
 
     def __iadd__(self, other: TType) -> TensorSum:
         if isinstance(other, TensorSum):
@@ -661,10 +662,13 @@ class TensorSum(Generic[TType], Tensor):
     def __mul__(self, other: Union[float, Iterable[float]]) -> TensorSum:
         try:
             return self.__class__(
-                [X * c for X, c in zip(self.tensors, other, strict=True)]
+                [X * c for X, c in zip(self.tensors, other, strict=True)],
+                self.shape,
             )
         except TypeError:
-            return self.__class__([X * other for X in self.tensors])
+            return self.__class__(
+                [X * other for X in self.tensors], self.shape
+            )
 
     def dot(self, other: Tensor, reverse=False) -> float:
         return sum(X.dot(other, reverse) for X in self.tensors)
-- 
2.43.0


From 519e215c5c6df83aed79d25a728300da4c2e7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 11/45] fix: TensorTrain.svdvals failed when a rank exceeds
 what the modes on its right admit

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 421f7b8..0e8b9cc 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -498,7 +498,7 @@ class TensorTrain(Tensor):
             else:
                 C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
 
-            U, S, _ = np.linalg.svd(C_mat)
+            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
             svdvals.append(S)
         svdvals = svdvals[::-1]
         return svdvals
-- 
2.43.0


From acc987e4f875b4591057ee232222d9fe70dc924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 12/45] fix: CPTensor.gather failed for factors of different
 dtypes

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 0e8b9cc..d85d113 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -732,7 +732,7 @@ class CPTensor(Tensor):
 
         res = 1
         for C, id in zip(self.cores, idx):
-            res *= C[id]
+            res = res * C[id]
         return np.sum(res, axis=1)
 
     def __repr__(self) -> str:
-- 
2.43.0


From 2bc666b55101932fdd8dba3a665d16d69235c642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 13/45] fix: right sketches of dense and Tucker tensors ignored
 mode order and rank slices

The right DRM is applied to the transposed tensor, so the rows of the sketch of
a dense or Tucker tensor were indexed by the modes in reversed order while the
Omega and Psi contractions use the original order. The same tensor in different
formats got different sketches, and adding e.g. a dense tensor to the sketch of
a sparse tensor gave a wrong result for three or more modes. The rank slice of
a blocked sketch was not applied either.
---
 tt_sketch/drm/dense_gaussian_drm.py | 10 ++++++++--
 tt_sketch/drm/tensor_train_drm.py   | 23 +++++++++++++++++------
 tt_sketch/drm_base.py               | 12 ++++++++++++
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/tt_sketch/drm/dense_gaussian_drm.py b/tt_sketch/drm/dense_gaussian_drm.py
index 6d637f1..603b68f 100644
--- a/tt_sketch/drm/dense_gaussian_drm.py
+++ b/tt_sketch/drm/dense_gaussian_drm.py
@@ -4,7 +4,11 @@ from typing import Optional, Tuple, Union
 
 import numpy as np
 from numpy.random import SeedSequence
-from tt_sketch.drm_base import CanIncreaseRank, handle_transpose
+from tt_sketch.drm_base import (
+    CanIncreaseRank,
+    handle_transpose,
+    unreverse_modes,
+)
 from tt_sketch.sketching_methods.abstract_methods import (
     CansketchDense,
     CansketchSparse,
@@ -76,5 +80,7 @@ class DenseGaussianDRM(
 
     @handle_transpose
     def sketch_dense(self, tensor: DenseTensor) -> ArrayGenerator:
-        for mat in self.sketching_mats:
+        for mu, mat in enumerate(self.sketching_mats):
+            if self.transpose:
+                mat = unreverse_modes(mat.T, tensor.shape[: mu + 1]).T
             yield mat
diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 985ce5c..54b798e 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -1,7 +1,8 @@
 from typing import Optional, Tuple, Union
 
 import numpy as np
-from tt_sketch.drm_base import CanSlice, handle_transpose
+import numpy.typing as npt
+from tt_sketch.drm_base import CanSlice, handle_transpose, unreverse_modes
 from tt_sketch.sketching_methods.abstract_methods import (
     CansketchCP,
     CansketchDense,
@@ -110,7 +111,7 @@ class TensorTrainDRM(
     def sketch_dense(self, tensor: DenseTensor) -> ArrayGenerator:
         n_dims = len(self.shape)
         partial_contraction = self.cores[0].reshape(-1, self.cores[0].shape[-1])
-        yield partial_contraction.T
+        yield self._dense_rows(partial_contraction, tensor.shape[:1], 0).T
         for mu in range(1, n_dims - 1):
             core = self.cores[mu]
             partial_contraction = np.einsum(
@@ -119,7 +120,16 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction.T
+            dims = tensor.shape[: mu + 1]
+            yield self._dense_rows(partial_contraction, dims, mu).T
+
+    def _dense_rows(
+        self, mat: npt.NDArray, dims: Tuple[int, ...], mu: int
+    ) -> npt.NDArray:
+        """Restrict to rank slice, and put the modes of the rows in the order
+        of the original tensor."""
+        mat = mat[:, self.rank_min[mu] : self.rank_max[mu]]
+        return unreverse_modes(mat, dims) if self.transpose else mat
 
     @handle_transpose
     def sketch_tucker(self, tensor: TuckerTensor) -> ArrayGenerator:
@@ -128,9 +138,9 @@ class TensorTrainDRM(
             "ijk,jl->ilk", self.cores[0], tensor.factors[0].T
         )
         partial_contraction = partial_contraction.reshape(
-            tensor.rank[0], self.rank[0]
+            tensor.rank[0], self.cores[0].shape[-1]
         )
-        yield partial_contraction
+        yield self._dense_rows(partial_contraction, tensor.rank[:1], 0)
 
         for mu in range(1, n_dims - 1):
             core_reduced = np.einsum(
@@ -142,4 +152,5 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction
+            dims = tensor.rank[: mu + 1]
+            yield self._dense_rows(partial_contraction, dims, mu)
diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 8d35da0..4c3b1a5 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -119,6 +119,18 @@ class CanIncreaseRank(CanSlice):
         return self.__class__(new_rank, self.shape, self.transpose, self.seed)
 
 
+def unreverse_modes(mat, shape: Tuple[int, ...]):
+    """Reorder rows of ``mat`` from reversed to original order of the modes.
+
+    Right sketches are computed using the transposed tensor, so that the rows of
+    the result are indexed by the modes in reversed order. Here ``shape`` are
+    the (reversed) dimensions of those modes."""
+    n_rows, n_modes = mat.shape[0], len(shape)
+    mat = mat.reshape(tuple(shape) + mat.shape[1:])
+    mat = mat.transpose(tuple(range(n_modes))[::-1] + (n_modes,))
+    return mat.reshape(n_rows, mat.shape[-1])
+
+
 def handle_transpose(sketch: Callable) -> Callable:
     """Decorator to handle transpose of sketch.
 
-- 
2.43.0


From a73c27b8ae60398b8636c0d4228dbf1195213538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 14/45] fix: slicing a TensorTrainDRM with given cores replaced
 them by random cores

---
 tt_sketch/drm/tensor_train_drm.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 54b798e..35bcc7e 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -1,3 +1,5 @@
+from __future__ import annotations
+
 from typing import Optional, Tuple, Union
 
 import numpy as np
@@ -58,6 +60,21 @@ class TensorTrainDRM(
         else:
             self.cores = kwargs["cores"]
 
+    def slice(
+        self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
+    ) -> TensorTrainDRM:
+        true_rank = self.true_rank[::-1] if self.transpose else self.true_rank
+        return self.__class__(
+            rank=true_rank,
+            shape=self.shape,
+            transpose=self.transpose,
+            seed=self.seed,
+            rank_min=start_rank,
+            rank_max=end_rank,
+            true_rank=true_rank,
+            cores=self.cores,
+        )
+
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
         for mu, core in enumerate(self.cores):
-- 
2.43.0


From 35a8793fafb4e4a4542d9c3cf796bbe2142df085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 15/45] fix: SparseSignDRM lost num_non_zero_per_row when
 sliced

Blocks of a blocked sketch used dense sign vectors. Also, for a right DRM the
numbers of non-zeros were assigned to the modes in reversed order, and a number
larger than the rank wrote out of bounds.
---
 tt_sketch/drm/sparse_sign_drm.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index d38634e..f6fc3dd 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -1,3 +1,5 @@
+from __future__ import annotations
+
 from typing import Optional, Tuple, Union
 
 import numpy as np
@@ -28,8 +30,32 @@ class SparseSignDRM(CansketchSparse, CanSlice):
     ) -> None:
         super().__init__(rank, shape, transpose, seed=seed, **kwargs)
         if num_non_zero_per_row is None:
-            num_non_zero_per_row = self.true_rank
-        self.nnz = num_non_zero_per_row
+            self.nnz = self.true_rank
+        else:
+            nnz = tuple(num_non_zero_per_row)
+            self.nnz = nnz[::-1] if transpose else nnz
+        if len(self.nnz) != len(self.true_rank) or any(
+            n > r for n, r in zip(self.nnz, self.true_rank)
+        ):
+            raise ValueError(
+                f"Number of non-zeros per row {num_non_zero_per_row} does not "
+                f"fit in the rank of the DRM."
+            )
+
+    def slice(
+        self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
+    ) -> SparseSignDRM:
+        flip = slice(None, None, -1 if self.transpose else None)
+        return self.__class__(
+            rank=self.true_rank[flip],
+            shape=self.shape,
+            transpose=self.transpose,
+            seed=self.seed,
+            num_non_zero_per_row=self.nnz[flip],
+            rank_min=start_rank,
+            rank_max=end_rank,
+            true_rank=self.true_rank[flip],
+        )
 
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
-- 
2.43.0


From 8af4816b99e26949f1ed00cd4b6f75e414940936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 16/45] fix: transposed streaming sketch could not be updated
 and had wrong ranks

The transpose of a DRM kept the shape of the original tensor and reversed the
ranks, so that it did not sketch the transposed tensor.
---
 tt_sketch/drm_base.py        |  7 +++----
 tt_sketch/sketch_dispatch.py | 14 +++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 4c3b1a5..eb2d907 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -65,11 +65,10 @@ class DRM(ABC):
     @property
     def T(self):
         transposed = deepcopy(self)
+        # The ranks are stored in the order in which the modes are contracted,
+        # which is the same for the transposed tensor.
         transposed.transpose = not self.transpose
-        transposed.true_rank = transposed.true_rank[::-1]
-        transposed.rank_min = transposed.rank_min[::-1]
-        transposed.rank_max = transposed.rank_max[::-1]
-        transposed.rank = transposed.rank[::-1]
+        transposed.shape = self.shape[::-1]
         return transposed
 
     def __repr__(self) -> str:
diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 40f937e..8c78041 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -217,9 +217,9 @@ def general_sketch(
         left_contractions = list(get_sketch_method(tensor, left_drm)(tensor))
     right_contractions = list(get_sketch_method(tensor, right_drm)(tensor))
 
-    if left_drm is None:
-        # This is just required for shape information in the case of HMT
-        left_drm = right_drm.T
+    right_rank = right_drm.rank[::-1]
+    # In the case of HMT the orthogonalized cores have the rank of the right DRM
+    left_rank = right_rank if left_drm is None else left_drm.rank
 
     Psi_cores: ArrayList = []
 
@@ -228,7 +228,7 @@ def general_sketch(
     if method != SketchMethod.hmt:
         omega_method = OMEGA_METHODS[type(tensor)]
         for mu in range(n_dims - 1):
-            omega_shape = (left_drm.rank[mu], right_drm.rank[::-1][mu])
+            omega_shape = (left_rank[mu], right_rank[mu])
             Omega_mats.append(
                 omega_method(
                     left_contractions[mu],
@@ -240,7 +240,7 @@ def general_sketch(
             )
 
     if method in (SketchMethod.hmt, SketchMethod.orthogonal):
-        left_psi_drm = OrthogTTDRM(left_drm.rank, tensor)
+        left_psi_drm = OrthogTTDRM(left_rank, tensor)
 
     # Compute Psi cores
     psi_method = PSI_METHODS[type(tensor)]
@@ -251,13 +251,13 @@ def general_sketch(
                 left_sketch = next(left_psi_drm)
             else:
                 left_sketch = left_contractions[mu - 1]
-            r1 = left_drm.rank[mu - 1]
+            r1 = left_rank[mu - 1]
         else:
             left_sketch = None
             r1 = 1
         if mu < n_dims - 1:
             right_sketch = right_contractions[mu]
-            r2 = right_drm.rank[::-1][mu]
+            r2 = right_rank[mu]
         else:
             right_sketch = None
             r2 = 1
-- 
2.43.0


From 915cea3293e98e3a6bc35fc584541de4bb240d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 17/45] fix: increase_rank checked for the wrong DRM capability

A DRM that can be sliced but not increased gave an AttributeError instead of the
intended ValueError.
---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index b6c4fd2..a45de53 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -316,7 +316,7 @@ class SketchedTensorTrain(Tensor):
             new_right_rank, tensor.shape, trim=False
         )
         for drm in (self.left_drm, self.right_drm):
-            if not isinstance(drm, CanSlice):
+            if not isinstance(drm, CanIncreaseRank):
                 drm_name = drm.__class__.__name__
                 raise ValueError(
                     f"Increasing rank is not supported for DRM {drm_name}"
-- 
2.43.0


From 7d4c9b19b74e58391f2b068ae802dd4dca4edeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 18/45] fix: result of a sketch with given seed differed
 between Python processes

The seed of the right DRM was derived from the salted hash of a string.
---
 tt_sketch/sketch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index a45de53..2e7be05 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import Dict, List, Optional, Sequence, Tuple, Type
+from zlib import crc32
 
 import numpy as np
 import numpy.typing as npt
@@ -129,7 +130,7 @@ def orthogonal_sketch(
             else:
                 right_drm_type = TensorTrainDRM
         right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
@@ -207,7 +208,7 @@ def stream_sketch(
         right_rank = process_tt_rank(
             right_rank, tensor.shape, trim=left_rank_bigger
         )
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
-- 
2.43.0


From 2eb4012581777bc37a3ed0e87cdbe7933eb4b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 19/45] fix: DenseGaussianDRM without seed could not be sliced
 or increased consistently

The matrices were not a function of the seed stored in the DRM. Also, seeds that
the other DRMs accept were rejected, and the global random state was reset.
---
 tt_sketch/drm/dense_gaussian_drm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tt_sketch/drm/dense_gaussian_drm.py b/tt_sketch/drm/dense_gaussian_drm.py
index 603b68f..5a141a7 100644
--- a/tt_sketch/drm/dense_gaussian_drm.py
+++ b/tt_sketch/drm/dense_gaussian_drm.py
@@ -51,12 +51,14 @@ class DenseGaussianDRM(
             dim_prod *= n
 
             # TODO: make this correctly work with rank_increase and random_normal
-            np.random.seed(seed)
-            seed_offset = hash(np.random.uniform(0, dim_prod))
-            np.random.seed(np.mod(self.seed + seed_offset, 2**32 - 1))
+            rng = np.random.RandomState(self.seed)
+            seed_offset = hash(rng.uniform(0, dim_prod))
+            rng = np.random.RandomState(
+                np.mod(self.seed + seed_offset, 2**32 - 1)
+            )
 
             # sketching_mat = random_normal(shape=(r, dim_prod), seed=seed)
-            sketching_mat = np.random.normal(size=(r, dim_prod))
+            sketching_mat = rng.normal(size=(r, dim_prod))
             sketching_mat = sketching_mat[self.rank_min[mu] : self.rank_max[mu]]
             self.sketching_mats.append(sketching_mat)
 
-- 
2.43.0


From 542d890395109fee5a8488897c935d79e57f0b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 20/45] fix: SparseTensor.random with a seed reset the global
 random state

---
 tt_sketch/tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index d85d113..c505317 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -260,10 +260,9 @@ class SparseTensor(Tensor):
         """
         Generates a random sparse tensor with `nnz` non-zero gaussian entries
         """
-        if seed is not None:
-            np.random.seed(seed)
+        rng = np.random if seed is None else np.random.RandomState(seed)
         total_size = np.prod(shape)
-        indices_flat = np.random.choice(total_size, size=nnz, replace=False)
+        indices_flat = rng.choice(total_size, size=nnz, replace=False)
         indices = np.unravel_index(indices_flat, shape)
         entries = random_normal(shape=(nnz,), seed=seed)
         return cls(shape, indices, entries)
-- 
2.43.0


From e749c71872dde9602d7627c1bfa72929acbf1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 21/45] fix: overflow of linear indices in lazily computed DRMs

The product of the dimensions was accumulated in 32 bits, so that for big
index spaces different indices got the same row of the DRM.
---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index a80f2d4..3217552 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -62,7 +62,7 @@ cpdef double[:] _inds_to_rand_double(
     cdef int n_dim = len(shape)
     cdef int rank = rank_max - rank_min
 
-    cdef int prod = shape[0]
+    cdef uint64 prod = shape[0]
     cdef int i
     cdef int j
     for i in range(1,n_dim):
-- 
2.43.0


From 7efd221dc47e0c1613476ac966dd9b8e4092c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 22/45] fix: random numbers with given seed depended on the
 number of CPUs

---
 tt_sketch/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 2d9f88b..6938b35 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -1,6 +1,5 @@
 # %%
 import concurrent.futures
-import multiprocessing
 from functools import reduce
 from operator import mul
 from typing import Generator, List, Optional, Sequence, Tuple, Union
@@ -173,6 +172,11 @@ def process_tt_rank(
     return rank_tuple
 
 
+# Each thread has its own random stream. This number is fixed, so that a seed gives
+# the same numbers on every machine.
+DEFAULT_NUM_STREAMS = 8
+
+
 class MultithreadedRNG:
     """
     Multithreaded standard normal random number generator.
@@ -182,7 +186,7 @@ class MultithreadedRNG:
 
     def __init__(self, shape, seed=None, threads=None):
         if threads is None:
-            threads = multiprocessing.cpu_count()
+            threads = DEFAULT_NUM_STREAMS
         self.threads = threads
 
         seq = np.random.SeedSequence(seed)
-- 
2.43.0


From 31ccc9670f01a2b483a403f4d846a84af4ba70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 23/45] fix: integer and list ranks were rejected when a DRM of
 that rank is given

---
 tt_sketch/sketch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 2e7be05..c52343d 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -64,6 +64,7 @@ def hmt_sketch(
         rank = process_tt_rank(rank, tensor.shape, trim=True)
         drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
     else:
+        rank = process_tt_rank(rank, tensor.shape, trim=False)
         if tuple(drm.rank[::-1]) != rank:
             raise ValueError(
                 f"Right rank {rank} does not match the rank of the DRM "
@@ -117,6 +118,7 @@ def orthogonal_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
         if left_drm.rank != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
@@ -135,6 +137,7 @@ def orthogonal_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
@@ -193,6 +196,7 @@ def stream_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
         if left_drm.rank != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
@@ -213,6 +217,7 @@ def stream_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
-- 
2.43.0


From 0f80570e0b78a4d2ae2eca1ba49fe48b8d105efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 24/45] fix: GMRES compared the squared residual norm to the
 tolerance

The solver stopped when the relative residual was about the square root of the
requested tolerance.
---
 tt_sketch/tt_gmres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index d209ad5..53c6b4d 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -401,9 +401,10 @@ def tt_sum_gmres(
         H_red = H_matrix[: j + 2, : j + 1]
         e1 = np.zeros(j + 2)
         e1[0] = beta
-        y, (residual_norm,), _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        y = np.linalg.lstsq(H_red, e1, rcond=None)[0]
+        residual_norm = np.linalg.norm(H_red @ y - e1)
         history["step_time_with_res_norm"].append(perf_counter() - current_time)
-        history["residual_norm"].append(np.sqrt(residual_norm) / b_norm)
+        history["residual_norm"].append(residual_norm / b_norm)
         history["rank"].append(w_rounded.rank)
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
-- 
2.43.0


From e8aebee649a3bc1063cb66cb8732fa7767ec5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 25/45] fix: GMRES compared the preconditioned residual to the
 norm of the original RHS

The stopping criterion depended on the scaling of the preconditioner.
---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 53c6b4d..10e248f 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -352,7 +352,7 @@ def tt_sum_gmres(
 
     b_pr = precond(b) if precond is not None else b
 
-    b_norm = b.norm()
+    b_norm = b_pr.norm()
     initial_time = perf_counter()
     residual = b_pr - apply_A_pr(x0)
     residual_rounded = round_tt_sum(
-- 
2.43.0


From 2720fd42c39c9f6a98bdc3be8432f27b257167a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 26/45] fix: GMRES failed with NaN if the initial value is an
 exact solution

For example if the right-hand side is zero.
---
 tt_sketch/tt_gmres.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 10e248f..aff98fa 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -360,10 +360,22 @@ def tt_sum_gmres(
     )
     residual_norm = residual_rounded.norm()
     beta = residual_norm
+    history: Dict[str, Any] = defaultdict(list)
+    if beta == 0:  # x0 is already an exact solution
+        result_rounded = round_tt_sum(
+            TensorSum([x0]),
+            max_rank=final_round_rank,
+            method=rounding_method_final,
+        )
+        history["rank"].append(residual_rounded.rank)
+        history["residual_norm"].append(0.0)
+        history["step_time"].append(perf_counter() - initial_time)
+        history["total_time"] = perf_counter() - initial_time
+        return result_rounded, history
+
     nu_list: List[TensorTrain] = [residual_rounded / beta]
     H_matrix = np.zeros((maxiter + 1, maxiter))
 
-    history: Dict[str, Any] = defaultdict(list)
     history["w_norm"].append(nu_list[-1].norm())
     history["rank"].append(residual_rounded.rank)
     history["residual_norm"].append(residual_norm / b_norm)
-- 
2.43.0


From 9bfd7a1bc39959d4a32032ff38e1c4a9261678c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 27/45] fix: pairwise rounding of a sum with a single term did
 not round it

---
 tt_sketch/tt_gmres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index aff98fa..d5222be 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -281,6 +281,8 @@ def round_tt_sum(
         return tt.round(eps, max_rank)
     elif method == "pairwise":
         tt = tt_sum.tensors[0]
+        if tt_sum.num_summands == 1:
+            tt = tt.round(eps=eps, max_rank=max_rank)
         for t in tt_sum.tensors[1:]:
             tt = tt.add(t).round(eps=eps, max_rank=max_rank)
     elif method == "sketch":
-- 
2.43.0


From 5d973690ee4f3dde6706774e0648752fda3743a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 28/45] fix: increase_rank accepted ranks for which no sketch
 can be made or updated

---
 tt_sketch/sketch.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index c52343d..0316d59 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -328,6 +328,16 @@ class SketchedTensorTrain(Tensor):
                     f"Increasing rank is not supported for DRM {drm_name}"
                 )
 
+        left_ranks, right_ranks = np.array(new_left_rank), np.array(new_right_rank)
+        if not (
+            np.all(left_ranks > right_ranks) or np.all(left_ranks < right_ranks)
+        ):
+            raise ValueError(
+                f"Left ranks or right ranks must be conistently larger or "
+                f"smaller than the other. Left rank: {new_left_rank}, "
+                f"right rank: {new_right_rank}"
+            )
+
         n_dims = len(tensor.shape)
         left_rank_slices = [
             (0,) * (n_dims - 1),
-- 
2.43.0


From f4ecf549791ff4441fd24bccd7e46f5b6e4106e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 29/45] fix: sketching an empty sum of another shape than that
 of the DRM was accepted

---
 tt_sketch/sketch_dispatch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 8c78041..8a2e8c5 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -210,6 +210,12 @@ def general_sketch(
     Does the heavy lifting for both the streaming and orthogonal sketching
     algorithms."""
     n_dims = len(tensor.shape)
+    for drm in (left_drm, right_drm):
+        if drm is not None and tuple(drm.shape) != tuple(tensor.shape):
+            raise ValueError(
+                f"Shape {drm.shape} of DRM doesn't match tensor's shape "
+                f"{tensor.shape}"
+            )
 
     if method != SketchMethod.hmt:
         if left_drm is None:
-- 
2.43.0


From 46fce1e4f9855de413e891589b28c2c8059344e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:16 +0000
Subject: [PATCH 30/45] fix: slicing a DRM outside of its rank gave fewer rows
 than the rank it reports

---
 tt_sketch/drm_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index eb2d907..663d478 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -55,6 +55,15 @@ class DRM(ABC):
         self.rank = tuple(
             r2 - r1 for r1, r2 in zip(self.rank_min, self.rank_max)
         )
+        rank_bounds = list(zip(self.rank_min, self.rank_max, self.true_rank))
+        if not (
+            len(self.rank_min) == len(self.rank_max) == len(rank)
+            and all(0 <= r1 <= r2 <= r for r1, r2, r in rank_bounds)
+        ):
+            raise ValueError(
+                f"Rank slice {self.rank_min}, {self.rank_max} is not within "
+                f"rank {self.true_rank} of the DRM"
+            )
 
         self.shape = shape
         if seed is None:
-- 
2.43.0


From 354f1991049c22eea9fbdd53485d1078e435c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 31/45] fix: GMRES divided by zero if the right-hand side is
 zero and the initial value is not

---
 tt_sketch/tt_gmres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index d5222be..89b2ff7 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -355,6 +355,8 @@ def tt_sum_gmres(
     b_pr = precond(b) if precond is not None else b
 
     b_norm = b_pr.norm()
+    if b_norm == 0:  # there is no relative residual; use the absolute one
+        b_norm = 1.0
     initial_time = perf_counter()
     residual = b_pr - apply_A_pr(x0)
     residual_rounded = round_tt_sum(
-- 
2.43.0


From 75c3816b4358b337d0e234dfffb02a26d784b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 32/45] fix: random normal numbers of scalar shape

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 6938b35..da819a4 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -195,7 +195,7 @@ class MultithreadedRNG:
         ]
 
         self.shape = shape
-        n = np.prod(shape)
+        n = np.prod(shape, dtype=int)  # np.prod(()) is a float
         self.executor = concurrent.futures.ThreadPoolExecutor(threads)
         self.values = np.empty(n)
         self.step = np.ceil(n / threads).astype(np.int_)
-- 
2.43.0


From d4d44adfbe276b4ffd2602ca6ef125065e8ed61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 33/45] fix: seeded orthogonal and HMT sketches drew from
 numpy's global generator

---
 tt_sketch/sketch_dispatch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 8a2e8c5..2bbf5d5 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -179,7 +179,10 @@ class OrthogTTDRM:
 
     def __init__(self, rank, tensor):
         self.rank = rank
-        self.drm = TensorTrainDRM(rank, tensor.shape, transpose=False, cores=[])
+        # The cores are given, no random numbers are needed
+        self.drm = TensorTrainDRM(
+            rank, tensor.shape, transpose=False, seed=0, cores=[]
+        )
         self.generator = None
         self.tensor = tensor
         self.sketch_method = get_sketch_method(tensor, self.drm)
-- 
2.43.0


From ce2e151e9291689cc6641f0edfa3a1f490068182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 34/45] fix: hashed Gaussian entries could be infinite

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 3217552..4c13f80 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -46,6 +46,8 @@ cdef uint_to_normal(double[:] nums):
     cdef double x
     for i in range(N): #prange here messes stuff up when parallelizing
         x = frexp(nums[i], &e) * 2 - 1
+        if x == 0:  # ndtri(0) is infinite
+            x = 2.0**-53
         x = scipy.special.cython_special.ndtri(x)
         nums[i] = x
 
-- 
2.43.0


From a4ba6cbd66a967f3c0a93f22918c023dfcaf6506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 35/45] fix: hashed DRMs had equal rows if the index space
 exceeds 2^64

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 4c13f80..87bbef8 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -64,10 +64,17 @@ cpdef double[:] _inds_to_rand_double(
     cdef int n_dim = len(shape)
     cdef int rank = rank_max - rank_min
 
+    cdef uint64 MAX_UINT64 = 0xFFFFFFFFFFFFFFFF
     cdef uint64 prod = shape[0]
     cdef int i
     cdef int j
     for i in range(1,n_dim):
+        if shape[i] > 0 and prod > MAX_UINT64 // shape[i]:
+            # The index doesn't fit in 64 bits, so hash the part we have so far
+            # (twice, the columns are hashed once)
+            hash_int_c(indices_flat)
+            hash_int_c(indices_flat)
+            prod = 1
         for j in range(N):
             indices_flat[j] += indices[i,j] * prod
         prod *= shape[i]
-- 
2.43.0


From 148c7aa90736b367a29997e9ce68023c7fa201a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 36/45] fix: sparse sign DRM could swap with an entry outside
 of the row

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 87bbef8..6879f40 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -157,6 +157,8 @@ cdef short[:] _inds_to_sparse_sign(
         for j in range(nnz):
             # random int in [j,rank)
             rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j) + j) 
+            if rand_num >= rank:  # due to rounding
+                rand_num = rank - 1
             temp = sparse_sign[i*rank+j]
             sparse_sign[i*rank+j] = sparse_sign[i*rank+rand_num]
             sparse_sign[i*rank+rand_num]=temp
-- 
2.43.0


From 10db6806a0754de6258cfd5cb93141eca21ff411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:35 +0000
Subject: [PATCH 37/45] fix: pseudo-inverse products took round-off for
 singular values

---
 tt_sketch/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index da819a4..ea3da8d 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -94,8 +94,15 @@ def dematricize(A, mode, shape):
     return A
 
 
+def default_cond(A):
+    """Relative size below which a singular value of ``A`` is just round-off"""
+    return np.finfo(np.float64).eps * max(A.shape)
+
+
 def right_mul_pinv(A, B, cond=None):
     """Compute numerically stable product ``A@np.linalg.pinv(B)``"""
+    if cond is None:
+        cond = default_cond(B)
     lstsq = scipy.linalg.lstsq(B.T, A.T, cond=cond)
 
     return lstsq[0].T
@@ -103,6 +110,8 @@ def right_mul_pinv(A, B, cond=None):
 
 def left_mul_pinv(A, B, cond=None):
     """Compute numerically stable product ``np.linalg.pinv(A)@B``"""
+    if cond is None:
+        cond = default_cond(A)
     lstsq = scipy.linalg.lstsq(A, B, cond=cond)
 
     return lstsq[0]
-- 
2.43.0


From 1b967de90a140194a15194d94fc62381ff332bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 38/45] fix: core and first factor of a random Tucker tensor
 used the same seed

---
 tt_sketch/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index c505317..3f939a1 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -807,10 +807,10 @@ class TuckerTensor(Tensor):
         rank_tuple = tuple(min(r1, r2) for r1, r2 in zip(rank_tuple, shape))
 
         seq = SeedSequence(seed)
-        core_seed = seq.generate_state(1)[0]
+        # All seeds are different, so core and factors are independent
+        *seeds, core_seed = seq.generate_state(d + 1)
         core = random_normal(shape=rank_tuple, seed=core_seed)
         factors = []
-        seeds = seq.generate_state(d)
         for r, n, seed in zip(rank_tuple, shape, seeds):
             U = random_normal(shape=(r, n), seed=seed)
             U = np.linalg.qr(U.T)[0].T
-- 
2.43.0


From b6301c7d0be481b584b0f49580c9a371b66eeec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 39/45] fix: root mean square error of tensors whose number of
 entries exceeds 64 bits

---
 tt_sketch/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 3f939a1..7b061f9 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -76,7 +76,7 @@ class Tensor(ABC):
                 return np.inf
             error /= other_norm
         if rmse:
-            error /= np.sqrt(np.prod(self.shape))
+            error /= np.sqrt(np.prod(self.shape, dtype=float))
         return error
 
     @property
@@ -601,7 +601,7 @@ class TensorTrain(Tensor):
                     return np.inf
                 error /= other_norm
             if rmse:
-                error /= np.sqrt(np.prod(self.shape))
+                error /= np.sqrt(np.prod(self.shape, dtype=float))
             return error
         else:
             return super().error(other, relative=relative, rmse=rmse, fast=fast)
-- 
2.43.0


From 40dea584f99510e5a955e677b83261978196177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:17 +0000
Subject: [PATCH 40/45] fix: entries of sparse tensors whose index space numpy
 cannot enumerate

---
 tt_sketch/tensor.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 7b061f9..38dc569 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 from abc import ABC, abstractmethod, abstractproperty
 from copy import deepcopy
 from dataclasses import dataclass
+from math import prod
 from typing import (
     Iterable,
     List,
@@ -181,6 +182,24 @@ class DenseTensor(Tensor):
         return cls(random_normal(shape))
 
 
+def _flat_indices(
+    indices: Union[npt.NDArray, Tuple[npt.NDArray, ...]],
+    shape: Tuple[int, ...],
+) -> npt.NDArray:
+    """Row-major position of multi-indices; Python integers if ``numpy`` cannot
+    enumerate an array of this shape."""
+    dims = [int(n) for n in shape]
+    if len(dims) <= 32 and prod(dims) < 2**63:
+        return np.ravel_multi_index(tuple(indices), dims)
+    flat = np.zeros(len(indices[0]), dtype=object)
+    for ind, n in zip(indices, dims):
+        ind = np.asarray(ind)
+        if np.any((ind < 0) | (ind >= n)):
+            raise ValueError("invalid entry in coordinates array")
+        flat = flat * n + ind.astype(object)
+    return flat
+
+
 @dataclass
 class SparseTensor(Tensor):
     #: The shape of the tensor
@@ -276,7 +295,7 @@ class SparseTensor(Tensor):
         """
         Gathers the entries corresponding to the given indices.
         """
-        dense_indices = np.ravel_multi_index(indices, self.shape)
+        dense_indices = _flat_indices(indices, self.shape)
         out = np.zeros(len(dense_indices))
         dic = self.dict
         for i, ind in enumerate(dense_indices):
@@ -285,7 +304,7 @@ class SparseTensor(Tensor):
 
     @property
     def dict(self) -> Dict[int, float]:
-        dense_indices = np.ravel_multi_index(self.indices, self.shape)
+        dense_indices = _flat_indices(self.indices, self.shape)
         return {i: v for i, v in zip(dense_indices, self.entries)}
 
 
-- 
2.43.0


From 850a6315645a816796169cb9ce20f349b06f40b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:44 +0000
Subject: [PATCH 41/45] fix: rounding a train with a long mode needed memory
 quadratic in its size

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 38dc569..54980a3 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -490,7 +490,7 @@ class TensorTrain(Tensor):
                 C = np.einsum("ijk,kl->ijl", C, US_trunc)
             if mu > 0:
                 C_mat = C.reshape(C.shape[0], C.shape[1] * C.shape[2])
-                U, S, Vt = np.linalg.svd(C_mat)
+                U, S, Vt = np.linalg.svd(C_mat, full_matrices=False)
                 r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))
                 US_trunc = U[:, :r] @ np.diag(S[:r])
                 Vt_trunc = Vt[:r, :]
-- 
2.43.0


From 0c01a1bb623a2fc224fc5e8cc111602bd18db3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:38 +0000
Subject: [PATCH 42/45] fix: a reloaded experiment log repeated experiments
 with conditions such as None

---
 scripts/experiment_base.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index c5343e9..69de6da 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -3,12 +3,31 @@ from functools import reduce
 from os.path import isfile
 from typing import Callable, Dict, Optional, Any
 
+import numpy as np
 import pandas as pd
 from tt_sketch.sketch import stream_sketch, orthogonal_sketch, hmt_sketch
 from tt_sketch.tensor import Tensor, TensorTrain
 from tt_sketch.tt_svd import tt_svd
 
 
+def _read_log(filename: str) -> pd.DataFrame:
+    # Only empty cells are missing: "None", "NA", etc. are values of conditions.
+    return pd.read_csv(
+        filename,
+        keep_default_na=False,
+        na_values=[""],
+        float_precision="round_trip",
+    )
+
+
+def _same_value(cell, value) -> bool:
+    """Whether a (possibly reloaded) cell of the log stands for ``value``."""
+    try:
+        return float(cell) == float(value)
+    except (ValueError, TypeError):
+        return str(cell) == str(value)
+
+
 class Experiment:
     data: pd.DataFrame
     filename: str
@@ -23,7 +42,7 @@ class Experiment:
         self.filename = filename
         if data is None:
             if isfile(filename) and not force_overwrite:
-                data = pd.read_csv(filename)
+                data = _read_log(filename)
             else:
                 data = pd.DataFrame(columns=["name", "error", "time_taken"])
 
@@ -31,7 +50,7 @@ class Experiment:
 
     @classmethod
     def load(cls, filename):
-        data = pd.read_csv(filename)
+        data = _read_log(filename)
         return cls(filename, data)
 
     def save(self):
@@ -41,9 +60,12 @@ class Experiment:
         masks = []
         for column, value in conds.items():
             try:
-                masks.append(self.data[column] == value)
+                cells = self.data[column]
             except KeyError:
                 return False
+            masks.append(
+                np.array([_same_value(cell, value) for cell in cells], dtype=bool)
+            )
         mask = reduce(lambda x, y: x & y, masks)
         return mask.sum() > 0
 
-- 
2.43.0


From ccaf30b34fd13b0bcfee00026c3db29fae89abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:38 +0000
Subject: [PATCH 43/45] fix: every reload of an experiment log added a column
 with the row numbers

---
 scripts/experiment_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index 69de6da..8638d78 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -54,7 +54,7 @@ class Experiment:
         return cls(filename, data)
 
     def save(self):
-        self.data.to_csv(self.filename)
+        self.data.to_csv(self.filename, index=False)
 
     def check_experiment_done(self, conds):
         masks = []
-- 
2.43.0


From db5dfe376e90057227ccc5fd4ff3eaf07ed68bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:38 +0000
Subject: [PATCH 44/45] fix: an interrupted save lost all experiments of the
 log

---
 scripts/experiment_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index 8638d78..c6747c0 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -1,3 +1,4 @@
+import os
 import time
 from functools import reduce
 from os.path import isfile
@@ -54,7 +55,10 @@ class Experiment:
         return cls(filename, data)
 
     def save(self):
-        self.data.to_csv(self.filename, index=False)
+        # Write to another file first, so that an interrupted save loses nothing.
+        temporary = self.filename + ".tmp"
+        self.data.to_csv(temporary, index=False)
+        os.replace(temporary, self.filename)
 
     def check_experiment_done(self, conds):
         masks = []
-- 
2.43.0


From d0bd7229028beedc753102ed2fece8931f7860a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:14 +0000
Subject: [PATCH 45/45] fix: tt_sum_gmres divided by zero when the Krylov space
 is exhausted and the tolerance is zero

---
 tt_sketch/tt_gmres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 89b2ff7..3336827 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -425,7 +425,8 @@ def tt_sum_gmres(
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
 
-        if residual_norm / b_norm < tolerance:
+        # If the new basis vector is zero, the Krylov space can't grow any further
+        if residual_norm / b_norm < tolerance or H_matrix[j + 1, j] == 0:
             break
 
     # Compute final result and round
-- 
2.43.0

