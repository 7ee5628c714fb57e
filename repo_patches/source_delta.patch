From e993323a49204acd615cf96f9e7502ea67e76a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 01/74] fix: coverage of a 2-d rotation projection with several
 input dimensions

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 78564f9..a85ac6e 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1115,7 +1115,7 @@ class ProjectionOperator(SparseOperator):
                 ).ravel()
                 for i, d in zip(index, data):
                     if i >= 0:
-                        out[i] += d
+                        out.flat[i] += d
             else:
                 x = ones(shapein, self.dtype)
                 operation(out, self.T(x)[..., 0])
-- 
2.43.0


From 20218fe5da2b486fe1c4f7222b33521502ddda3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 02/74] fix: coverage of a projection whose blocks have one
 column

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a85ac6e..a317fd2 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1118,7 +1118,7 @@ class ProjectionOperator(SparseOperator):
                         out.flat[i] += d
             else:
                 x = ones(shapein, self.dtype)
-                operation(out, self.T(x)[..., 0])
+                operation(out, self.T(x).reshape(shapeout + (-1,))[..., 0])
         return out
 
     def pTx_pT1(self, x, out=None, operation=operation_assignment):
@@ -1192,7 +1192,7 @@ class ProjectionOperator(SparseOperator):
             if isinstance(self.matrix, FSRMatrix):
                 self.T(x, out=pTx, operation=operation)
             else:
-                operation(pTx, self.T(x)[..., 0])
+                operation(pTx, self.T(x).reshape(shapeout + (-1,))[..., 0])
         return pTx, pT1
 
 
-- 
2.43.0


From 2e57265394e9727853bbf5a7e9b6278f4d5ed6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 03/74] fix: kernel of a block projection

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a317fd2..1698d78 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1026,7 +1026,7 @@ class ProjectionOperator(SparseOperator):
             return out
 
         itype = data.dtype['index']
-        ftype = data.dtype[1]
+        ftype = self.matrix.dtype
         if itype.type in (np.int8, np.int16, np.int32, np.int64) and ftype.type in (
             np.float32,
             np.float64,
-- 
2.43.0


From c94aaaea7cf50e3e997c1d891c0a9e384214fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 04/74] fix: corestriction of a rotation projection to a subset
 of samples

---
 src/pysimulators/sparse.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index f3f8561..3cc44e5 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -903,11 +903,10 @@ class SparseOperator(SparseBase):
                 f'sparse storage.'
             )
         nrow = np.sum(mask)
-        mask_ = np.repeat(mask, self.matrix.block_shape[0])
         out = self.copy()
         out.matrix = type(self.matrix)(
             (nrow * self.matrix.block_shape[0], self.matrix.shape[1]),
-            data=self.matrix.data[mask_],
+            data=self.matrix.data.reshape(-1, self.matrix.ncolmax)[np.ravel(mask)],
         )
         if isinstance(self.matrix, FSRMatrix):
             out.broadcastable_shapeout = (nrow,)
-- 
2.43.0


From d21d5aaf0511bfc5a21c70ddebf86317208635e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 05/74] fix: restriction of a projection whose blocks have one
 column

---
 src/pysimulators/sparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 3cc44e5..e3af7e1 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -939,6 +939,8 @@ class SparseOperator(SparseBase):
             raise TypeError('The mask is not boolean.')
         if isinstance(self.matrix, FSRMatrix):
             block_shapein = self.broadcastable_shapein
+        elif self.matrix.block_shape[1] == 1:
+            block_shapein = self.shapein
         else:
             block_shapein = self.shapein[:-1]
         if mask.shape != block_shapein:
@@ -978,6 +980,8 @@ class SparseOperator(SparseBase):
             if self.shapein is not None:
                 ndims_in = len(self.broadcastable_shapein)
                 out.shapein = (ncol,) + self.shapein[ndims_in:]
+        elif matrix.block_shape[1] == 1:
+            out.shapein = (ncol,)
         else:
             out.shapein = (ncol, out.matrix.block_shape[1])
         if inplace:
-- 
2.43.0


From 508e98bcc0443172a10a4f4b118ade0061b34f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 06/74] fix: coverage of a single precision projection in
 double precision

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 1698d78..88b6daa 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1104,7 +1104,7 @@ class ProjectionOperator(SparseOperator):
             else:
                 shapein = self.shapeout
             if isinstance(self.matrix, FSRMatrix):
-                x = ones(shapein, self.dtype)
+                x = ones(shapein, out.dtype)
                 self.T(x, out=out, operation=operation)
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 if operation is operation_assignment:
-- 
2.43.0


From fe140c5fbddd2afe268d5a4d990bbb257e486f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 07/74] fix: kernel of 3-d rotation and block projections with
 unusual index types

---
 src/pysimulators/operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 88b6daa..ae564e8 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1054,8 +1054,12 @@ class ProjectionOperator(SparseOperator):
                 indices = data.index[data.value != 0]
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 indices = data.index[(data.r11 != 0) | (data.r21 != 0)]
+            elif isinstance(self.matrix, FSRBlockMatrix):
+                indices = data.index[np.any(data.value != 0, axis=(-2, -1))]
             else:
-                indices = data.index[data.r11 != 0]
+                indices = data.index[
+                    (data.r11 != 0) | (data.r22 != 0) | (data.r32 != 0)
+                ]
             n = product(shape)
             kernel = np.histogram(indices, n, range=(0, n))[0] == 0
         operation(out, kernel)
-- 
2.43.0


From 0bac05f562710bf4aa2dff7c59984f2a0d3d9d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 08/74] fix: shape of the product by a 3-d rotation matrix with
 unusual types

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index e3af7e1..54b5a92 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -765,7 +765,7 @@ class FSRRotation3dMatrix(_FSRotation3dMatrix):
             out_[i, 0] += np.sum(b.r11 * v[b.index, 0])
             out_[i, 1] += np.sum(b.r22 * v[b.index, 1] - b.r32 * v[b.index, 2])
             out_[i, 2] += np.sum(b.r32 * v[b.index, 1] + b.r22 * v[b.index, 2])
-        return out_
+        return out
 
     def _transpose(self):
         return FSCRotation3dMatrix(self.shape[::-1], data=self.data)
-- 
2.43.0


From 59104bdc508e1173be836f6e8b2923a8fae762fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 09/74] fix: missing number of samples in the calls to the
 pointing matrix routines

---
 src/pysimulators/operators.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index ae564e8..fa4603d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -644,7 +644,11 @@ class ProjectionBaseOperator(Operator):
         else:
             output_ = output
         flib.pointingmatrix.direct(
-            matrix.ravel().view(np.int64), input.T, output_.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input.T,
+            output_.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
         if not output.flags.contiguous:
             output[...] = output_
@@ -664,7 +668,11 @@ class ProjectionBaseOperator(Operator):
         else:
             input_ = input
         flib.pointingmatrix.transpose(
-            matrix.ravel().view(np.int64), input_.T, output.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input_.T,
+            output.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
 
     def set_attrin(self, attr):
@@ -744,6 +752,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         else:
             flib.pointingmatrix.backprojection_weight(
@@ -752,6 +761,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         return out
 
-- 
2.43.0


From 967b58093d9635be6a69c57bd9fe92c5bb44d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 10/74] fix: projection by an empty pointing matrix left its
 output uninitialised

---
 src/pysimulators/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index fa4603d..f2faad7 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -636,6 +636,7 @@ class ProjectionBaseOperator(Operator):
     def direct(self, input, output):
         matrix = self.matrix
         if matrix.size == 0:
+            output[...] = 0
             return
         if not output.flags.contiguous:
             if pyoperators.memory.verbose:
-- 
2.43.0


From 9f48790bee508308cdc05e57a10199d5027b2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 11/74] fix: projection of unobserved samples left its output
 uninitialised

---
 src/flib/module_pointingmatrix.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flib/module_pointingmatrix.f90 b/src/flib/module_pointingmatrix.f90
index 0fc7a6a..872d3e7 100644
--- a/src/flib/module_pointingmatrix.f90
+++ b/src/flib/module_pointingmatrix.f90
@@ -337,6 +337,8 @@ contains
         do isample = 1, nsamples
             if (pmatrix(isample)%index >= 0) then
                 timeline(isample) = map(pmatrix(isample)%index) * pmatrix(isample)%value
+            else
+                timeline(isample) = 0
             end if
         end do
         !$omp end parallel do
-- 
2.43.0


From 0a25f4ec890fcfe770fcefb4eb9f80aa0e550abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 12/74] fix: type of the normal matrix of a pointing matrix

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f2faad7..ab07446 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -711,9 +711,9 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         npixels = product(matrix.shape_input)
         if out is None:
-            out = empty((npixels, npixels), bool, description='for pTp array')
+            out = empty((npixels, npixels), float, description='for pTp array')
             out[...] = 0
-        elif out.dtype != np.bool_:
+        elif out.dtype != float:
             raise TypeError('The output ptp argument has an invalid type.')
         elif out.shape != (npixels, npixels):
             raise ValueError('The output ptp argument has an incompatible shap' 'e.')
-- 
2.43.0


From 9d2568945db00d3dfc3ad034e30ad4c69a6830cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 13/74] fix: use of a function removed from NumPy

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index ab07446..18faa5d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -774,7 +774,7 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         axes = (1,) + matrix.shape_input[:0:-1]
         index = np.array(fitscoords) - 1
-        index = int(np.sum(index * np.cumproduct(axes)))
+        index = int(np.sum(index * np.cumprod(axes)))
 
         shape = matrix.shape
         matrix_ = matrix.ravel().view(np.int64)
-- 
2.43.0


From 5342c0780d66b9db781f8a50be827eab3d48e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 14/74] fix: product of a diagonal operator by an in-memory
 projection

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 18faa5d..c0c0f52 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -873,7 +873,7 @@ class ProjectionInMemoryOperator(ProjectionBaseOperator):
             return
         matrix = self.matrix.copy()
         result = ProjectionInMemoryOperator(matrix)
-        matrix.value *= d.get_data()
+        matrix.value[..., 0] *= d.get_data()
         return result
 
 
-- 
2.43.0


From 902884a07e95cb802995ba2ef67f6722a743bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 15/74] fix: out of bounds access for unobserved samples in the
 normal matrix

---
 src/flib/pointingmatrix_old.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/pointingmatrix_old.f90 b/src/flib/pointingmatrix_old.f90
index fc984ed..0215bde 100644
--- a/src/flib/pointingmatrix_old.f90
+++ b/src/flib/pointingmatrix_old.f90
@@ -260,6 +260,7 @@ contains
         integer*8 :: isample
 
         do isample = 1, nsamples
+            if (matrix(isample)%index < 0) cycle
             array(matrix(isample)%index) = array(matrix(isample)%index) +    &
                                            matrix(isample)%value**2
         end do
-- 
2.43.0


From 1ce7a7f011dce07b34c74750445713b3f6c80a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 16/74] fix: mask argument of get_pTx_pT1

---
 src/pysimulators/operators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index c0c0f52..60cbbd8 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -744,12 +744,13 @@ class ProjectionBaseOperator(Operator):
                 out[0].unit = x.unit
         if matrix.size == 0:
             return out
-        mask = mask or getattr(x, 'mask', None)
+        if mask is None:
+            mask = getattr(x, 'mask', None)
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                x.mask.ravel().view(np.int8),
+                mask.ravel().view(np.int8),
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
-- 
2.43.0


From 886cebb05da2e7494532727b62cc102b73b26a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 17/74] fix: projection into a non-contiguous output

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 60cbbd8..c9d8c33 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -639,7 +639,7 @@ class ProjectionBaseOperator(Operator):
             output[...] = 0
             return
         if not output.flags.contiguous:
-            if pyoperators.memory.verbose:
+            if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
             output_ = np.empty_like(output)
         else:
-- 
2.43.0


From b85f1f4b86a0b558e257ed25dedc0da41c4700d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:25 +0000
Subject: [PATCH 18/74] fix: normal matrix of a projection with broadcast
 dimensions

---
 src/pysimulators/sparse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 54b5a92..6e1fd12 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -1026,9 +1026,10 @@ class SparseOperator(SparseBase):
             return
 
         m = self.matrix.data.ravel().view(np.int8)
-        data = np.zeros(self.shapein, dtype=self.dtype)
-        func(m, data.ravel())
-        return DiagonalOperator(data)
+        data = np.zeros(self.matrix.shape[1], dtype=self.dtype)
+        func(m, data)
+        nbroadcast = product(self.shapein) // data.size
+        return DiagonalOperator(np.repeat(data, nbroadcast).reshape(self.shapein))
 
 
 pyoperators.SparseOperator = SparseOperator
-- 
2.43.0


From 401441ffbbbf00d874bfa32616c0c43d9d0d9fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:25 +0000
Subject: [PATCH 19/74] fix: kernel of a projection with broadcast dimensions
 or into a non-contiguous output

---
 src/pysimulators/operators.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index c9d8c33..9188ff4 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1037,30 +1037,23 @@ class ProjectionOperator(SparseOperator):
             operation(out, True)
             return out
 
+        npixels = self.matrix.shape[1] // self.matrix.block_shape[1]
         itype = data.dtype['index']
         ftype = self.matrix.dtype
         if itype.type in (np.int8, np.int16, np.int32, np.int64) and ftype.type in (
             np.float32,
             np.float64,
         ):
-            if operation in (operation_assignment, operator.iand, operator.imul):
-                if operation is operation_assignment:
-                    out[...] = True
-                kernel = out
-            else:
-                kernel = np.ones_like(out)
-
+            kernel = np.ones(npixels, bool)
             f = f'fsr_kernel_i{int(itype.itemsize)}'
             func = getattr(flib.sparse, f)
             func(
                 data.view(np.int8).ravel(),
-                kernel.view(np.int8).ravel(),
+                kernel.view(np.int8),
                 self.matrix.ncolmax,
                 product(data.shape[:-1]),
                 data.strides[-1],
             )
-            if operation in (operation_assignment, operator.iand, operator.imul):
-                return out
         else:
             if isinstance(self.matrix, FSRMatrix):
                 indices = data.index[data.value != 0]
@@ -1072,9 +1065,9 @@ class ProjectionOperator(SparseOperator):
                 indices = data.index[
                     (data.r11 != 0) | (data.r22 != 0) | (data.r32 != 0)
                 ]
-            n = product(shape)
-            kernel = np.histogram(indices, n, range=(0, n))[0] == 0
-        operation(out, kernel)
+            kernel = np.histogram(indices, npixels, range=(0, npixels))[0] == 0
+        nbroadcast = product(shape) // npixels
+        operation(out, np.repeat(kernel, nbroadcast).reshape(shape))
         return out
 
     def pT1(self, out=None, operation=operation_assignment):
-- 
2.43.0


From 335cbabb355720a4ab7479dc1bd0c72d8588417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 20/74] fix: truncated exponential convolution of
 two-dimensional single precision signals

---
 src/pysimulators/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 9188ff4..a27dc18 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -417,10 +417,10 @@ def _ravel_strided(x):
         return x, 1, x.size, x.size
     if x.ndim != 2:
         raise NotImplementedError()
-    if x.strides[1] != 8:
+    if x.strides[1] != x.itemsize:
         raise ValueError('The array is not C-contiguous.')
-    shape_all = x.shape[0], x.strides[0] // 8
-    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (8,))
+    shape_all = x.shape[0], x.strides[0] // x.itemsize
+    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (x.itemsize,))
     return x_, x.shape[0], x.shape[1], shape_all[1]
 
 
-- 
2.43.0


From 08f365d42de15a916f3288a5c1a1e389479ff01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 21/74] fix: last sample of the in-place transposed truncated
 exponential convolution

---
 src/flib/module_operators.f90.j2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index 6ca75f7..e6cc7f9 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -499,6 +499,7 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
+        input(n) = v * input(n)
         do i = n - 1, 1, -1
             input(i) = w * input(i+1) + v * input(i)
         end do
-- 
2.43.0


From 4d626a206f3c69bfee8c1125ad84ed612361c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 22/74] fix: empty slices and slices with a stop value before
 the first element

---
 src/pysimulators/packedtables/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c292c0b..555d1f9 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -747,7 +747,7 @@ class PackedTable:
         if stop is None:
             stop = n if step > 0 else -1
         elif stop < 0:
-            stop = n + stop
+            stop = max(n + stop, -1)
         elif stop > n:
             stop = n
 
@@ -758,6 +758,8 @@ class PackedTable:
         size = int(np.ceil(extent / abs(step)))
         if size == n and step == 1:
             return Ellipsis
+        if size == 0:
+            return slice(0, 0, step)
 
         return slice(start, start + size * step, step)
 
-- 
2.43.0


From e7ab46e9f4216eaf347390b37e3e8844101f7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 23/74] fix: selections of packed tables with a negative step,
 or flat selections of an ordered table

---
 src/pysimulators/packedtables/core.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 555d1f9..146f591 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -181,11 +181,7 @@ class PackedTable:
 
     @property
     def _indexable(self):
-        # slice index with negative stop values cannot be used for indexing
-        index = self._index
-        if isinstance(index, slice) and index.stop < 0:
-            return slice(index.start, None, index.step)
-        return index
+        return self._slice2indexable(self._index)
 
     @property
     def removed(self):
@@ -308,6 +304,8 @@ class PackedTable:
 
     def __getitem__(self, selection):
         selection = self._normalize_selection(selection, (len(self),))
+        if isinstance(selection, tuple):
+            (selection,) = selection
         if selection is Ellipsis:
             return self
 
@@ -326,7 +324,7 @@ class PackedTable:
             index = slice(start, stop, step)
         else:
             index = self.index
-            index = index[selection]
+            index = index[self._slice2indexable(selection)]
 
         if isinstance(index, np.ndarray):
             index = self._normalize_int_selection(index, self._size_actual)
@@ -341,7 +339,7 @@ class PackedTable:
             except KeyError:
                 continue
             if isinstance(v, np.ndarray) and v.ndim > 0:
-                setattr(out, k, v[selection])
+                setattr(out, k, v[self._slice2indexable(selection)])
         return out
 
     def __str__(self):
@@ -763,9 +761,19 @@ class PackedTable:
 
         return slice(start, start + size * step, step)
 
+    @staticmethod
+    def _slice2indexable(s):
+        # slices with negative stop values cannot be used for indexing
+        if isinstance(s, slice) and s.stop < 0:
+            return slice(s.start, None, s.step)
+        return s
+
     def _selection2bool(self, selection):
         out = np.zeros(self._shape_actual, bool)
-        out[selection] = True
+        if isinstance(selection, tuple):
+            out[tuple(self._slice2indexable(_) for _ in selection)] = True
+        else:
+            out.reshape(-1)[self._slice2indexable(selection)] = True
         return out
 
 
-- 
2.43.0


From 47c9b61ed3b030659b0f873fc07a5d205012269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 24/74] fix: negative, repeated and out-of-range indices in the
 selection of a packed table

---
 src/pysimulators/packedtables/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 146f591..6df9e76 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -707,13 +707,15 @@ class PackedTable:
         return selection
 
     def _normalize_int_selection(self, s, n):
-        # all elements in the integer selection should be positive
+        if np.any((s < -n) | (s >= n)):
+            raise IndexError(f'The selection is out of bounds for size {n}.')
+        s = np.where(s < 0, s + n, s)
         size = s.size
         if size <= 1:
             return s
         start = s[0]
         step = s[1] - s[0]
-        if np.all(s == start + np.arange(size) * step):
+        if step != 0 and np.all(s == start + np.arange(size) * step):
             if size == n and step == 1:
                 return Ellipsis
             else:
-- 
2.43.0


From b3868016eea713254bde5e0560e2e540a7cf6e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 25/74] fix: selection of an empty packed table by a slice

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 6df9e76..1d9db2e 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -740,7 +740,7 @@ class PackedTable:
                 start = 0
         elif start >= n:
             if step > 0:
-                return slice(n - 1, n - 1, step)
+                return slice(0, 0, step)
             start = n - 1
 
         stop = s.stop
-- 
2.43.0


From 7034866fdc0dbf3557ef96eec3e64d138303d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 26/74] fix: projection into an output in Fortran order

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a27dc18..1444584 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -641,7 +641,7 @@ class ProjectionBaseOperator(Operator):
         if not output.flags.contiguous:
             if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
-            output_ = np.empty_like(output)
+            output_ = np.empty(output.shape, output.dtype)
         else:
             output_ = output
         flib.pointingmatrix.direct(
-- 
2.43.0


From 98dddfde08e978ce3b1f30db02fd96fb8c63f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 27/74] fix: get_pTx_pT1 with non-contiguous outputs

---
 src/pysimulators/operators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 1444584..3859465 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -746,13 +746,14 @@ class ProjectionBaseOperator(Operator):
             return out
         if mask is None:
             mask = getattr(x, 'mask', None)
+        out_ = tuple(np.ascontiguousarray(_) for _ in out)
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
                 mask.ravel().view(np.int8),
-                out[0].ravel(),
-                out[1].ravel(),
+                out_[0].ravel(),
+                out_[1].ravel(),
                 matrix.shape[-1],
                 matrix.size // matrix.shape[-1],
             )
@@ -760,11 +761,14 @@ class ProjectionBaseOperator(Operator):
             flib.pointingmatrix.backprojection_weight(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                out[0].ravel(),
-                out[1].ravel(),
+                out_[0].ravel(),
+                out_[1].ravel(),
                 matrix.shape[-1],
                 matrix.size // matrix.shape[-1],
             )
+        for o, o_ in zip(out, out_):
+            if not o.flags.contiguous:
+                o[...] = o_
         return out
 
     def intersects(self, fitscoords, axis=None, f=None):
-- 
2.43.0


From 44a0711815f4a71286f3e25b27fd48b0828316b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 28/74] fix: unpacking with repeated components left
 uninitialised values

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 1d9db2e..0f9219e 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -627,7 +627,7 @@ class PackedTable:
             out = np.empty(unpacked_shape, dtype=x.dtype).view(type(x))
             if out.__array_finalize__ is not None:
                 out.__array_finalize__(x)
-        if self._size_actual > len(self):
+        if index is not Ellipsis or self._size_actual > len(self):
             if missing_value is None:
                 missing_value = self._get_default_missing_value(x.dtype)
             out[...] = missing_value
-- 
2.43.0


From d9822bd34090ceebaaff8e55796f633828d480e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 29/74] fix: gather of a selection of a distributed table

---
 src/pysimulators/packedtables/core.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 0f9219e..f711d8f 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -503,7 +503,7 @@ class PackedTable:
         """
 
         def func(x):
-            x = np.asarray(x)
+            x = np.ascontiguousarray(x)
             out = np.empty((ntot,) + x.shape[1:], x.dtype)
             nbytes = product(x.shape[1:]) * int(x.itemsize)
             self.comm.Allgatherv(
@@ -515,15 +515,9 @@ class PackedTable:
             )
             return out
 
-        ntot = np.array(len(self))
-        self.comm.Allreduce(MPI.IN_PLACE, ntot, op=MPI.SUM)
-        counts = []
-        offsets = [0]
-        for s in split(ntot, self.comm.size):
-            n = s.stop - s.start
-            counts.append(n)
-            offsets.append(offsets[-1] + n)
-        offsets.pop()
+        counts = self.comm.allgather(len(self))
+        offsets = [sum(counts[:_]) for _ in range(len(counts))]
+        ntot = sum(counts)
 
         if len(args) == 1:
             return func(args[0])
-- 
2.43.0


From 81b63c008ff93ab9c75cf2edbe2445a6fe6d0cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 30/74] fix: communicator of a gathered table

---
 src/pysimulators/packedtables/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index f711d8f..197142a 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -525,6 +525,7 @@ class PackedTable:
             raise TypeError(f'gather takes at most 1 argument ({len(args)} given)')
 
         out = copy.copy(self)
+        object.__setattr__(out, 'comm', MPI.COMM_SELF)
         out._index = self._normalize_int_selection(
             func(self.index), product(self.shape[: self.ndim])
         )
-- 
2.43.0


From d8c074964f214414aed8b221d9d5c26654724328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 31/74] fix: distribution without observation or detector

---
 src/pysimulators/mpiutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index fb4fe0e..6910c22 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -107,11 +107,11 @@ def distribute_observation(detectors, observations, rank=None, comm=MPI.COMM_WOR
     nx = nobservations
 
     # number of detectors, grouped by the number of cpu cores
-    ny = int(np.ceil(ndetectors / nthreads))
+    ny = max(int(np.ceil(ndetectors / nthreads)), 1)
 
     # we start with the minimum blocksize and increase it until we find a
     # configuration that covers all the observations
-    blocksize = int(np.ceil(nx * ny / size))
+    blocksize = max(int(np.ceil(nx * ny / size)), 1)
     while True:
         # by looping over x first, we favor larger numbers of detectors and
         # fewer numbers of observations per processor, to minimise inter-
-- 
2.43.0


From 7ad36803d3e7d670221139d2af9d55a6813e52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 32/74] fix: scatter of a table with one component modified the
 table

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 197142a..eee7a02 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -466,7 +466,7 @@ class PackedTable:
             return self
 
         selection = split(len(self), comm.size, comm.rank)
-        out = self[selection]
+        out = copy.copy(self[selection])
         for k in out._special_attributes:
             if k in out._reserved_attributes:
                 continue
-- 
2.43.0


From d5928e62b7abcf4483895f91cd6980a3f1906893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 33/74] fix: units of fmin, fmax, remainder, clip, copysign,
 positive and float_power

The operands of fmin, fmax, remainder and clip were not converted to a
common unit, copysign had the unit of the quantity even if it is the
second operand, +q and the clip method lost the unit and float_power
did not raise it to the power.
---
 src/pysimulators/quantities.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index b5f69a0..1838334 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -30,6 +30,11 @@ if numpy_version < '2.2.0':
     np.vecmat = None
 
 
+try:
+    _CLIP_UFUNC = np._core.umath.clip
+except AttributeError:  # Numpy < 2
+    _CLIP_UFUNC = np.core.umath.clip
+
 _RE_UNIT = re.compile(r' *([/*])? *([a-zA-Z_"\']+|\?+)(\^-?[0-9]+(\.[0-9]*)?)? *')
 
 
@@ -98,7 +103,7 @@ FUNCTIONS = {
     ),
     np.broadcast_to: DEFAULT_CONVERSION,
     np.choose: ConversionType(ConversionInput.SECOND_SEQUENCE),
-    np.clip: DEFAULT_CONVERSION,
+    np.clip: ConversionType(ConversionInput.SEQUENCE),
     np.column_stack: ConversionType(ConversionInput.FIRST_SEQUENCE),
     np.compress: ConversionType(ConversionInput.SECOND),
     np.concat: ConversionType(ConversionInput.FIRST_SEQUENCE),
@@ -738,11 +743,14 @@ class Quantity(np.ndarray):
 
         if ufunc in (
             np.add,
-            np.clip,
+            _CLIP_UFUNC,
+            np.fmax,
+            np.fmin,
             np.fmod,
             np.hypot,
             np.maximum,
             np.minimum,
+            np.remainder,
             np.subtract,
         ):
             inputs, output_unit = self._get_inputs_with_common_units(inputs)
@@ -764,16 +772,13 @@ class Quantity(np.ndarray):
             np.conjugate,
             np.copysign,
             np.fabs,
-            np.float_power,
             np.floor,
-            np.fmax,
-            np.fmin,
-            np.hypot,
             np.negative,
+            np.positive,
             np.rint,
             np.trunc,
         ):
-            output_unit = self._unit
+            output_unit = input_units[0]
 
         elif ufunc is np.reciprocal:
             output_unit = _power_unit(input_units[0], -1)
@@ -787,7 +792,7 @@ class Quantity(np.ndarray):
         elif ufunc is np.square:
             output_unit = _power_unit(input_units[0], 2)
 
-        elif ufunc is np.power:
+        elif ufunc in (np.float_power, np.power):
             power = (
                 inputs[1].view(np.ndarray)
                 if isinstance(inputs[1], Quantity)
-- 
2.43.0


From 39320e5687d8538e19b80666c8880e6688f868a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 34/74] fix: infinite recursion when a quantity is a keyword
 argument of a NumPy function

The keyword arguments are now viewed as arrays, after the conversion to
the unit of the positional arguments of those which share it.
---
 src/pysimulators/quantities.py | 38 ++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 1838334..e1f3a11 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -230,6 +230,19 @@ FUNCTIONS = {
 }
 FUNCTIONS.pop(None, None)
 
+# keyword arguments which have the same unit as the quantity passed to the function
+HOMOGENEOUS_KEYWORDS = {
+    'a_max',
+    'a_min',
+    'append',
+    'constant_values',
+    'initial',
+    'max',
+    'mean',
+    'min',
+    'prepend',
+}
+
 
 def _extract_unit(string: str | UnitType) -> UnitType:
     """
@@ -507,7 +520,7 @@ class Quantity(np.ndarray):
         output_units = self._get_function_output_units(input_units, conversion)
 
         converted_inputs, kwargs = self._convert_function_inputs(
-            args, kwargs, output_units, conversion
+            args, kwargs, input_units, output_units, conversion
         )
         converted_inputs = self._view_function_inputs(converted_inputs, conversion)
         outputs = func(*converted_inputs, **kwargs)
@@ -569,12 +582,11 @@ class Quantity(np.ndarray):
         cls,
         arrays: Any,
         keywords: dict[str, Any],
+        input_units: tuple[UnitType, ...],
         output_units: UnitType | Sequence[UnitType],
         conversion: ConversionType,
     ) -> tuple[Any, ...]:
-        out = keywords.get('out')
-        if out is not None:
-            keywords['out'] = cls._view_function_input(out)
+        keywords = cls._convert_function_keywords(keywords, input_units)
 
         if conversion.action is not ConversionAction.SAME or conversion.input in (
             ConversionInput.FIRST,
@@ -634,6 +646,24 @@ class Quantity(np.ndarray):
             homogenized_args.append(array)
         return tuple(homogenized_args), keywords
 
+    @classmethod
+    def _convert_function_keywords(
+        cls, keywords: dict[str, Any], input_units: tuple[UnitType, ...]
+    ) -> dict[str, Any]:
+        common_unit = next((_ for _ in input_units if _), {})
+        converted_keywords = {}
+        for key, value in keywords.items():
+            if (
+                key in HOMOGENEOUS_KEYWORDS
+                and isinstance(value, Quantity)
+                and value._unit
+                and common_unit
+                and value._unit != common_unit
+            ):
+                value = value.tounit(common_unit)
+            converted_keywords[key] = cls._view_function_input(value)
+        return converted_keywords
+
     @classmethod
     def _view_function_inputs(
         cls, arrays: Any, conversion: ConversionType
-- 
2.43.0


From 3fc69829cee45bb1611f969e97408a0d8ef2f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 35/74] fix: cov and where called with a single quantity raised
 an IndexError

---
 src/pysimulators/quantities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index e1f3a11..54c9c26 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -513,6 +513,10 @@ class Quantity(np.ndarray):
         ufuncs when appropriate.
         """
         conversion = FUNCTIONS.get(func)
+        if func is np.cov and len(args) == 1:
+            conversion = ConversionType(action=ConversionAction.SQUARE)
+        elif func is np.where and len(args) == 1:
+            conversion = None
         if conversion is None:
             return super().__array_function__(func, types, args, kwargs)
 
-- 
2.43.0


From 0cc62dafcdcd0744494b548196fcafb4cdfd77f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 36/74] fix: the unit of an output quantity was not updated

An operation in place or in an existing quantity returned a new object
with the right unit, but the quantity itself kept its former unit.
---
 src/pysimulators/quantities.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 54c9c26..d953b94 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -523,14 +523,20 @@ class Quantity(np.ndarray):
         input_units = self._get_function_input_units(args, conversion)
         output_units = self._get_function_output_units(input_units, conversion)
 
-        converted_inputs, kwargs = self._convert_function_inputs(
+        converted_inputs, converted_kwargs = self._convert_function_inputs(
             args, kwargs, input_units, output_units, conversion
         )
         converted_inputs = self._view_function_inputs(converted_inputs, conversion)
-        outputs = func(*converted_inputs, **kwargs)
+        outputs = func(*converted_inputs, **converted_kwargs)
         if conversion.output is ConversionOutput.NONE:
             return None
 
+        out = kwargs.get('out')
+        if isinstance(out, Quantity) and isinstance(output_units, dict):
+            if output_units or any(isinstance(_, Quantity) for _ in args):
+                out._unit = output_units
+            return out
+
         converted_outputs = self._convert_function_outputs(
             outputs, output_units, conversion
         )
@@ -848,11 +854,10 @@ class Quantity(np.ndarray):
             output_unit = None
 
         # Process outputs if provided
-        # TODO: check me
         if out is not None:
             kwargs['out'] = tuple(
                 o.view(np.ndarray) if isinstance(o, Quantity) else o
-                for o in (out if isinstance(out, tuple) else (out,))
+                for o in out
             )
 
         # Call the ufunc
@@ -870,14 +875,22 @@ class Quantity(np.ndarray):
 
         # Handle tuple results (for ufuncs with multiple outputs)
         if isinstance(result, tuple):
-            return tuple(self._process_ufunc_result(r, output_unit) for r in result)
+            return tuple(
+                self._process_ufunc_result(r, output_unit, o)
+                for r, o in zip(result, out or len(result) * (None,))
+            )
 
-        return self._process_ufunc_result(result, output_unit)
+        return self._process_ufunc_result(
+            result, output_unit, None if out is None else out[0]
+        )
 
-    def _process_ufunc_result(self, result, output_unit):
+    def _process_ufunc_result(self, result, output_unit, out=None):
         """
         Process the result of a ufunc call, setting the appropriate unit.
         """
+        if isinstance(out, Quantity):
+            out._unit = output_unit
+            return out
         if np.isscalar(result):
             result = type(self)(result)
         else:
-- 
2.43.0


From d8b4895e9540e28e64dd56d66c1264fc51ff1a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 37/74] fix: conversion of a quantity with derived units
 broadcast leftward

The conversion factors were always aligned on the first dimensions of
the quantity: a ValueError was raised, or wrong values were returned.
---
 src/pysimulators/quantities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index d953b94..c5a1e56 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1115,6 +1115,11 @@ class Quantity(np.ndarray):
         else:
             q1 = Quantity(1.0, self._unit, self.derived_units).SI
             q2 = Quantity(1.0, newunit, self.derived_units).SI
+            if q1.ndim > 0 or q2.ndim > 0:
+                # broadcast the derived units over the whole quantity
+                ones = np.ones(self.shape)
+                q1 = Quantity(ones, self._unit, self.derived_units).SI
+                q2 = Quantity(ones, newunit, self.derived_units).SI
 
         if q1._unit != q2._unit:
             raise UnitError(
-- 
2.43.0


From 38f6a3c589d2fa8169cce748c976a8fafb9efffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 38/74] fix: the unit of the method dot was that of the first
 operand

---
 src/pysimulators/quantities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index c5a1e56..5dc2596 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1136,6 +1136,9 @@ class Quantity(np.ndarray):
             self.magnitude.T[:] *= factor.T
         self._unit = newunit
 
+    def dot(self, b, out=None):
+        return np.dot(self, b, out=out)
+
     @property
     def SI(self):
         """
-- 
2.43.0


From d7512fcaa2e16a0c07c721a6b577d8c05fda93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 39/74] fix: unsigned integer quantities were not upcast to
 float64

As documented and like the signed integers, otherwise their conversion
to another unit fails.
---
 src/pysimulators/quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 5dc2596..2c1461c 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -475,7 +475,7 @@ class Quantity(np.ndarray):
     ):
 
         data = np.asanyarray(data)
-        if dtype is None and data.dtype.kind == 'i':
+        if dtype is None and data.dtype.kind in 'iu':
             dtype = float
 
         # get a new Quantity instance (or a subclass if subok is True)
-- 
2.43.0


From d2980e401da85ed8ef69d9b67158f20a724fc7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 40/74] fix: rotate with integer coordinates or an output of
 another layout or type

The rotation matrix was truncated when the coordinates are integers, and
a ValueError was raised when the output is not contiguous or has not the
same type as the coordinates.
---
 src/pysimulators/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index ceaafd2..354bccf 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -302,10 +302,13 @@ def rotate(coords, angle, out=None):
     from pyoperators.utils import isalias
 
     coords = _np.asarray(coords)
+    if coords.dtype.kind not in 'fc':
+        coords = coords.astype(float)
     if out is None:
         out = _np.empty_like(coords)
     if (
         coords.dtype.char == 'd'
+        and out.dtype.char == 'd'
         and coords.flags.c_contiguous
         and out.flags.c_contiguous
     ):
@@ -325,7 +328,8 @@ def rotate(coords, angle, out=None):
     )
     if isalias(coords, out):
         coords = coords.copy()
-    return _np.dot(coords, m.T, out)
+    out[...] = _np.dot(coords, m.T)
+    return out
 
 
 def surface_simple_polygon(coords, out=None, dtype=float):
-- 
2.43.0


From c98fbbc5f8ad37ea77f30a17228f4a7d01dcda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 41/74] fix: grids and grid layouts with a shape given as a
 list raised a TypeError

---
 src/pysimulators/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 354bccf..90c5bfc 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -98,7 +98,7 @@ def create_grid(
 
     """
     if out is None:
-        out = _np.empty(shape + (2,))
+        out = _np.empty(tuple(shape) + (2,))
     _flib.geometry.create_grid(
         spacing, xreflection, yreflection, angle, center[0], center[1], out.T
     )
@@ -142,7 +142,7 @@ def create_grid_squares(
 
     """
     if out is None:
-        out = _np.empty(shape + (4, 2))
+        out = _np.empty(tuple(shape) + (4, 2))
     _flib.geometry.create_grid_squares(
         spacing,
         filling_factor,
-- 
2.43.0


From d9ffe767b808a92e4cedb82042a1e4c2c701fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 42/74] fix: bit patterns of the not-a-number and infinite
 constants

Those of module_math_old were 32-bit patterns and some of those of
module_math were one digit short: they were very small numbers instead.
The minimum of angles was always 1e-314 and the mean of no angle, or the
profile of an empty bin, was not NaN.
---
 src/flib/module_math.f90.j2  | 8 ++++----
 src/flib/module_math_old.f90 | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flib/module_math.f90.j2 b/src/flib/module_math.f90.j2
index 4eea029..5adf1ac 100644
--- a/src/flib/module_math.f90.j2
+++ b/src/flib/module_math.f90.j2
@@ -6,11 +6,11 @@ module module_math
     implicit none
 
     real(real32), parameter :: NAN_4  = real(z'FFFFFFFF', real32)
-    real(real32), parameter :: MINF_4 = real(z'FF700000', real32)
-    real(real32), parameter :: PINF_4 = real(z'7F700000', real32)
+    real(real32), parameter :: MINF_4 = real(z'FF800000', real32)
+    real(real32), parameter :: PINF_4 = real(z'7F800000', real32)
     real(real32), parameter :: PI_4 = 4._real32 * atan(1._real32)
-    real(real64), parameter :: NAN_8  = real(z'FFF800000000000', real64)
-    real(real64), parameter :: MINF_8 = real(z'FFF000000000000', real64)
+    real(real64), parameter :: NAN_8  = real(z'FFF8000000000000', real64)
+    real(real64), parameter :: MINF_8 = real(z'FFF0000000000000', real64)
     real(real64), parameter :: PINF_8 = real(z'7FF0000000000000', real64)
     real(real64), parameter :: PI_8 = 4._real64 * atan(1._real64)
 {% if PRECISION_REAL == 16 %}
diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 61df943..dd96840 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -49,9 +49,9 @@ module module_math_old
     !XXX should use ieee_arithmetic instead when gfortran implements it. So far, gfortran doesn't allow NaN, mInf, pInf conversion
     ! between different real kinds...
 #if PRECISION_REAL == 8
-    real(8), parameter :: NaN  = real(z'FFFFFFFF', 8)
-    real(8), parameter :: mInf = real(z'FFFF0000', 8)
-    real(8), parameter :: pInf = real(z'7FFF0000', 8)
+    real(8), parameter :: NaN  = real(z'7FF8000000000000', 8)
+    real(8), parameter :: mInf = real(z'FFF0000000000000', 8)
+    real(8), parameter :: pInf = real(z'7FF0000000000000', 8)
 #elif PRECISION_REAL == 16
     real(16), parameter :: NaN  = z'FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF'
     real(16), parameter :: mInf = z'FFFF0000000000000000000000000000'
-- 
2.43.0


From 5f30201d9c9549208d7d6d5f8f456c486155dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 43/74] fix: the angle between two equal or opposite directions
 could be NaN

Because of the rounding errors the argument of the arccosine could be
outside of [-1, 1].
---
 src/flib/module_math_old.f90 | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index dd96840..76ef9bc 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -505,8 +505,16 @@ contains
         real(p), intent(in)  :: lon1, lat1, lon2, lat2
         real(p), intent(out) :: angle
 
-        angle = acos(cos(lat1*DEG2RAD) * cos(lat2*DEG2RAD) * cos((lon2 - lon1)*DEG2RAD) + sin(lat1*DEG2RAD) * sin(lat2*DEG2RAD)) * &
-                RAD2DEG
+        real(p) :: cosangle
+
+        cosangle = cos(lat1*DEG2RAD) * cos(lat2*DEG2RAD) * cos((lon2 - lon1)*DEG2RAD) + sin(lat1*DEG2RAD) * sin(lat2*DEG2RAD)
+        ! the rounding errors may put it slightly out of the domain of acos
+        if (cosangle > 1._p) then
+            cosangle = 1._p
+        else if (cosangle < -1._p) then
+            cosangle = -1._p
+        end if
+        angle = acos(cosangle) * RAD2DEG
 
     end subroutine angle_lonlat
 
-- 
2.43.0


From e399a0309e1a38034e58d901f1c025c9d4a09ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 44/74] fix: angles between incompatible numbers of vectors
 read outside the arrays

---
 src/pysimulators/wcsutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 9e94496..823123c 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -58,6 +58,8 @@ def angle_lonlat(lon1, lat1, lon2=None, lat2=None):
     lat1 = np.asarray(lat1, float)
     lon2 = np.asarray(lon2, float)
     lat2 = np.asarray(lat2, float)
+    if lon1.size != lon2.size and 1 not in (lon1.size, lon2.size):
+        raise ValueError('The numbers of first and second vectors are incompatible.')
     angle = flib.wcsutils.angle_lonlat(
         lon1.ravel(), lat1.ravel(), lon2.ravel(), lat2.ravel()
     )
-- 
2.43.0


From 5e65f3ed90fd49285c33db0b6fa82d183eaeb9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 45/74] fix: profile with very narrow bins wrote outside of the
 arrays

The bin number of the pixels overflowed.
---
 src/flib/datautils.f90.j2 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flib/datautils.f90.j2 b/src/flib/datautils.f90.j2
index 3dc91d8..9d6ff4e 100644
--- a/src/flib/datautils.f90.j2
+++ b/src/flib/datautils.f90.j2
@@ -139,8 +139,10 @@ contains
               val = array(i,j)
               if (val /= val) cycle
               distance = sqrt((i - origin(1))**2 + tmpj)
+              ! also discard what cannot be converted into an integer
+              if (.not. (distance / bin < nbins)) cycle
               ibin = int(distance / bin) + 1
-              if (ibin > nbins) cycle
+              if (ibin < 1) cycle
               x(ibin) = x(ibin) + distance
               y(ibin) = y(ibin) + val
               n(ibin) = n(ibin) + 1
-- 
2.43.0


From 30d1e3bfa63a54db05875bf872b061028130d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 46/74] fix: profile_psd2 was not centered on the zero
 frequency

The coordinates of the center are zero-based.
---
 src/pysimulators/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3d08ba6..144c9d3 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -563,6 +563,6 @@ def profile_psd2(array, sampling_frequency=1, fftw_flag='FFTW_MEASURE'):
     if array.shape[0] != array.shape[1]:
         raise ValueError('The input array is not square.')
     psd = psd2(array, sampling_frequency=sampling_frequency, fftw_flag=fftw_flag)
-    x, y = profile(psd, center=array.shape // np.array(2) + 1)
+    x, y = profile(psd, center=array.shape // np.array(2))
     x *= sampling_frequency / array.shape[1]
     return x, y
-- 
2.43.0


From ef78944735f02048857475e678d5a8427012985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 47/74] fix: distance maps of three dimensions, of integers or
 in a strided output

distance2 failed with three dimensions, and distance and distance2 with
integers or an output that is not contiguous.
---
 src/pysimulators/datautils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 144c9d3..cc9006c 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -127,7 +127,7 @@ def distance(shape, center=None, scale=1, dtype=float, out=None):
     ndim = out.ndim
     dtype = float_intrinsic_dtype(out.dtype)
 
-    if ndim in (1, 2) and dtype != out.dtype:
+    if ndim in (1, 2) and (dtype != out.dtype or not out.flags.c_contiguous):
         out_ = np.empty(shape, dtype)
     else:
         out_ = out
@@ -150,7 +150,7 @@ def distance(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance_slow(shape, center, scale, dtype, out)
-    return Map(out, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, unit=unit)
 
 
 def _distance_slow(shape, center, scale, dtype, out=None):
@@ -171,7 +171,11 @@ def _distance_slow(shape, center, scale, dtype, out=None):
         (s * (a.astype(dtype) - o)) ** 2
         for a, o, s in zip(d, center[::-1], scale[::-1])
     ]
-    return np.sqrt(sum(d), out)
+    d = np.sqrt(sum(d))
+    if out is None:
+        return d
+    out[...] = d
+    return out
 
 
 def distance2(shape, center=None, scale=1, dtype=float, out=None):
@@ -210,7 +214,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
     ndim = out.ndim
     dtype = float_intrinsic_dtype(out.dtype)
 
-    if ndim in (1, 2) and dtype != out.dtype:
+    if ndim in (1, 2) and (dtype != out.dtype or not out.flags.c_contiguous):
         out_ = np.empty(shape, dtype)
     else:
         out_ = out
@@ -233,7 +237,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance2_slow(shape, center, scale, dtype, out)
-    return Map(out, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, unit=unit)
 
 
 def _distance2_slow(shape, center, scale, dtype, out=None):
@@ -259,7 +263,7 @@ def _distance2_slow(shape, center, scale, dtype, out=None):
     if len(d) == 1:
         out[...] = d[0]
         return out
-    np.sum(sum(d[:-1]), d[-1], out)
+    out[...] = sum(d)
     return out
 
 
-- 
2.43.0


From d45441523710f95a15ec6ef7a97fdda4101876ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 48/74] fix: circular apertures of integers or booleans, or
 with units

The squared distances were computed with the type of the mask and had
not the squared unit of the scale.
---
 src/pysimulators/datautils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index cc9006c..2e4c638 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -86,9 +86,8 @@ def aperture_circular(shape, diameter, center=None, scale=1, dtype=float):
         The output data type.
 
     """
-    array = distance2(shape, center=center, scale=scale, dtype=dtype)
-    array[...] = array <= (diameter / 2) ** 2
-    return array
+    array = distance2(shape, center=center, scale=scale)
+    return Map(array <= (diameter / 2) ** 2, dtype=dtype)
 
 
 def distance(shape, center=None, scale=1, dtype=float, out=None):
@@ -193,7 +192,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
         is the array center.
     scale : float or array-like, optional
         Inter-pixel distance (dx, dy, ...). If scale is a Quantity, its
-        unit will be carried over to the returned distance array
+        squared unit will be carried over to the returned array
     dtype : np.dtype, optional
         The output data type.
 
@@ -208,7 +207,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
     """
     shape = tointtuple(shape)
     dtype = np.dtype(dtype)
-    unit = getattr(scale, '_unit', None)
+    unit = {k: 2 * v for k, v in getattr(scale, '_unit', {}).items()}
     if out is None:
         out = np.empty(shape, dtype)
     ndim = out.ndim
-- 
2.43.0


From 471dee1edad27132eb4c1fe50f552bb838980558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 49/74] fix: integer quantities created with copy=False raised
 a ValueError with NumPy 2

---
 src/pysimulators/quantities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 2c1461c..2cfcfb5 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -475,6 +475,8 @@ class Quantity(np.ndarray):
     ):
 
         data = np.asanyarray(data)
+        if not copy and numpy_version >= '2.0.0':
+            copy = None  # a copy is made if required by the upcast
         if dtype is None and data.dtype.kind in 'iu':
             dtype = float
 
-- 
2.43.0


From f84a34e2879ba3793bc9b341761a67cf1a54c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 50/74] fix: black body operators with an array of emissivity
 slopes raised a TypeError

---
 src/pysimulators/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 3859465..453a31a 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -316,7 +316,9 @@ class BlackBodyOperator(DiagonalOperator):
             nu0 = c / np.asarray(wavelength0, float)
         if nu.ndim != 0:
             raise TypeError('The operating frequency or wavelength is not a sc' 'alar.')
-        beta = float(beta)
+        beta = np.asarray(beta, float)
+        if beta.ndim == 0:
+            beta = float(beta)
         data = (
             (nu / nu0) ** (3 + beta)
             * np.expm1(h * nu0 / (k * temperature))
-- 
2.43.0


From ca2e4fa6ff5b523449a72e41fae3a186c27774cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 51/74] fix: black body operators accepted an array of
 reference frequencies

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 453a31a..d31b3d0 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -314,8 +314,8 @@ class BlackBodyOperator(DiagonalOperator):
             nu0 = np.asarray(frequency0, float)
         else:
             nu0 = c / np.asarray(wavelength0, float)
-        if nu.ndim != 0:
-            raise TypeError('The operating frequency or wavelength is not a sc' 'alar.')
+        if nu0.ndim != 0:
+            raise TypeError('The reference frequency or wavelength is not a scalar.')
         beta = np.asarray(beta, float)
         if beta.ndim == 0:
             beta = float(beta)
-- 
2.43.0


From dc7711472d392710a38be960c10622d822411c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 52/74] fix: horizontal coordinates with a list of longitudes
 raised a TypeError

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index d31b3d0..18fc44d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1341,7 +1341,7 @@ class _CartesianEquatorialHorizontal(DenseBlockDiagonalOperator):
                 f'Invalid azimuth angle convention {convention!r}. Expected values are '
                 f'{strenum(conventions)}.'
             )
-        lst = self._gst2lst(self._jd2gst(time.jd), longitude)
+        lst = self._gst2lst(self._jd2gst(time.jd), np.asarray(longitude))
         lst = np.radians(lst * 15)
         latitude = np.radians(latitude)
         if dtype is None:
-- 
2.43.0


From 847d6d9946a10ee0d61bd22c80cbba61b959b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 53/74] fix: input shape of the operands stacked by
 block_diagonal

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 18fc44d..360a9db 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -200,7 +200,7 @@ def block_diagonal(*partition_args, **keywords):
                 if a is not None:
                     s[a] = p
                 else:
-                    np.delete(s, na)
+                    del s[na]
                 return tuple(s)
 
             if 'shapein' in keywords:
-- 
2.43.0


From 7ad8d0a9c7f4a7aa53f341fcc10ccdcd14ff2599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 54/74] fix: data type of the transpose of the galactic
 coordinate operators

---
 src/pysimulators/operators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 360a9db..adf6eea 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1283,7 +1283,9 @@ class CartesianEquatorial2GalacticOperator(_CartesianEquatorialGalactic):
 
     def __init__(self, **keywords):
         _CartesianEquatorialGalactic.__init__(self, self._g2e.T, **keywords)
-        self.set_rule('T', lambda s: CartesianGalactic2EquatorialOperator())
+        self.set_rule(
+            'T', lambda s: CartesianGalactic2EquatorialOperator(dtype=s.dtype)
+        )
         self.set_rule(
             ('.', CartesianGalactic2EquatorialOperator), '1', CompositionOperator
         )
@@ -1325,7 +1327,9 @@ class CartesianGalactic2EquatorialOperator(_CartesianEquatorialGalactic):
 
     def __init__(self, **keywords):
         _CartesianEquatorialGalactic.__init__(self, self._g2e, **keywords)
-        self.set_rule('T', lambda s: CartesianEquatorial2GalacticOperator())
+        self.set_rule(
+            'T', lambda s: CartesianEquatorial2GalacticOperator(dtype=s.dtype)
+        )
         self.set_rule(
             ('.', CartesianEquatorial2GalacticOperator), '1', CompositionOperator
         )
-- 
2.43.0


From b1911dd748f8aabd015ae384506d9ec9ab9892b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 55/74] fix: conversions modified the derived units of the
 quantity

The derived unit was made to contain itself, and the subsequent selection
of an item raised a RecursionError.
---
 src/pysimulators/quantities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 2cfcfb5..2947ba6 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1295,9 +1295,12 @@ def _get_du(input, key, derived_units):
         du = du(input)
     if du is None:
         return None, None
+    # do not modify the quantity stored in the derived units
     if hasattr(input, '_header'):
         du = du.view(type(input))
         du._header = input._header
+    else:
+        du = du.view()
     du._derived_units = input._derived_units
     return du, broadcast
 
-- 
2.43.0


From b2b707108d4ea4143fad2399ac6b85f3ed16a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 56/74] fix: selection of the items of a quantity with
 broadcastable derived units

The derived units were not selected as the values with an ellipsis, a list
or a new axis, and those that become scalar lost their unit.
---
 src/pysimulators/quantities.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 2947ba6..85bd654 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -925,20 +925,19 @@ class Quantity(np.ndarray):
         if self.dtype.kind == 'V' and isinstance(key, str):
             return item.view(Quantity)
 
-        if isinstance(key, list):
-            key = tuple(key)
-
         if not isinstance(key, tuple):
             key = (key,)
 
         # Replace Ellipsis with ':'
-        try:
-            pos = key.index(Ellipsis)
-            key = key[:pos] + (self.ndim - len(key)) * (slice(None),) + key[pos + 1 :]
-        except ValueError:
-            pass
+        pos = len(key)
+        for i, k in enumerate(key):
+            if k is Ellipsis:
+                pos = i
+        ndim = sum(k is not None and k is not Ellipsis for k in key)
+        key = key[:pos] + (self.ndim - ndim) * (slice(None),) + key[pos + 1 :]
 
-        key += (self.ndim - len(key)) * (slice(None),)
+        # position of the keys that select along the dimensions
+        dims = [i for i, k in enumerate(key) if k is not None]
 
         # update the broadcastable derived units
         du = None
@@ -951,9 +950,11 @@ class Quantity(np.ndarray):
             # the derived unit is broadcastable, let's update it
             broadcast = d[pos + 1 : -1]
             if broadcast == 'leftward':
-                v = v[key[-v.ndim :]]
+                k = key[dims[-v.ndim] :]
             else:
-                v = v[key[: v.ndim]]
+                k = key[: dims[v.ndim - 1] + 1]
+            # the ellipsis ensures that the derived unit remains a quantity
+            v = v[k + (Ellipsis,)]
 
             if du is None:
                 du = item._derived_units.copy()
-- 
2.43.0


From 085e4eb39fd244bfd1ed0141a66fac6980edd827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 57/74] fix: Nyquist frequency of the folded power spectrum
 density

---
 src/pysimulators/noises.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index e5392ea..036690e 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -19,8 +19,10 @@ def _fold_psd(p):
     n = p.shape[-1] // 2 + 1
     out = empty(p.shape[:-1] + (n,))
     out[..., 0] = p[..., 0]
-    np.multiply(p[..., 1 : n - 1], 2, out[..., 1:-1])
-    out[..., -1] = p[..., n]
+    np.multiply(p[..., 1:n], 2, out[..., 1:])
+    if p.shape[-1] % 2 == 0:
+        # the Nyquist frequency has no negative counterpart
+        out[..., -1] = p[..., n - 1]
     return out
 
 
-- 
2.43.0


From 0fc459004fe2bcae19100b21bc3aa7b5890c843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 58/74] fix: power spectrum density of samplings with an odd
 number of samples

---
 src/pysimulators/noises.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index 036690e..44f553f 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -140,11 +140,9 @@ def _sampling2psd(sampling, sampling_frequency, fftw_flag='FFTW_MEASURE'):
         np.abs(fft.fft(sampling, axis=-1, planner_effort=fftw_flag, threads=nthreads))
         ** 2
     )
-    freq = np.fft.fftfreq(n, d=1 / sampling_frequency)[: n // 2 + 1]
-    freq[-1] += sampling_frequency
-    psd = np.concatenate([[0.0], 2 * psd[1 : n // 2], [psd[n // 2]]]) / (
-        n * sampling_frequency
-    )
+    freq = np.arange(n // 2 + 1, dtype=float) * (sampling_frequency / n)
+    psd[0] = 0
+    psd = _fold_psd(psd) / (n * sampling_frequency)
     return freq, psd
 
 
-- 
2.43.0


From f33c544bafe4d5b92606418affae3627a9cf2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 59/74] fix: noise realization of an odd number of samples from
 a PSD

---
 src/pysimulators/instruments.py |  3 +++
 src/pysimulators/noises.py      | 24 +++++++++++++++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 347d769..9da205f 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -326,6 +326,9 @@ class Instrument:
             # log-log interpolation of one-sided PSD
             f = np.arange(n // 2 + 1, dtype=float) * (sampling_frequency / n)
             p = _logloginterp_psd(f, bandwidth, psd)
+            if n % 2 == 1:
+                # the last frequency is not the Nyquist frequency
+                p[..., -1] *= 2
 
         # looping over the detectors
         for out_ in out:
diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index 44f553f..a75490c 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -26,15 +26,25 @@ def _fold_psd(p):
     return out
 
 
-def _unfold_psd(p):
-    """Convert one-sided PSD into even two-sided PSD."""
+def _unfold_psd(p, size=None):
+    """
+    Convert one-sided PSD into even two-sided PSD.
+
+    The number of elements of the two-sided PSD is assumed to be even if it is
+    not specified.
+
+    """
     p = np.asarray(p)
     n = p.shape[-1]
-    out = empty(p.shape[:-1] + (2 * (n - 1),))
+    if size is None:
+        size = 2 * (n - 1)
+    out = empty(p.shape[:-1] + (size,))
     out[..., 0] = p[..., 0]
-    np.multiply(p[..., 1 : n - 1], 0.5, out[..., 1 : n - 1])
-    out[..., n - 1] = p[..., n - 1]
-    out[..., n:] = out[..., n - 2 : 0 : -1]
+    np.multiply(p[..., 1:n], 0.5, out[..., 1:n])
+    if size % 2 == 0:
+        # the Nyquist frequency has no negative counterpart
+        out[..., n - 1] = p[..., n - 1]
+    out[..., n:] = out[..., size - n : 0 : -1]
     return out
 
 
@@ -114,7 +124,7 @@ def _gaussian_sample(
         out = empty(psd.shape[:-1] + (nsamples,))
 
     if not twosided:
-        psd = _unfold_psd(psd)
+        psd = _unfold_psd(psd, nsamples)
 
     shape = psd.shape[:-1] + (nsamples,)
     gauss = np.random.randn(*shape)
-- 
2.43.0


From 5c7af1f73bef9487c4f5201a736721e1d9664bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 60/74] fix: the operator of an acquisition raised a
 NotImplementedError

---
 src/pysimulators/acquisitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 40bc987..48f4201 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -237,7 +237,7 @@ class Acquisition:
                             self.instrument.get_operator(self.sampling[b], self.scene)
                             for b in self.block
                         ],
-                        axisin=1,
+                        axisout=1,
                     ),
                     self.scene.get_distribution_operator(self.comm),
                 ]
-- 
2.43.0


From 86520716bb38b46408698bb41a4d652efad5c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 61/74] fix: restricted acquisitions kept the operator of the
 original

---
 src/pysimulators/acquisitions.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 48f4201..ef51538 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -2,7 +2,6 @@
 # All rights reserved
 
 
-import gc
 import operator
 from copy import copy
 
@@ -162,10 +161,7 @@ class Acquisition:
         if all(is_colon(_) for _ in x):
             return out
 
-        if any(not is_colon(_) for _ in x):
-            self._operator = None
-            gc.collect()
-
+        out._operator = None
         out.instrument = self.instrument[x[0]]
         if not is_colon(x[0]):
             object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
-- 
2.43.0


From 47f71b9f0d5b49f2702b02fae7f136e51a64e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 62/74] fix: arguments of the pack and unpack methods of the
 acquisitions were ignored

---
 src/pysimulators/acquisitions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index ef51538..3be01bc 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -185,12 +185,14 @@ class Acquisition:
     __repr__ = __str__
 
     def pack(self, x, out=None, copy=False):
-        return self.instrument.detector.pack(x)
+        return self.instrument.detector.pack(x, out=out, copy=copy)
 
     pack.__doc__ = Layout.pack.__doc__
 
     def unpack(self, x, out=None, missing_value=None, copy=False):
-        return self.instrument.detector.unpack(x)
+        return self.instrument.detector.unpack(
+            x, out=out, missing_value=missing_value, copy=copy
+        )
 
     unpack.__doc__ = Layout.unpack.__doc__
 
-- 
2.43.0


From 0dcdaaaf57426b215d758d1a1b95e41080e135df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 63/74] fix: get_observation with an operation raised a
 ValueError

---
 src/pysimulators/acquisitions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 3be01bc..560f99f 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -216,8 +216,14 @@ class Acquisition:
             operation(out, get_observation(x))
 
         """
+        if operation is not operation_assignment:
+            if out is None:
+                raise ValueError('The output buffer is not specified.')
+            operation(out, self.get_observation(x, noiseless=noiseless))
+            return out
+
         H = self.get_operator()
-        out = H(x, out, operation=operation)
+        out = H(x, out)
         if not noiseless:
             self.get_noise(out, operation=operator.iadd)
         return out
-- 
2.43.0


From a04b8bae6b4585d1ad4f2ea336eb413e5f4b4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 64/74] fix: create_fitsheader failed when the CD matrix is
 specified

---
 src/pysimulators/wcsutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 823123c..0354c3a 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -283,9 +283,9 @@ def create_fitsheader(
         if pa is None:
             pa = 0.0
         theta = np.deg2rad(-pa)
-    cd = np.diag(cdelt).dot(
-        np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
-    )
+        cd = np.diag(cdelt).dot(
+            np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
+        )
 
     crval = np.asarray(crval, float)
     if crval.size != 2:
-- 
2.43.0


From b903a35a0bef7977d703e866272069b8800c43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 65/74] fix: the filters of all the blocks were used for each
 block of MADMAP1 observations

---
 src/pysimulators/interfaces/madmap1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6734d81..6bbeb04 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -125,11 +125,11 @@ class MadMap1Observation(Acquisition):
         ops = [
             SymmetricBandToeplitzOperator(
                 (len(self.instrument), b.n),
-                self._filters,
+                filters,
                 fftw_flag=fftw_flag,
                 nthreads=nthreads,
             )
-            for b in self.block
+            for b, filters in zip(self.block, self._filters)
         ]
         return BlockDiagonalOperator(ops, axisin=-1)
 
-- 
2.43.0


From 602e744778843421de96aa809a4b315cfd1854b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 66/74] fix: indices and weights of the MADMAP1 pointing
 matrices were swapped

---
 src/pysimulators/interfaces/madmap1.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6bbeb04..d3efd58 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -196,7 +196,9 @@ class MadMap1Observation(Acquisition):
                 p = PointingMatrix.empty(
                     (ndetectors, b.n, npps), self.info.npixels_in_map
                 )
-                p[...] = data['matrix']
+                # structured arrays are assigned by position, not by name
+                p['index'] = data['matrix']['index']
+                p['value'] = data['matrix']['value']
                 pmatrix.append(p)
         return tod, pmatrix
 
-- 
2.43.0


From 16190daf9f7f732f1d9ad2652587288b61387f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:35 +0000
Subject: [PATCH 67/74] fix: data race in the computation of the kernel of
 projection operators

---
 src/flib/sparse.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index fe07265..cc37e16 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -528,7 +528,7 @@ contains
         integer(int32), pointer :: val(:)
         integer(int64) :: i, j, pos
 
-        !$omp parallel do private(k, pos)
+        !$omp parallel do private(k, pos, val)
         do i = 1, m
             do j = 1, ncolmax
                 pos = ((i - 1) * ncolmax + j - 1) * stride
-- 
2.43.0


From a7dc4376c2c1a12b3c3e423331758b3de061b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:40 +0000
Subject: [PATCH 68/74] fix: time-ordered data made from a masked array without
 mask could not be sliced or reshaped

---
 src/pysimulators/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index f77288a..bb5567c 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1085,6 +1085,8 @@ class Tod(FitsArray):
             if not isinstance(mask, np.ndarray) or mask.dtype != bool:
                 copy = True
             result._mask = np.array(mask, np.bool_, copy=copy)
+        elif result._mask is np.ma.nomask:
+            result._mask = None
 
         return result
 
-- 
2.43.0


From f43769082523da258d4f29a870b7f00059486353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 69/74] fix: blocks of acquisitions restricted to a selection
 of samplings

---
 src/pysimulators/acquisitions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 560f99f..7469803 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -165,9 +165,13 @@ class Acquisition:
         out.instrument = self.instrument[x[0]]
         if not is_colon(x[0]):
             object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
-        out.sampling = self.sampling[x[1]]  # XXX FIX BLOCKS!!!
+        out.sampling = self.sampling[x[1]]
         if not is_colon(x[1]):
             object.__setattr__(out.sampling, 'comm', MPI.COMM_SELF)
+            n = len(out.sampling)
+            starts = [b.indices(n)[0] for b in self.block]
+            starts = [0] + [s for s in starts[1:] if s < n]
+            out.block = tuple(slice(*b) for b in zip(starts, starts[1:] + [n]))
         out.scene = self.scene[x[2]]
 
         if not is_colon(x[0]) and not is_colon(x[1]):
-- 
2.43.0


From bd555dc8a443ab2a9b17b327a83472efcc2e8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 70/74] fix: empty blocks of acquisitions limited to little
 memory

---
 src/pysimulators/acquisitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 7469803..6ed1164 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -117,6 +117,7 @@ class Acquisition:
                 nbytes = self.get_operator_nbytes()
                 if nbytes > max_nbytes:
                     nblocks = int(np.ceil(nbytes / max_nbytes))
+                    nblocks = min(nblocks, len(self.sampling))
                     self.block = tuple(split(len(self.sampling), nblocks))
         elif not isinstance(block, (list, tuple)) or any(
             not isinstance(b, slice) for b in block
-- 
2.43.0


From 74989613d7ccb166ba64e91aa2771974f4a8bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 71/74] fix: samplings starting at an astropy Time raised an
 AttributeError

---
 src/pysimulators/packedtables/samplings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 0f7d34d..72dba31 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -34,8 +34,8 @@ class Sampling(PackedTable):
             date_obs = Time([date_obs], scale='utc')
         elif not isinstance(date_obs, Time):
             raise TypeError('The observation start date is invalid.')
-        elif date_obs.is_scalar:  # work around astropy.time bug
-            date_obs = Time([str(date_obs)], scale='utc')
+        elif date_obs.isscalar:
+            date_obs = date_obs.reshape(1)
         if period is None:
             if hasattr(keywords, 'time'):
                 period = np.median(np.diff(keywords['time']))
-- 
2.43.0


From 9fc0b9699770cd3cb04d3cc1f9e016d646e67cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 72/74] fix: the period of a sampling was not derived from its
 times

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 72dba31..f7626b5 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -37,7 +37,7 @@ class Sampling(PackedTable):
         elif date_obs.isscalar:
             date_obs = date_obs.reshape(1)
         if period is None:
-            if hasattr(keywords, 'time'):
+            if np.size(keywords.get('time')) > 1:
                 period = np.median(np.diff(keywords['time']))
             else:
                 period = self.DEFAULT_PERIOD
-- 
2.43.0


From f3eb3527e5ffd5e74675115d4722d869ce1bb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 73/74] fix: center of the pointings was computed from a vector
 not normalized

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index f7626b5..b1a2d2c 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -171,7 +171,7 @@ class SamplingSpherical(Sampling):
         self.comm.Allreduce(MPI.IN_PLACE, as_mpi(center))
         if n == 0:
             raise ValueError('There is no valid pointing.')
-        center /= n
+        center /= np.sqrt(np.sum(center**2))
         return self.cartesian2spherical(center)
 
 
-- 
2.43.0


From a5c54998ccb43469701c619c90d860129199eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 74/74] fix: coordinates of pointings with a constant angle
 raised a ValueError

---
 src/pysimulators/packedtables/samplings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index b1a2d2c..16f2ee9 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -126,7 +126,8 @@ class SamplingSpherical(Sampling):
         Return the spherical coordinates as an (N, 2) ndarray.
 
         """
-        return np.array([getattr(self, self.names[0]), getattr(self, self.names[1])]).T
+        coords = [getattr(self, _) for _ in self.names[:2]]
+        return np.array([np.broadcast_to(_, len(self)) for _ in coords]).T
 
     @property
     def spherical2cartesian(self):
-- 
2.43.0

