From 3958d5cc8d8f76d7a160fbfda4c3ccfde04b2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 01/35] fix: add with alpha=0 passed beta and nelems to
 scal_inplace in the wrong order

---
 src/starpu/add.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/add.cc b/src/starpu/add.cc
index 7e11b66..67326ed 100644
--- a/src/starpu/add.cc
+++ b/src/starpu/add.cc
@@ -130,7 +130,7 @@ void submit(Index nelems, T alpha, Handle src, T beta, Handle dst)
     // If beta is non-zero and alpha is zero then reduce to scal_inplace
     if(alpha == zero)
     {
-        scal_inplace::submit<T>(nelems, beta, dst);
+        scal_inplace::submit<T>(beta, nelems, dst);
         return;
     }
     // Access mode for the dst handle
-- 
2.43.0


From 77623abd8ec7f7a99906590716f49f62d9c6fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 02/35] fix: add_fiber with alpha=0 ignored the scaling of dst
 by beta

---
 src/tensor/add_fiber.cc | 4 ++--
 src/tile/add_fiber.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 1a69f7f..2cc42a3 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -71,8 +71,8 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
                     "dst.basetile_shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index a943179..22fe557 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -61,8 +61,8 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
                     "dst.shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
-- 
2.43.0


From 9b126b83ce8b24b41715153993a713808dcbfd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 03/35] fix: scatter_async in Python rejected fp64 tensors

---
 wrappers/python/nntile/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/tensor.py b/wrappers/python/nntile/tensor.py
index 7dbdb43..bff1a76 100644
--- a/wrappers/python/nntile/tensor.py
+++ b/wrappers/python/nntile/tensor.py
@@ -337,7 +337,7 @@ def scatter_async(x: TensorFloatOrInt, y: TensorFloatOrInt) -> None:
         raise TypeError
     if type(x) is core_tensor.Tensor_fp32:
         core_tensor.scatter_async_fp32(x, y)
-    elif type(x) is core_tensor.Tensor_fp32:
+    elif type(x) is core_tensor.Tensor_fp64:
         core_tensor.scatter_async_fp64(x, y)
     elif type(x) is core_tensor.Tensor_int64:
         core_tensor.scatter_async_int64(x, y)
-- 
2.43.0


From f9513bbb2601e420a329b3cce1f1921ad9896717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 04/35] fix: random normal fill gives infinity when the
 generator state is zero (e.g. seed 0)

---
 src/kernel/randn/cpu.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kernel/randn/cpu.cc b/src/kernel/randn/cpu.cc
index 06954b6..22f25cd 100644
--- a/src/kernel/randn/cpu.cc
+++ b/src/kernel/randn/cpu.cc
@@ -13,6 +13,7 @@
  * */
 
 #include "nntile/kernel/randn/cpu.hh"
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include "../external/random.h" // from external
@@ -28,7 +29,9 @@ static inline fp32_t chameleon_randn(unsigned long long &seed, fp32_t mean,
         fp32_t stddev)
 {
     constexpr fp32_t two=2.0, twopi=6.2831853071795864769252867663;
-    fp32_t t1 = CORE_slaran(&seed);
+    // Zero state of the generator gives uniform value 0, whose logarithm is
+    // infinite: use the smallest positive value of the generator instead
+    fp32_t t1 = std::max(CORE_slaran(&seed), RndF_Mul);
     fp32_t t2 = CORE_slaran(&seed) * twopi;
     fp32_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
@@ -38,7 +41,9 @@ static inline fp64_t chameleon_randn(unsigned long long &seed, fp64_t mean,
         fp64_t stddev)
 {
     constexpr fp64_t two=2.0, twopi=6.2831853071795864769252867663;
-    fp64_t t1 = CORE_dlaran(&seed);
+    // Zero state of the generator gives uniform value 0, whose logarithm is
+    // infinite: use the smallest positive value of the generator instead
+    fp64_t t1 = std::max(CORE_dlaran(&seed), RndD_Mul);
     fp64_t t2 = CORE_dlaran(&seed) * twopi;
     fp64_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
-- 
2.43.0


From 952e2346d4f087a17ce3d9e3c0f956b11d99b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 05/35] fix: adam_step and adamw_step accept tensors with
 different tile shapes

---
 src/tensor/adam_step.cc  | 15 +++++++++++++++
 src/tensor/adamw_step.cc | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/tensor/adam_step.cc b/src/tensor/adam_step.cc
index d1d3e7b..6698553 100644
--- a/src/tensor/adam_step.cc
+++ b/src/tensor/adam_step.cc
@@ -41,6 +41,21 @@ void adam_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_d
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
 
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to gradient basetile shape");
+    }
+
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to first_moment basetile shape");
+    }
+
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to second_moment basetile shape");
+    }
+
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
diff --git a/src/tensor/adamw_step.cc b/src/tensor/adamw_step.cc
index 1f51b84..b08176d 100644
--- a/src/tensor/adamw_step.cc
+++ b/src/tensor/adamw_step.cc
@@ -42,6 +42,21 @@ void adamw_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
 
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to gradient basetile shape");
+    }
+
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to first_moment basetile shape");
+    }
+
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter basetile shape is not equal to second_moment basetile shape");
+    }
+
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
-- 
2.43.0


From 80b73a914b3bbb423e52c0c4e0e219645ab666a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 06/35] fix: addcdiv accepts tensors with different tile shapes

---
 src/tensor/addcdiv.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tensor/addcdiv.cc b/src/tensor/addcdiv.cc
index 6256e7d..29d5748 100644
--- a/src/tensor/addcdiv.cc
+++ b/src/tensor/addcdiv.cc
@@ -33,6 +33,14 @@ void addcdiv_async(T val, T eps, const Tensor<T> &nom, const Tensor<T> &denom,
         throw std::runtime_error("Nominator shape is not equal to source shape");
     }
 
+    if (nom.basetile_shape != denom.basetile_shape) {
+        throw std::runtime_error("Nominator basetile shape is not equal to denominator basetile shape");
+    }
+
+    if (src.basetile_shape != nom.basetile_shape) {
+        throw std::runtime_error("Nominator basetile shape is not equal to source basetile shape");
+    }
+
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
-- 
2.43.0


From a938b856a9dc97fdedec2d35d543eda532782748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 07/35] fix: sumprod_slice and sumprod_fiber accept sources
 with different tile shapes

---
 src/tensor/sumprod_fiber.cc | 4 ++++
 src/tensor/sumprod_slice.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tensor/sumprod_fiber.cc b/src/tensor/sumprod_fiber.cc
index eab79bf..0fb6f3b 100644
--- a/src/tensor/sumprod_fiber.cc
+++ b/src/tensor/sumprod_fiber.cc
@@ -30,6 +30,10 @@ void sumprod_fiber_async(T alpha, const Tensor<T> &src1,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(dst.ndim != 1)
     {
diff --git a/src/tensor/sumprod_slice.cc b/src/tensor/sumprod_slice.cc
index e1fa193..1d55096 100644
--- a/src/tensor/sumprod_slice.cc
+++ b/src/tensor/sumprod_slice.cc
@@ -30,6 +30,10 @@ void sumprod_slice_async(T alpha, const Tensor<T> &src1, const Tensor<T> &src2,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(src1.ndim != dst.ndim+1)
     {
-- 
2.43.0


From a97ffcb1c5f9a8ff9e86f66d058cf9de46014d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 08/35] fix: embedding and embedding_backward do not check
 axis, all index dimensions and vocabulary tiling

---
 src/tensor/embedding.cc          | 15 ++++++++++++++-
 src/tensor/embedding_backward.cc | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/tensor/embedding.cc b/src/tensor/embedding.cc
index 68b1d72..7231c59 100644
--- a/src/tensor/embedding.cc
+++ b/src/tensor/embedding.cc
@@ -34,8 +34,17 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -68,6 +77,10 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    if(vocab.basetile_shape[1] != vocab.shape[1])
+    {
+        throw std::runtime_error("vocab.basetile_shape[1] != vocab.shape[1]");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < embed.grid.nelems; ++i)
diff --git a/src/tensor/embedding_backward.cc b/src/tensor/embedding_backward.cc
index 16bf469..88acf2a 100644
--- a/src/tensor/embedding_backward.cc
+++ b/src/tensor/embedding_backward.cc
@@ -33,8 +33,17 @@ void embedding_backward_async(const Tensor<Index> &index,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -67,6 +76,10 @@ void embedding_backward_async(const Tensor<Index> &index,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    if(vocab.basetile_shape[1] != vocab.shape[1])
+    {
+        throw std::runtime_error("vocab.basetile_shape[1] != vocab.shape[1]");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     // Cycle over embedding tiles
-- 
2.43.0


From f89faa9cf1233b6f11668385391a018cd3252c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 09/35] fix: tile gelutanh and sqrt do not check shapes

---
 src/tile/gelutanh.cc | 7 ++++++-
 src/tile/sqrt.cc     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tile/gelutanh.cc b/src/tile/gelutanh.cc
index cb64aaa..20ae339 100644
--- a/src/tile/gelutanh.cc
+++ b/src/tile/gelutanh.cc
@@ -26,7 +26,12 @@ namespace tile
 template<typename T>
 void gelutanh_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::gelutanh::submit<T>(src.nelems, src, dst);
 }
 
diff --git a/src/tile/sqrt.cc b/src/tile/sqrt.cc
index ee2713e..b8a5a6a 100644
--- a/src/tile/sqrt.cc
+++ b/src/tile/sqrt.cc
@@ -27,7 +27,12 @@ namespace tile
 template<typename T>
 void sqrt_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::sqrt::submit<T>(src.nelems, src, dst);
 }
 
-- 
2.43.0


From 568c7bc41565def0df01764c55b52bfd452baf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 10/35] fix: tile mask_scalar does not check its arguments

---
 src/tile/mask_scalar.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/tile/mask_scalar.cc b/src/tile/mask_scalar.cc
index a67a41f..bcb09bc 100644
--- a/src/tile/mask_scalar.cc
+++ b/src/tile/mask_scalar.cc
@@ -27,7 +27,24 @@ namespace tile
 template<typename T>
 void mask_scalar_async(const Tile<bool_t> &mask, T val, const Tile<T> &A)
 {
-    // Submit task without any arguments checked
+    // Check dimensions
+    if(A.ndim == 0)
+    {
+        throw std::runtime_error("A.ndim == 0");
+    }
+    if(mask.ndim != A.ndim-1)
+    {
+        throw std::runtime_error("mask.ndim != A.ndim-1");
+    }
+    // Check shapes
+    for(Index i = 0; i < mask.ndim; ++i)
+    {
+        if(A.shape[i] != mask.shape[i])
+        {
+            throw std::runtime_error("A.shape[i] != mask.shape[i]");
+        }
+    }
+    // Submit task
     starpu::mask_scalar::submit<T>(A.matrix_shape[A.ndim-1][0],
             A.shape[A.ndim-1], mask, val, A);
 }
-- 
2.43.0


From 7dd29f6084dfaf7fdb3aba409857a5ffbf7c20d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 11/35] fix: block_cyclic reads out of bounds for 0-dimensional
 grids and accepts non-positive mpi_grid

---
 src/tensor/distributions.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tensor/distributions.cc b/src/tensor/distributions.cc
index 1c20048..1144bcd 100644
--- a/src/tensor/distributions.cc
+++ b/src/tensor/distributions.cc
@@ -31,6 +31,14 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
         throw std::runtime_error("Wrong number of dimensions");
     }
     const Index ndim = mpi_grid.size();
+    // Check mpi grid
+    for(Index j = 0; j < ndim; ++j)
+    {
+        if(mpi_grid[j] <= 0)
+        {
+            throw std::runtime_error("mpi_grid[j] <= 0");
+        }
+    }
     // Check starting and maximum ranks
     if(start_rank < 0 or start_rank >= max_rank)
     {
@@ -50,8 +58,8 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
             index[j] %= mpi_grid[j];
         }
         // Obtain corresponding mpi rank
-        int mpi_rank = index[ndim-1];
-        for(Index j = ndim-2; j >= 0; --j)
+        int mpi_rank = 0;
+        for(Index j = ndim-1; j >= 0; --j)
         {
             mpi_rank = mpi_rank*mpi_grid[j] + index[j];
         }
-- 
2.43.0


From 7be90df3b5841bddd93a24e445d9ba686ef87304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 12/35] fix: Adam with amsgrad divides the step by the bias
 correction instead of multiplying

---
 wrappers/python/nntile/optimizer/adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index d1a0937..6e5e4c6 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -84,7 +84,7 @@ class Adam:
             if self.amsgrad:
                 nntile.tensor.maximum_async(self.second_moments[i], \
                         self.max_second_moments[i])
-                nntile.tensor.addcdiv_async(step_size/scale_factor, \
+                nntile.tensor.addcdiv_async(step_size*scale_factor, \
                         self.eps*scale_factor, self.first_moments[i], \
                         self.max_second_moments[i], p.value)
                 self.max_second_moments[i].wont_use()
-- 
2.43.0


From 14e271aaf9a6042acb9a9013bac7082ecd67145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 13/35] fix: Adam.save_state stores the same maximal second
 moment for all parameters

---
 wrappers/python/nntile/optimizer/adam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 6e5e4c6..2af365d 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -112,8 +112,8 @@ class Adam:
             second_moments.append(s_m.copy())
         
         for m_s_m_nntile in self.max_second_moments:
-            m_s_m = np.array(np.zeros(self.max_second_moments[i].shape, dtype=self.dtype), order="F")
-            self.max_second_moments[i].to_array(m_s_m)
+            m_s_m = np.array(np.zeros(m_s_m_nntile.shape, dtype=self.dtype), order="F")
+            m_s_m_nntile.to_array(m_s_m)
             max_second_moments.append(m_s_m.copy())
         
         stored_data = {
-- 
2.43.0


From c013816ce3e7a7ae1bbbd26cfc376833047586b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 14/35] fix: FusedAdam.load_state fails on states saved with
 default dtype

---
 wrappers/python/nntile/optimizer/adam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 2af365d..88e731b 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -215,8 +215,8 @@ class FusedAdam:
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
             self.second_moments[i].to_array(s_m)
             if dtype == "fp32":
-                first_moments.append(f_m.copy())
-                second_moments.append(s_m.copy())
+                first_moments.append(torch.tensor(f_m))
+                second_moments.append(torch.tensor(s_m))
             elif dtype == "fp16":
                 first_moments.append(torch.tensor(f_m, dtype=torch.float16))
                 second_moments.append(torch.tensor(s_m, dtype=torch.float16))
-- 
2.43.0


From 660e1c5a311eb9ad6aabe34c4b9110ccebe33300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 15/35] fix: FusedAdam and FusedAdamW round double precision
 state to single precision on load

---
 wrappers/python/nntile/optimizer/adam.py  | 6 ++++--
 wrappers/python/nntile/optimizer/adamw.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 88e731b..081590e 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -254,7 +254,9 @@ class FusedAdam:
         
         first_moments = stored_states["first_moments"]
         second_moments = stored_states["second_moments"]
+        load_dtype = torch.float64 if self.dtype == np.float64 \
+                else torch.float32
         for i in range(len(first_moments)):
-            self.first_moments[i].from_array(first_moments[i].to(torch.float32))
-            self.second_moments[i].from_array(second_moments[i].to(torch.float32))
+            self.first_moments[i].from_array(first_moments[i].to(load_dtype))
+            self.second_moments[i].from_array(second_moments[i].to(load_dtype))
 
diff --git a/wrappers/python/nntile/optimizer/adamw.py b/wrappers/python/nntile/optimizer/adamw.py
index 6621970..f849bd5 100644
--- a/wrappers/python/nntile/optimizer/adamw.py
+++ b/wrappers/python/nntile/optimizer/adamw.py
@@ -119,11 +119,13 @@ class FusedAdamW:
         
         first_moments = stored_states["first_moments"]
         second_moments = stored_states["second_moments"]
+        load_dtype = torch.float64 if self.dtype == np.float64 \
+                else torch.float32
         for i in range(len(first_moments)):
-            f = first_moments[i].to(torch.float32)
+            f = first_moments[i].to(load_dtype)
             self.first_moments[i].from_array(f)
             del f
-            s = second_moments[i].to(torch.float32)
+            s = second_moments[i].to(load_dtype)
             self.second_moments[i].from_array(s)
             del s
         del stored_states, first_moments, second_moments
-- 
2.43.0


From 61607d9ff3be455d08890bb958bbaa45ef0c3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 16/35] fix: saving the state of Adam optimizers before the
 first step reads uninitialized moments

---
 wrappers/python/nntile/optimizer/adam.py  | 15 ++++++++++-----
 wrappers/python/nntile/optimizer/adamw.py |  6 ++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 081590e..a709399 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -104,16 +104,19 @@ class Adam:
         max_second_moments = []
         for i in range(len(self.first_moments)):
             f_m = np.array(np.zeros(self.first_moments[i].shape, dtype=self.dtype), order="F")
-            self.first_moments[i].to_array(f_m)
+            if self.num_iter > 1:
+                self.first_moments[i].to_array(f_m)
             first_moments.append(f_m.copy())
 
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
-            self.second_moments[i].to_array(s_m)
+            if self.num_iter > 1:
+                self.second_moments[i].to_array(s_m)
             second_moments.append(s_m.copy())
         
         for m_s_m_nntile in self.max_second_moments:
             m_s_m = np.array(np.zeros(m_s_m_nntile.shape, dtype=self.dtype), order="F")
-            m_s_m_nntile.to_array(m_s_m)
+            if self.num_iter > 1:
+                m_s_m_nntile.to_array(m_s_m)
             max_second_moments.append(m_s_m.copy())
         
         stored_data = {
@@ -211,9 +214,11 @@ class FusedAdam:
         second_moments = []
         for i in range(len(self.first_moments)):
             f_m = np.array(np.zeros(self.first_moments[i].shape, dtype=self.dtype), order="F")
-            self.first_moments[i].to_array(f_m)
+            if self.num_iter > 1:
+                self.first_moments[i].to_array(f_m)
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
-            self.second_moments[i].to_array(s_m)
+            if self.num_iter > 1:
+                self.second_moments[i].to_array(s_m)
             if dtype == "fp32":
                 first_moments.append(torch.tensor(f_m))
                 second_moments.append(torch.tensor(s_m))
diff --git a/wrappers/python/nntile/optimizer/adamw.py b/wrappers/python/nntile/optimizer/adamw.py
index f849bd5..a42f329 100644
--- a/wrappers/python/nntile/optimizer/adamw.py
+++ b/wrappers/python/nntile/optimizer/adamw.py
@@ -76,9 +76,11 @@ class FusedAdamW:
         second_moments = []
         for i in range(len(self.first_moments)):
             f_m = np.array(np.zeros(self.first_moments[i].shape, dtype=self.dtype), order="F")
-            self.first_moments[i].to_array(f_m)
+            if self.num_iter > 1:
+                self.first_moments[i].to_array(f_m)
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
-            self.second_moments[i].to_array(s_m)
+            if self.num_iter > 1:
+                self.second_moments[i].to_array(s_m)
             if dtype == "fp32":
                 first_moments.append(torch.tensor(f_m))
                 second_moments.append(torch.tensor(s_m))
-- 
2.43.0


From 1ca2cf8c6d1e904cef69435eb8142b36d479952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 17/35] fix: backward of GAP layer overwrites the gradient of
 its input instead of accumulating

---
 wrappers/python/nntile/layer/mixer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 99d76a9..2e6ec96 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -67,7 +67,7 @@ class GAP(BaseLayer):
     def backward_async(self):
         alpha = 1 / (self.x.value.shape[0])
         transpose_async(1.0, self.y.grad, self.yT.grad, 1)
-        add_slice_async(alpha, self.yT.grad, 0.0, self.x.grad, 0)
+        add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
 
 
 class MixerMlp(BaseLayer):
-- 
2.43.0


From 04daa8cbc883d4fab3f117bb693b673ceaf85f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 18/35] fix: backward of Add, AddSlice and GAP layers fails or
 writes gradients that are not required

---
 wrappers/python/nntile/layer/add.py       | 10 ++++++----
 wrappers/python/nntile/layer/add_slice.py | 15 +++++++++------
 wrappers/python/nntile/layer/mixer.py     |  7 ++++---
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/wrappers/python/nntile/layer/add.py b/wrappers/python/nntile/layer/add.py
index cb5a01c..c480203 100644
--- a/wrappers/python/nntile/layer/add.py
+++ b/wrappers/python/nntile/layer/add.py
@@ -45,10 +45,12 @@ class Add(BaseLayer):
         self.res.value.wont_use()
     
     def backward_async(self):
-        add_async(1, self.res.grad, 1, self.x.grad)
-        add_async(1, self.res.grad, 1, self.y.grad)
-        self.x.grad.wont_use()
-        self.y.grad.wont_use()
+        if self.x.grad_required:
+            add_async(1, self.res.grad, 1, self.x.grad)
+            self.x.grad.wont_use()
+        if self.y.grad_required:
+            add_async(1, self.res.grad, 1, self.y.grad)
+            self.y.grad.wont_use()
         self.res.grad.wont_use()
 
     def unregister(self):
diff --git a/wrappers/python/nntile/layer/add_slice.py b/wrappers/python/nntile/layer/add_slice.py
index 1b28202..f909f3f 100644
--- a/wrappers/python/nntile/layer/add_slice.py
+++ b/wrappers/python/nntile/layer/add_slice.py
@@ -24,7 +24,8 @@ class AddSlice(BaseLayer):
         # Set up local named parameters
         self.x = x
         self.y = y
-        self.y.grad.set_reduction_add()
+        if self.y.grad is not None:
+            self.y.grad.set_reduction_add()
         self.u = u
         self.axis = axis
         if redux:
@@ -43,11 +44,13 @@ class AddSlice(BaseLayer):
         self.u.value.wont_use()
 
     def backward_async(self):
-        add_async(1, self.u.grad, 1, self.x.grad)
-        sum_slice_async(1, self.u.grad, 1, self.y.grad, self.axis, \
-                redux=self.redux)
-        self.x.grad.wont_use()
-        self.y.grad.wont_use()
+        if self.x.grad_required:
+            add_async(1, self.u.grad, 1, self.x.grad)
+            self.x.grad.wont_use()
+        if self.y.grad_required:
+            sum_slice_async(1, self.u.grad, 1, self.y.grad, self.axis, \
+                    redux=self.redux)
+            self.y.grad.wont_use()
         self.u.grad.wont_use()
         
     # Simple generator for the add_slice layer
diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 2e6ec96..97a3bfb 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -65,9 +65,10 @@ class GAP(BaseLayer):
 
 
     def backward_async(self):
-        alpha = 1 / (self.x.value.shape[0])
-        transpose_async(1.0, self.y.grad, self.yT.grad, 1)
-        add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
+        if self.x.grad_required:
+            alpha = 1 / (self.x.value.shape[0])
+            transpose_async(1.0, self.y.grad, self.yT.grad, 1)
+            add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
 
 
 class MixerMlp(BaseLayer):
-- 
2.43.0


From 753343e1cf12d67452ba4ff31e82a219c270536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 19/35] fix: flash attention operations access memory out of
 bounds for mismatched shapes and partial tiles

---
 src/tensor/flash_maxsumexp.cc             | 89 +++++++++------------
 src/tensor/flash_softmax_gemm.cc          | 91 +++++++++------------
 src/tensor/flash_softmax_gemm_backward.cc | 96 +++++++++++------------
 3 files changed, 120 insertions(+), 156 deletions(-)

diff --git a/src/tensor/flash_maxsumexp.cc b/src/tensor/flash_maxsumexp.cc
index 152d17d..a87e7f8 100644
--- a/src/tensor/flash_maxsumexp.cc
+++ b/src/tensor/flash_maxsumexp.cc
@@ -22,64 +22,49 @@ namespace nntile
 namespace tensor
 {
 
+//! Check shape and tile shape of a tensor
+static void check_shape(const TensorTraits &x, const std::vector<Index> &shape,
+        const std::vector<Index> &basetile_shape)
+{
+    if(x.shape != shape)
+    {
+        throw std::runtime_error("Invalid shape of a tensor");
+    }
+    if(x.basetile_shape != basetile_shape)
+    {
+        throw std::runtime_error("Invalid basetile_shape of a tensor");
+    }
+}
+
 //! Compute max and sum of exponents of slices along given axis
 template<typename T>
 void flash_maxsumexp_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<bool_t> &mask, const Tensor<T> &maxsumexp,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Kernels work with the entire head and with full tiles only
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    for(Index i = 1; i < Q.ndim; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    // Check shapes of all the other tensors
+    const std::vector<Index> &s = Q.shape, &b = Q.basetile_shape;
+    check_shape(K, s, b);
+    check_shape(mask, {s[1], s[1]}, {b[1], b[1]});
+    check_shape(maxsumexp, {2, s[1], s[2], s[3]}, {2, b[1], b[2], b[3]});
+    check_shape(tmp, {s[1], s[1], s[2], s[3]}, {b[1], b[1], b[2], b[3]});
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
diff --git a/src/tensor/flash_softmax_gemm.cc b/src/tensor/flash_softmax_gemm.cc
index 2dd4782..7e92b14 100644
--- a/src/tensor/flash_softmax_gemm.cc
+++ b/src/tensor/flash_softmax_gemm.cc
@@ -25,64 +25,51 @@ namespace nntile
 namespace tensor
 {
 
+//! Check shape and tile shape of a tensor
+static void check_shape(const TensorTraits &x, const std::vector<Index> &shape,
+        const std::vector<Index> &basetile_shape)
+{
+    if(x.shape != shape)
+    {
+        throw std::runtime_error("Invalid shape of a tensor");
+    }
+    if(x.basetile_shape != basetile_shape)
+    {
+        throw std::runtime_error("Invalid basetile_shape of a tensor");
+    }
+}
+
 template<typename T>
 void flash_softmax_gemm_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<T> &V, const Tensor<bool_t> &mask,
         const Tensor<T> &maxsumexp, const Tensor<T> &dst,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Kernels work with the entire head and with full tiles only
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    for(Index i = 1; i < Q.ndim; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    // Check shapes of all the other tensors
+    const std::vector<Index> &s = Q.shape, &b = Q.basetile_shape;
+    check_shape(K, s, b);
+    check_shape(V, s, b);
+    check_shape(mask, {s[1], s[1]}, {b[1], b[1]});
+    check_shape(maxsumexp, {2, s[1], s[2], s[3]}, {2, b[1], b[2], b[3]});
+    check_shape(dst, s, b);
+    check_shape(tmp, {s[1], s[1], s[2], s[3]}, {b[1], b[1], b[2], b[3]});
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
diff --git a/src/tensor/flash_softmax_gemm_backward.cc b/src/tensor/flash_softmax_gemm_backward.cc
index b478d6e..41cdb57 100644
--- a/src/tensor/flash_softmax_gemm_backward.cc
+++ b/src/tensor/flash_softmax_gemm_backward.cc
@@ -23,6 +23,20 @@ namespace nntile
 namespace tensor
 {
 
+//! Check shape and tile shape of a tensor
+static void check_shape(const TensorTraits &x, const std::vector<Index> &shape,
+        const std::vector<Index> &basetile_shape)
+{
+    if(x.shape != shape)
+    {
+        throw std::runtime_error("Invalid shape of a tensor");
+    }
+    if(x.basetile_shape != basetile_shape)
+    {
+        throw std::runtime_error("Invalid basetile_shape of a tensor");
+    }
+}
+
 template<typename T>
 void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
         const Tensor<T> &K, const Tensor<T> &dK, const Tensor<T> &V,
@@ -31,58 +45,36 @@ void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
         const Tensor<T> &tmp, const Tensor<T> &tmp_grad,
         const Tensor<T> &tmp_sumprod_slice, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Kernels work with the entire head and with full tiles only
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    for(Index i = 1; i < Q.ndim; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    // Check shapes of all the other tensors
+    const std::vector<Index> &s = Q.shape, &b = Q.basetile_shape;
+    check_shape(dQ, s, b);
+    check_shape(K, s, b);
+    check_shape(dK, s, b);
+    check_shape(V, s, b);
+    check_shape(dV, s, b);
+    check_shape(mask, {s[1], s[1]}, {b[1], b[1]});
+    check_shape(maxsumexp, {2, s[1], s[2], s[3]}, {2, b[1], b[2], b[3]});
+    check_shape(dst_grad, s, b);
+    check_shape(tmp, {s[1], s[1], s[2], s[3]}, {b[1], b[1], b[2], b[3]});
+    check_shape(tmp_grad, {s[1], s[1], s[2], s[3]}, {b[1], b[1], b[2], b[3]});
+    check_shape(tmp_sumprod_slice, {s[1], s[2], s[3]}, {b[1], b[2], b[3]});
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
-- 
2.43.0


From e4cf89bf5d03135edaa81e1b07a36b9d3b76bcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 20/35] fix: backward of FlashAttention reads statistics of
 softmax invalidated by forward

---
 wrappers/python/nntile/layer/flash_attention.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wrappers/python/nntile/layer/flash_attention.py b/wrappers/python/nntile/layer/flash_attention.py
index 2f1ac31..f5a125c 100644
--- a/wrappers/python/nntile/layer/flash_attention.py
+++ b/wrappers/python/nntile/layer/flash_attention.py
@@ -510,9 +510,8 @@ class FlashAttention(BaseLayer):
                 redux=self.redux, fp32_fast_tf32=self.fp32_fast_tf32)
         # Finally, get the inplace softmax
         #softmax_inplace_async(self.a_maxsumexp, self.a.value, 0)
-        # A_maxsumexp can be deleted
-        #self.a_maxsumexp.wont_use()
-        self.a_maxsumexp.invalidate_submit()
+        # A_maxsumexp can be offloaded from GPU
+        self.a_maxsumexp.wont_use()
         # Apply value tensor
         # B = einsum('jklb,kmlb->jmlb', V, A)
         # batched gemm (head_size, n_seq, batch=n_batch, batch=n_head)
@@ -599,6 +598,9 @@ class FlashAttention(BaseLayer):
                 self.mask, self.a_maxsumexp, self.b.grad, self.a.value, \
                 self.a.grad, self.a_sumprod_slice, redux=self.redux, \
                 fp32_fast_tf32=self.fp32_fast_tf32)
+        # A_maxsumexp can be deleted
+        #self.a_maxsumexp.wont_use()
+        self.a_maxsumexp.invalidate_submit()
         # Backward for B = einsum('jklb,kmlb->jmlb', V, A)
         #if self.a.grad_required:
         #    # dA = einsum('jklb,jmlb->kmlb', V, dB)
-- 
2.43.0


From 320c31d9aac3e0e727b49edb16a7cf5a12bb445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 21/35] fix: blocking forward and backward of layers fail or
 run the other pass

---
 wrappers/python/nntile/layer/base_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/base_layer.py b/wrappers/python/nntile/layer/base_layer.py
index b5c0ae8..dc59efd 100644
--- a/wrappers/python/nntile/layer/base_layer.py
+++ b/wrappers/python/nntile/layer/base_layer.py
@@ -11,6 +11,7 @@
 # @author Aleksandr Mikhalev
 # @date 2023-05-06
 
+from nntile.nntile_core import starpu
 from nntile.tensor import Tensor, TensorMoments, randn_async
 import numpy as np
 from typing import List, Union
@@ -54,7 +55,7 @@ class BaseLayer(object):
         raise NotImplementedError
 
     def backward(self):
-        self.forward_async()
+        self.backward_async()
         starpu.wait_for_all()
 
     # Unregister layer weights and temporary tensors
-- 
2.43.0


From 10584d92e05650569ad3a07436e603dcbe19dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 22/35] fix: appending a layer to a model stores lists instead
 of activations and parameters

---
 wrappers/python/nntile/model/base_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/model/base_model.py b/wrappers/python/nntile/model/base_model.py
index ed1a911..7aff4bc 100644
--- a/wrappers/python/nntile/model/base_model.py
+++ b/wrappers/python/nntile/model/base_model.py
@@ -33,9 +33,9 @@ class BaseModel:
 
     # Add a new layer with corresponding new activations
     def append(self, layer: BaseLayer):
-        self.activations.append(layer.activations_output)
+        self.activations.extend(layer.activations_output)
         self.layers.append(layer)
-        self.parameters.append(layer.parameters)
+        self.parameters.extend(layer.parameters)
 
     # Forward propagation
     def forward_async(self):
-- 
2.43.0


From d0ffcd5f69140c8800f233c4cf15376d24f27be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 23/35] fix: cross entropy loss fails if model output has no
 gradient tensor

---
 wrappers/python/nntile/loss/crossentropy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/loss/crossentropy.py b/wrappers/python/nntile/loss/crossentropy.py
index 855e718..f3167d9 100644
--- a/wrappers/python/nntile/loss/crossentropy.py
+++ b/wrappers/python/nntile/loss/crossentropy.py
@@ -93,7 +93,8 @@ class CrossEntropy:
             subtract_indexed_outputs_async(self.scale, self.y, \
                     self.model_output.grad)
         self.model_output.value.wont_use()
-        self.model_output.grad.wont_use()
+        if self.model_output.grad is not None:
+            self.model_output.grad.wont_use()
         self.maxsumexp.wont_use()
         self.logsumexp.wont_use()
         self.val.wont_use()
-- 
2.43.0


From 92adcab576aede7de38f0d3408e63fe7efaf4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 24/35] fix: Frobenius loss cannot be used by the training
 pipeline

---
 wrappers/python/nntile/loss/frob.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wrappers/python/nntile/loss/frob.py b/wrappers/python/nntile/loss/frob.py
index b3e1f8b..253f984 100644
--- a/wrappers/python/nntile/loss/frob.py
+++ b/wrappers/python/nntile/loss/frob.py
@@ -54,6 +54,12 @@ class Frob:
         loss = Frob(x, y, val, val2, tmp)
         return loss, next_tag
 
+    def get_val(self, val_np):
+        self.val.to_array(val_np)
+
+    def get_grad(self, grad_np):
+        self.x.grad.to_array(grad_np)
+
     # Get value and gradient if needed
     def calc_async(self):
         # Put X into gradient grad X
-- 
2.43.0


From 1459cce5580f2e21317ab9eaf6bde3779fccf63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 25/35] fix: LayerNorm, attention and Mixer layers fail if
 gradient of their input is not required

---
 wrappers/python/nntile/layer/attention.py      | 18 ++++++++++++------
 .../python/nntile/layer/flash_attention.py     | 18 ++++++++++++------
 wrappers/python/nntile/layer/layer_norm.py     |  7 ++++---
 wrappers/python/nntile/layer/mixer.py          |  3 ++-
 4 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/wrappers/python/nntile/layer/attention.py b/wrappers/python/nntile/layer/attention.py
index c6662f4..83ed881 100644
--- a/wrappers/python/nntile/layer/attention.py
+++ b/wrappers/python/nntile/layer/attention.py
@@ -86,11 +86,14 @@ class Attention(BaseLayer):
                 [q_transposed, q, k_transposed, k, v_transposed, v, a, \
                 a_maxsumexp, a_sumprod_slice, b, b_transposed])
         self.x_q = x_q
-        self.x_q.grad.set_reduction_add()
+        if self.x_q.grad is not None:
+            self.x_q.grad.set_reduction_add()
         self.x_k = x_k
-        self.x_k.grad.set_reduction_add()
+        if self.x_k.grad is not None:
+            self.x_k.grad.set_reduction_add()
         self.x_v = x_v
-        self.x_v.grad.set_reduction_add()
+        if self.x_v.grad is not None:
+            self.x_v.grad.set_reduction_add()
         self.y = y
         self.y.value.set_reduction_add()
         self.w_q = w_q
@@ -689,7 +692,8 @@ class Attention(BaseLayer):
         # W_V can be offloaded from GPU
         self.w_v.value.wont_use()
         # dX_V can be offloaded from GPU
-        self.x_v.grad.wont_use()
+        if self.x_v.grad_required:
+            self.x_v.grad.wont_use()
         if self.w_v.grad_required:
             # dW_V += einsum('jkmn,lmn->jkl', dV_transposed, X_V)
             if self.fp32_fast_tf32:
@@ -735,7 +739,8 @@ class Attention(BaseLayer):
         # W_K can be offloaded from GPU
         self.w_k.value.wont_use()
         # dX_K can be offloaded from GPU
-        self.x_k.grad.wont_use()
+        if self.x_k.grad_required:
+            self.x_k.grad.wont_use()
         if self.w_k.grad_required:
             # dW_K += einsum('jkmn,lmn->jkl', dK_transposed, X_K)
             if self.fp32_fast_tf32:
@@ -782,7 +787,8 @@ class Attention(BaseLayer):
         # W_Q can be offloaded from GPU
         self.w_q.value.wont_use()
         # dX_Q can be offloaded from GPU
-        self.x_q.grad.wont_use()
+        if self.x_q.grad_required:
+            self.x_q.grad.wont_use()
         if self.w_q.grad_required:
             # dW_Q += einsum('jkmn,lmn->jkl', dQ_transposed, X_Q)
             if self.fp32_fast_tf32:
diff --git a/wrappers/python/nntile/layer/flash_attention.py b/wrappers/python/nntile/layer/flash_attention.py
index f5a125c..f252837 100644
--- a/wrappers/python/nntile/layer/flash_attention.py
+++ b/wrappers/python/nntile/layer/flash_attention.py
@@ -89,11 +89,14 @@ class FlashAttention(BaseLayer):
                 [q_transposed, q, k_transposed, k, v_transposed, v, a, \
                 a_maxsumexp, a_sumprod_slice, b, b_transposed])
         self.x_q = x_q
-        self.x_q.grad.set_reduction_add()
+        if self.x_q.grad is not None:
+            self.x_q.grad.set_reduction_add()
         self.x_k = x_k
-        self.x_k.grad.set_reduction_add()
+        if self.x_k.grad is not None:
+            self.x_k.grad.set_reduction_add()
         self.x_v = x_v
-        self.x_v.grad.set_reduction_add()
+        if self.x_v.grad is not None:
+            self.x_v.grad.set_reduction_add()
         self.y = y
         self.y.value.set_reduction_add()
         self.w_q = w_q
@@ -682,7 +685,8 @@ class FlashAttention(BaseLayer):
         # W_V can be offloaded from GPU
         self.w_v.value.wont_use()
         # dX_V can be offloaded from GPU
-        self.x_v.grad.wont_use()
+        if self.x_v.grad_required:
+            self.x_v.grad.wont_use()
         if self.w_v.grad_required:
             # dW_V += einsum('jkmn,lmn->jkl', dV_transposed, X_V)
             if self.fp32_fast_tf32:
@@ -728,7 +732,8 @@ class FlashAttention(BaseLayer):
         # W_K can be offloaded from GPU
         self.w_k.value.wont_use()
         # dX_K can be offloaded from GPU
-        self.x_k.grad.wont_use()
+        if self.x_k.grad_required:
+            self.x_k.grad.wont_use()
         if self.w_k.grad_required:
             # dW_K += einsum('jkmn,lmn->jkl', dK_transposed, X_K)
             if self.fp32_fast_tf32:
@@ -775,7 +780,8 @@ class FlashAttention(BaseLayer):
         # W_Q can be offloaded from GPU
         self.w_q.value.wont_use()
         # dX_Q can be offloaded from GPU
-        self.x_q.grad.wont_use()
+        if self.x_q.grad_required:
+            self.x_q.grad.wont_use()
         if self.w_q.grad_required:
             # dW_Q += einsum('jkmn,lmn->jkl', dQ_transposed, X_Q)
             if self.fp32_fast_tf32:
diff --git a/wrappers/python/nntile/layer/layer_norm.py b/wrappers/python/nntile/layer/layer_norm.py
index bc811fc..a750b2e 100644
--- a/wrappers/python/nntile/layer/layer_norm.py
+++ b/wrappers/python/nntile/layer/layer_norm.py
@@ -209,10 +209,11 @@ class LayerNorm(BaseLayer):
         #self.inv_stddev.wont_use()
         self.inv_stddev.invalidate_submit()
         # Accumulate gradient from tmp_Y_value
-        axpy_async(1.0, self.tmp_y_value, self.x.grad)
+        if self.x.grad_required:
+            axpy_async(1.0, self.tmp_y_value, self.x.grad)
+            # dX can offloade from GPU
+            self.x.grad.wont_use()
         # tmp_Y_value can be deleted
         #self.tmp_y_value.wont_use()
         self.tmp_y_value.invalidate_submit()
-        # dX can offloade from GPU
-        self.x.grad.wont_use()
 
diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 97a3bfb..fab8d34 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -225,4 +225,5 @@ class Mixer(BaseLayer):
         add_async(1.0, self.mlp_2.linear_2.y.grad, 1.0, self.mlp_1.y.grad)
         self.mlp_1.backward_async()
         self.norm_1.backward_async()
-        add_async(1.0, self.mlp_1.linear_2.y.grad, 1.0, self.x.grad)
\ No newline at end of file
+        if self.x.grad_required:
+            add_async(1.0, self.mlp_1.linear_2.y.grad, 1.0, self.x.grad)
\ No newline at end of file
-- 
2.43.0


From 409fcfd74b4b34adb9e65afa0209bd01821d34de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 26/35] fix: training pipeline reports zero loss for models in
 double precision

---
 wrappers/python/nntile/pipeline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/pipeline.py b/wrappers/python/nntile/pipeline.py
index 59d98fd..80a52c3 100644
--- a/wrappers/python/nntile/pipeline.py
+++ b/wrappers/python/nntile/pipeline.py
@@ -13,7 +13,7 @@
 # @date 2023-09-20
 
 from nntile.tensor import TensorTraits, Tensor, TensorOrNone, TensorMoments, \
-        copy_async, axpy_async, clear_async
+        Tensor_fp64, copy_async, axpy_async, clear_async
 from nntile.layer.base_layer import BaseLayer
 from nntile.model.base_model import BaseModel
 import numpy as np
@@ -80,7 +80,10 @@ class Pipeline(object):
                     if t.grad_required:
                         t.grad.wont_use()
                 # Limit parallelism through value of loss
-                loss_np = np.zeros((1,), dtype=np.float32, order="F")
+                loss_dtype = np.float32
+                if type(self.loss.val) is Tensor_fp64:
+                    loss_dtype = np.float64
+                loss_np = np.zeros((1,), dtype=loss_dtype, order="F")
                 self.loss.get_val(loss_np)
                 self.loss_hist.append(loss_np[0])
                 # print("Loss in {} epoch = {}".format(i_epoch, loss_np[0]))
-- 
2.43.0


From f83211f30efc96b567b51098f3871b0d62605b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 27/35] fix: square weight of the first layer of MlpMixer is
 not transposed on import and export

---
 wrappers/python/nntile/model/mlp_mixer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/model/mlp_mixer.py b/wrappers/python/nntile/model/mlp_mixer.py
index 79c24fa..3a2575c 100644
--- a/wrappers/python/nntile/model/mlp_mixer.py
+++ b/wrappers/python/nntile/model/mlp_mixer.py
@@ -118,8 +118,9 @@ class MlpMixer(BaseModel):
         x_moments = TensorMoments(x, x_grad, x_grad_required)
   
         mlp_mixer_nntile = MlpMixer(x_moments, hidden_layer_dim, n_mixer_layers, n_classes, next_tag)
-        for p, p_torch in zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters()):
-            if p.value.shape[0] != p_torch.shape[0]:
+        for i, (p, p_torch) in enumerate(zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters())):
+            # Weight of the first linear layer is stored transposed even if it is square
+            if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                 p.value.from_array(p_torch.detach().numpy().T)
             else:
                 p.value.from_array(p_torch.detach().numpy())
@@ -128,8 +129,8 @@ class MlpMixer(BaseModel):
 
     def to_torch(self, torch_mlp_mixer):
         with torch.no_grad():
-            for (p, p_torch) in zip(self.parameters, torch_mlp_mixer.parameters()):
-                if p.value.shape[0] != p_torch.shape[0]:
+            for i, (p, p_torch) in enumerate(zip(self.parameters, torch_mlp_mixer.parameters())):
+                if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                     nntile_np = np.zeros(p.value.shape, dtype=np.float32, order="F")
                     p.value.to_array(nntile_np)
                     p_torch.copy_(torch.from_numpy(nntile_np.T))
-- 
2.43.0


From 83e27a8812a1b09f49fcd25b575221d84d7fef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 28/35] fix: tensor_from_array raises an exception for arrays
 that need a conversion

---
 wrappers/python/nntile/nntile_core.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/nntile_core.cc b/wrappers/python/nntile/nntile_core.cc
index 34c5098..964d255 100644
--- a/wrappers/python/nntile/nntile_core.cc
+++ b/wrappers/python/nntile/nntile_core.cc
@@ -353,8 +353,13 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("get_tile", static_cast<tile::Tile<T>(Tensor<T>::*)(Index) const>(
                     &Tensor<T>::get_tile)).
         def_readonly("distribution", &Tensor<T>::tile_distr);
-    m.def("tensor_to_array", tensor_to_array<T>);
-    m.def("tensor_from_array", tensor_from_array<T>);
+    // NumPy does not know fp16_t: an overload for it raises an exception when
+    // overloads are tried one by one for an array of any other type
+    if constexpr(not std::is_same<T, fp16_t>::value)
+    {
+        m.def("tensor_to_array", tensor_to_array<T>);
+        m.def("tensor_from_array", tensor_from_array<T>);
+    }
 }
 
 // Extend (sub)module with nntile::tensor::distributions functionality
-- 
2.43.0


From 1c791138f7dc29f8f0b4c0bc51ed9d875bfaabc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 29/35] fix: to_array silently leaves arrays of another type or
 layout without data

---
 wrappers/python/nntile/nntile_core.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/nntile_core.cc b/wrappers/python/nntile/nntile_core.cc
index 964d255..3bab9b3 100644
--- a/wrappers/python/nntile/nntile_core.cc
+++ b/wrappers/python/nntile/nntile_core.cc
@@ -167,9 +167,11 @@ void def_class_tile(py::module_ &m, const char *name)
         def(py::init<const TileTraits &>()).
         def("unregister", &Tile<T>::unregister).
         def("from_array", tile_from_array<T>).
-        def("to_array", tile_to_array<T>);
+        // Data would be lost in a converted copy of the array
+        def("to_array", tile_to_array<T>, py::arg("array").noconvert());
     m.def("tile_from_array", tile_from_array<T>);
-    m.def("tile_to_array", tile_to_array<T>);
+    m.def("tile_to_array", tile_to_array<T>, py::arg("tile"),
+            py::arg("array").noconvert());
 }
 
 // Extend (sub)module with nntile::tile functionality
@@ -344,7 +346,8 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("invalidate_submit", &Tensor<T>::wont_use).
         def("wont_use", &Tensor<T>::wont_use).
         def("from_array", tensor_from_array<T>).
-        def("to_array", tensor_to_array<T>).
+        // Data would be lost in a converted copy of the array
+        def("to_array", tensor_to_array<T>, py::arg("array").noconvert()).
         def("set_reduction_add", &Tensor<T>::set_reduction_add).
         def("set_reduction_hypot", &Tensor<T>::set_reduction_hypot).
         def("set_reduction_maxsumexp", &Tensor<T>::set_reduction_maxsumexp).
@@ -357,7 +360,8 @@ void def_class_tensor(py::module_ &m, const char *name)
     // overloads are tried one by one for an array of any other type
     if constexpr(not std::is_same<T, fp16_t>::value)
     {
-        m.def("tensor_to_array", tensor_to_array<T>);
+        m.def("tensor_to_array", tensor_to_array<T>, py::arg("tensor"),
+                py::arg("array").noconvert());
         m.def("tensor_from_array", tensor_from_array<T>);
     }
 }
-- 
2.43.0


From 8d03a5d441fe487ca566a74817028e083f8f4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 30/35] fix: no NaN from tanh-GELU and its derivative at large
 finite arguments

---
 src/kernel/dgelutanh/cpu.cc         | 5 +++++
 src/kernel/gelutanh/cpu.cc          | 3 ++-
 src/kernel/gelutanh_backward/cpu.cc | 7 ++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/kernel/dgelutanh/cpu.cc b/src/kernel/dgelutanh/cpu.cc
index 53e48d0..42bc287 100644
--- a/src/kernel/dgelutanh/cpu.cc
+++ b/src/kernel/dgelutanh/cpu.cc
@@ -55,6 +55,11 @@ void cpu(Index nelems, T *data)
         {
             data[i] = zero;
         }
+        // Large positive z: y2 may be infinite
+        else if(expy1 == zero)
+        {
+            data[i] = one;
+        }
         else
         {
             T inv_expy1p1 = one / (expy1 + one);
diff --git a/src/kernel/gelutanh/cpu.cc b/src/kernel/gelutanh/cpu.cc
index 3b3aa90..3746a84 100644
--- a/src/kernel/gelutanh/cpu.cc
+++ b/src/kernel/gelutanh/cpu.cc
@@ -51,7 +51,8 @@ void cpu(Index nelems, const T *src, T *dst)
         //dst[i] = z / (one+std::exp(y));
         T y1 = f4 * z * z;
         T y2 = f3 + y1;
-        T c = y1 - (y2-f3);
+        // Rounding error of y2, which is meaningless if y1 overflows
+        T c = std::isinf(y1) ? T{0} : y1 - (y2-f3);
         y2 *= z;
         c *= z;
         T y3 = one + std::exp(c)*std::exp(y2);
diff --git a/src/kernel/gelutanh_backward/cpu.cc b/src/kernel/gelutanh_backward/cpu.cc
index 411cdac..e2e2c40 100644
--- a/src/kernel/gelutanh_backward/cpu.cc
+++ b/src/kernel/gelutanh_backward/cpu.cc
@@ -50,7 +50,12 @@ void cpu(Index nelems, const T *x, const T *dy, T *dx)
         T y1 = x[i] * (f3 + f4*z2);
         T y2 = x[i] * (f3 + f5*z2);
         T expy1 = std::exp(y1);
-        if(not std::isinf(expy1))
+        // Large positive x: y2 may be infinite
+        if(expy1 == zero)
+        {
+            dx[i] += dy[i];
+        }
+        else if(not std::isinf(expy1))
         {
             T inv_expy1p1 = one / (expy1 + one);
             dx[i] += (one-y2*(one-inv_expy1p1)) * inv_expy1p1 * dy[i];
-- 
2.43.0


From f6fff2e1b3e3fbb8805b2fca472af0c3e1d2e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 31/35] fix: free arguments of the asynchronous scalar printing

---
 include/nntile/tensor/tensor.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nntile/tensor/tensor.hh b/include/nntile/tensor/tensor.hh
index 94d369d..0ace02a 100644
--- a/include/nntile/tensor/tensor.hh
+++ b/include/nntile/tensor/tensor.hh
@@ -221,6 +221,8 @@ public:
         T *data = reinterpret_cast<T *>(starpu_data_get_local_ptr(handle));
         std::cout << "Value: " << *data << "\n";
         starpu_data_release(handle);
+        // Allocated by print_scalar_async()
+        std::free(args);
     }
 };
 
-- 
2.43.0


From e860f7a61a23fc54b384a530a62b91f0a702cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:40 +0000
Subject: [PATCH 32/35] fix: shut StarPU down once per Config (shutdown()
 followed by the destructor aborted)

---
 include/nntile/starpu/config.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nntile/starpu/config.hh b/include/nntile/starpu/config.hh
index 3d7b619..741d011 100644
--- a/include/nntile/starpu/config.hh
+++ b/include/nntile/starpu/config.hh
@@ -57,6 +57,7 @@ namespace starpu
 class Config: public starpu_conf
 {
     int cublas;
+    bool running = false;
 public:
     explicit Config(int ncpus_=-1, int ncuda_=-1, int cublas_=-1)
     {
@@ -86,6 +87,7 @@ public:
         }
         else
         {
+            running = true;
             int ncpus_ = starpu_worker_get_count_by_type(STARPU_CPU_WORKER);
             int ncuda_ = starpu_worker_get_count_by_type(STARPU_CUDA_WORKER);
             std::cout << "Initialized NCPU=" << ncpus_ << " NCUDA=" << ncuda_
@@ -105,6 +107,12 @@ public:
     }
     void shutdown()
     {
+        // Runtime shall be shut down only once per its initialization
+        if(!running)
+        {
+            return;
+        }
+        running = false;
 #ifdef NNTILE_USE_CUDA
         if(cublas != 0)
         {
-- 
2.43.0


From 434210ba70bda1a0bf6c3770a35362c1e989fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 33/35] fix: normalize gives NaN for slices that consist only
 of zeros

---
 src/kernel/normalize/cpu.cc  | 5 +++--
 src/kernel/normalize/cuda.cu | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kernel/normalize/cpu.cc b/src/kernel/normalize/cpu.cc
index ba64069..546e7c0 100644
--- a/src/kernel/normalize/cpu.cc
+++ b/src/kernel/normalize/cpu.cc
@@ -73,8 +73,9 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
                 T tmp = std::fabs(mean) / rms;
-                // Check if rounding errors broke theoretical invariant
-                if(tmp >= one)
+                // Check if rounding errors broke theoretical invariant or if
+                // the slice consists only of zeros
+                if(tmp >= one || rms == T{0})
                 {
                     dev = reps;
                 }
diff --git a/src/kernel/normalize/cuda.cu b/src/kernel/normalize/cuda.cu
index 786fdb7..24ecd6b 100644
--- a/src/kernel/normalize/cuda.cu
+++ b/src/kernel/normalize/cuda.cu
@@ -57,8 +57,9 @@ void cuda_kernel(Index m, Index n, Index k, Index l, T eps,
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
                 T tmp = ::fabs(mean) / rms;
-                // Check if rounding errors broke theoretical invariant
-                if(tmp >= one)
+                // Check if rounding errors broke theoretical invariant or if
+                // the slice consists only of zeros
+                if(tmp >= one || rms == T{0})
                 {
                     dev = reps;
                 }
-- 
2.43.0


From 9eafef2ec7ce57475a25008c9ea1539c7f7495b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:17 +0000
Subject: [PATCH 34/35] fix: Linear with fp32_convert_fp16 raised NameError:
 its half precision names were not imported

---
 wrappers/python/nntile/layer/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/linear.py b/wrappers/python/nntile/layer/linear.py
index 74e8eff..9f89728 100644
--- a/wrappers/python/nntile/layer/linear.py
+++ b/wrappers/python/nntile/layer/linear.py
@@ -16,7 +16,8 @@ import nntile
 from nntile.tensor import TensorTraits, Tensor, TensorOrNone, TensorMoments, \
         TransOp, trans, notrans, copy_async, gemm_async, randn_async, \
         add_slice_async, add_fiber_async, sum_slice_async, sum_fiber_async, \
-        gemm_ex_async
+        gemm_ex_async, Tensor_fp16
+from nntile.nntile_core.tensor import fp32_to_fp16_async, fp16_to_fp32_async
 from nntile.layer.base_layer import BaseLayer
 import numpy as np
 from typing import List, Union, Optional
-- 
2.43.0


From f054ec291474d26c0fb15e47d431fe739689ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:17 +0000
Subject: [PATCH 35/35] fix: FP16_to_FP32.generate_simple gave its output in
 half instead of single precision

---
 wrappers/python/nntile/layer/fp16_to_fp32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/layer/fp16_to_fp32.py b/wrappers/python/nntile/layer/fp16_to_fp32.py
index 3ecf37d..a65c1e9 100644
--- a/wrappers/python/nntile/layer/fp16_to_fp32.py
+++ b/wrappers/python/nntile/layer/fp16_to_fp32.py
@@ -36,9 +36,9 @@ class FP16_to_FP32(BaseLayer):
         # Get traits of X
         x_traits = TensorTraits(x.value.shape, x.value.basetile_shape)
         # Create Y with the same traits and distribution as X
-        y_value = Tensor_fp16(x_traits, x.value.distribution, next_tag)
+        y_value = Tensor_fp32(x_traits, x.value.distribution, next_tag)
         next_tag = y_value.next_tag
-        y_grad = Tensor_fp16(x_traits, x.value.distribution, next_tag)
+        y_grad = Tensor_fp32(x_traits, x.value.distribution, next_tag)
         next_tag = y_grad.next_tag
         y = TensorMoments(y_value, y_grad, True)
         # Create activation layer with all the provided tensors
-- 
2.43.0

