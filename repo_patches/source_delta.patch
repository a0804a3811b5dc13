From 0f9fd0b6f6171ebb75381c0169d70d9b68126e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 01/33] fix: add with zero alpha scaled the wrong number of
 elements

Arguments of scal_inplace::submit were swapped: beta was used as the number
of elements and the number of elements as the scaling factor.
---
 src/starpu/add.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/add.cc b/src/starpu/add.cc
index 7e11b66..67326ed 100644
--- a/src/starpu/add.cc
+++ b/src/starpu/add.cc
@@ -130,7 +130,7 @@ void submit(Index nelems, T alpha, Handle src, T beta, Handle dst)
     // If beta is non-zero and alpha is zero then reduce to scal_inplace
     if(alpha == zero)
     {
-        scal_inplace::submit<T>(nelems, beta, dst);
+        scal_inplace::submit<T>(beta, nelems, dst);
         return;
     }
     // Access mode for the dst handle
-- 
2.43.0


From 810fe9fd91b78733a997cd4341c7694fa42ef92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 02/33] fix: add_fiber with zero alpha ignored beta

Destination shall be scaled by beta even if alpha is zero.
---
 src/tensor/add_fiber.cc | 4 ++--
 src/tile/add_fiber.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 1a69f7f..efae5a6 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -71,8 +71,8 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
                     "dst.basetile_shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if destination is kept as is
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index a943179..dc9f5e9 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -61,8 +61,8 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
                     "dst.shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if destination is kept as is
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
-- 
2.43.0


From 1c43a168a2daf9a1372bb1430f33e807822cb1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 03/33] fix: hypot with zero alpha and unit beta kept negative
 values

hypot(0, dst) is a modulus of dst, which is what the kernel does for any other
beta.
---
 src/tensor/hypot.cc | 5 -----
 src/tile/hypot.cc   | 5 -----
 2 files changed, 10 deletions(-)

diff --git a/src/tensor/hypot.cc b/src/tensor/hypot.cc
index 4b656d9..56b5f74 100644
--- a/src/tensor/hypot.cc
+++ b/src/tensor/hypot.cc
@@ -42,11 +42,6 @@ void hypot_async(T alpha, const Tensor<T> &src, T beta, const Tensor<T> &dst)
                     "src.basetile_shape[i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0 && beta == 1.)
-    {
-        return;
-    }
     // Apply per-tile hypot asynchronously as needed
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < src.grid.nelems; ++i)
diff --git a/src/tile/hypot.cc b/src/tile/hypot.cc
index 5f0f237..e9340f5 100644
--- a/src/tile/hypot.cc
+++ b/src/tile/hypot.cc
@@ -37,11 +37,6 @@ void hypot_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst)
             throw std::runtime_error("dst.shape[i] != src.shape[i]");
         }
     }
-    // Do nothing if alpha is zero and beta is one
-    if(alpha == 0.0 && beta == 1.0)
-    {
-        return;
-    }
     // Insert corresponding task
     starpu::hypot::submit<T>(src.nelems, alpha, src, beta, dst);
 }
-- 
2.43.0


From 5dc70dcf596d0745d81ce05db295a4bb3bc40944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 04/33] fix: NaN in approximate GeLU for large inputs

Product of saturated exponents became 0*inf.
---
 src/kernel/gelutanh/cpu.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/kernel/gelutanh/cpu.cc b/src/kernel/gelutanh/cpu.cc
index 3b3aa90..55aaed5 100644
--- a/src/kernel/gelutanh/cpu.cc
+++ b/src/kernel/gelutanh/cpu.cc
@@ -40,7 +40,7 @@ void cpu(Index nelems, const T *src, T *dst)
 {
     // Constants
     constexpr T pi = 3.141592653589793238462643383279502884L,
-        one = 1, pt5 = 0.5, f1 = T{0.044715};
+        zero = 0, one = 1, pt5 = 0.5, f1 = T{0.044715};
     // Square root is not constexpr by standard, proceed with a static const
     static const T sqrt_pi = std::sqrt(pi), sqrt_2 = std::sqrt(T{2}),
         f2 = sqrt_2/sqrt_pi, f3 = -T{2}*f2, f4 = f3*f1;
@@ -54,8 +54,14 @@ void cpu(Index nelems, const T *src, T *dst)
         T c = y1 - (y2-f3);
         y2 *= z;
         c *= z;
-        T y3 = one + std::exp(c)*std::exp(y2);
-        dst[i] = z / y3;
+        T y3 = std::exp(y2);
+        // Rounding correction is required only if exponent is not saturated,
+        // otherwise it can turn result into 0*inf=nan
+        if(y3 > zero && not std::isinf(y3))
+        {
+            y3 *= std::exp(c);
+        }
+        dst[i] = z / (one+y3);
     }
 }
 
-- 
2.43.0


From a99aaaade24f9f3a11f7056c457b552a8dff8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 05/33] fix: NaN in derivative of approximate GeLU for large
 inputs

Overflow of the third power of an input led to inf*0. The derivative is one if
the exponent vanishes.
---
 src/kernel/dgelutanh/cpu.cc         | 4 ++++
 src/kernel/gelutanh_backward/cpu.cc | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kernel/dgelutanh/cpu.cc b/src/kernel/dgelutanh/cpu.cc
index 53e48d0..a15a2f0 100644
--- a/src/kernel/dgelutanh/cpu.cc
+++ b/src/kernel/dgelutanh/cpu.cc
@@ -55,6 +55,10 @@ void cpu(Index nelems, T *data)
         {
             data[i] = zero;
         }
+        else if(expy1 == zero)
+        {
+            data[i] = one;
+        }
         else
         {
             T inv_expy1p1 = one / (expy1 + one);
diff --git a/src/kernel/gelutanh_backward/cpu.cc b/src/kernel/gelutanh_backward/cpu.cc
index 411cdac..7034e04 100644
--- a/src/kernel/gelutanh_backward/cpu.cc
+++ b/src/kernel/gelutanh_backward/cpu.cc
@@ -50,7 +50,11 @@ void cpu(Index nelems, const T *x, const T *dy, T *dx)
         T y1 = x[i] * (f3 + f4*z2);
         T y2 = x[i] * (f3 + f5*z2);
         T expy1 = std::exp(y1);
-        if(not std::isinf(expy1))
+        if(expy1 == zero)
+        {
+            dx[i] += dy[i];
+        }
+        else if(not std::isinf(expy1))
         {
             T inv_expy1p1 = one / (expy1 + one);
             dx[i] += (one-y2*(one-inv_expy1p1)) * inv_expy1p1 * dy[i];
-- 
2.43.0


From 94dad4482ef1c94ec3c8cdabc946c0efa8e31860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 06/33] fix: NaN in normalize for slices of zeros

---
 src/kernel/normalize/cpu.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernel/normalize/cpu.cc b/src/kernel/normalize/cpu.cc
index ba64069..64a5cc5 100644
--- a/src/kernel/normalize/cpu.cc
+++ b/src/kernel/normalize/cpu.cc
@@ -47,7 +47,7 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
  * */
 {
     Index dst_offset = 0;
-    constexpr T one = 1;
+    constexpr T zero = 0, one = 1;
     const T invl = one / T(l);
     const T rinvl = std::sqrt(invl);
     const T reps = std::sqrt(eps);
@@ -72,7 +72,8 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
                 T dev;
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
-                T tmp = std::fabs(mean) / rms;
+                // Zero slice (0/0) has zero deviation
+                T tmp = rms > zero ? std::fabs(mean)/rms : one;
                 // Check if rounding errors broke theoretical invariant
                 if(tmp >= one)
                 {
-- 
2.43.0


From 0699a7a366b44181cb9de5ebb14b7e33f33fa727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 07/33] fix: scatter_async rejected fp64 tensors

---
 wrappers/python/nntile/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/tensor.py b/wrappers/python/nntile/tensor.py
index 7dbdb43..bff1a76 100644
--- a/wrappers/python/nntile/tensor.py
+++ b/wrappers/python/nntile/tensor.py
@@ -337,7 +337,7 @@ def scatter_async(x: TensorFloatOrInt, y: TensorFloatOrInt) -> None:
         raise TypeError
     if type(x) is core_tensor.Tensor_fp32:
         core_tensor.scatter_async_fp32(x, y)
-    elif type(x) is core_tensor.Tensor_fp32:
+    elif type(x) is core_tensor.Tensor_fp64:
         core_tensor.scatter_async_fp64(x, y)
     elif type(x) is core_tensor.Tensor_int64:
         core_tensor.scatter_async_int64(x, y)
-- 
2.43.0


From 74b90168a36cacf48c04f0f21d1c02a135676e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 08/33] fix: out of bounds access in subcopy of fp16 tiles

The fp16 codelet copied elements of the fp32 size.
---
 src/starpu/subcopy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/subcopy.cc b/src/starpu/subcopy.cc
index 3041954..c79fd0c 100644
--- a/src/starpu/subcopy.cc
+++ b/src/starpu/subcopy.cc
@@ -64,7 +64,7 @@ void init()
 {
     codelet_fp16.init("nntile_subcopy_fp16",
             footprint,
-            {cpu<fp32_t>},
+            {cpu<fp16_t>},
             {}
             );
     codelet_fp32.init("nntile_subcopy_fp32",
-- 
2.43.0


From 7571f84a5ea4d519da528fe162802af90ec1cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 09/33] fix: infinite value of randn for zero seed

---
 src/kernel/randn/cpu.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kernel/randn/cpu.cc b/src/kernel/randn/cpu.cc
index 06954b6..fd97753 100644
--- a/src/kernel/randn/cpu.cc
+++ b/src/kernel/randn/cpu.cc
@@ -29,6 +29,11 @@ static inline fp32_t chameleon_randn(unsigned long long &seed, fp32_t mean,
 {
     constexpr fp32_t two=2.0, twopi=6.2831853071795864769252867663;
     fp32_t t1 = CORE_slaran(&seed);
+    // Zero state of the generator would produce an infinite value
+    if(t1 == 0)
+    {
+        t1 = RndF_Mul;
+    }
     fp32_t t2 = CORE_slaran(&seed) * twopi;
     fp32_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
@@ -39,6 +44,11 @@ static inline fp64_t chameleon_randn(unsigned long long &seed, fp64_t mean,
 {
     constexpr fp64_t two=2.0, twopi=6.2831853071795864769252867663;
     fp64_t t1 = CORE_dlaran(&seed);
+    // Zero state of the generator would produce an infinite value
+    if(t1 == 0)
+    {
+        t1 = RndD_Mul;
+    }
     fp64_t t2 = CORE_dlaran(&seed) * twopi;
     fp64_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
-- 
2.43.0


From 28e56e4f5f03a35a23d334b0489db9f13b1e3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 10/33] fix: fused optimizer steps and addcdiv accepted
 different tilings

---
 src/tensor/adam_step.cc  | 15 +++++++++++++++
 src/tensor/adamw_step.cc | 15 +++++++++++++++
 src/tensor/addcdiv.cc    |  9 +++++++++
 3 files changed, 39 insertions(+)

diff --git a/src/tensor/adam_step.cc b/src/tensor/adam_step.cc
index d1d3e7b..7e61a39 100644
--- a/src/tensor/adam_step.cc
+++ b/src/tensor/adam_step.cc
@@ -40,6 +40,21 @@ void adam_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_d
     {
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
+    // Check tiling
+    if(p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != grad.basetile_shape");
+    }
+    if(p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != "
+                "first_moment.basetile_shape");
+    }
+    if(p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != "
+                "second_moment.basetile_shape");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
diff --git a/src/tensor/adamw_step.cc b/src/tensor/adamw_step.cc
index 1f51b84..d6ddaaa 100644
--- a/src/tensor/adamw_step.cc
+++ b/src/tensor/adamw_step.cc
@@ -41,6 +41,21 @@ void adamw_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_
     {
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
+    // Check tiling
+    if(p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != grad.basetile_shape");
+    }
+    if(p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != "
+                "first_moment.basetile_shape");
+    }
+    if(p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("p.basetile_shape != "
+                "second_moment.basetile_shape");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
diff --git a/src/tensor/addcdiv.cc b/src/tensor/addcdiv.cc
index 6256e7d..ff25a6c 100644
--- a/src/tensor/addcdiv.cc
+++ b/src/tensor/addcdiv.cc
@@ -32,6 +32,15 @@ void addcdiv_async(T val, T eps, const Tensor<T> &nom, const Tensor<T> &denom,
     if (src.matrix_shape != nom.matrix_shape) {
         throw std::runtime_error("Nominator shape is not equal to source shape");
     }
+    // Check tiling
+    if(nom.basetile_shape != denom.basetile_shape)
+    {
+        throw std::runtime_error("nom.basetile_shape != denom.basetile_shape");
+    }
+    if(src.basetile_shape != nom.basetile_shape)
+    {
+        throw std::runtime_error("src.basetile_shape != nom.basetile_shape");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
-- 
2.43.0


From 5dfe876c3da0e63885bbb29628918932f9ab56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 11/33] fix: sumprod_slice and sumprod_fiber accepted different
 tilings

---
 src/tensor/sumprod_fiber.cc | 4 ++++
 src/tensor/sumprod_slice.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tensor/sumprod_fiber.cc b/src/tensor/sumprod_fiber.cc
index eab79bf..0fb6f3b 100644
--- a/src/tensor/sumprod_fiber.cc
+++ b/src/tensor/sumprod_fiber.cc
@@ -30,6 +30,10 @@ void sumprod_fiber_async(T alpha, const Tensor<T> &src1,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(dst.ndim != 1)
     {
diff --git a/src/tensor/sumprod_slice.cc b/src/tensor/sumprod_slice.cc
index e1fa193..1d55096 100644
--- a/src/tensor/sumprod_slice.cc
+++ b/src/tensor/sumprod_slice.cc
@@ -30,6 +30,10 @@ void sumprod_slice_async(T alpha, const Tensor<T> &src1, const Tensor<T> &src2,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(src1.ndim != dst.ndim+1)
     {
-- 
2.43.0


From a8804849acf1f599e767269d8bcd987ab8e03672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 12/33] fix: embedding did not check axis, shapes before it and
 vocabulary tiling

---
 src/tensor/embedding.cc          | 16 +++++++++++++++-
 src/tensor/embedding_backward.cc | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/tensor/embedding.cc b/src/tensor/embedding.cc
index 68b1d72..69250f3 100644
--- a/src/tensor/embedding.cc
+++ b/src/tensor/embedding.cc
@@ -34,8 +34,17 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -68,6 +77,11 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    // Entire vocabulary is indexed by every tile of vocab
+    if(vocab.grid.shape[1] != 1)
+    {
+        throw std::runtime_error("vocab.grid.shape[1] != 1");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < embed.grid.nelems; ++i)
diff --git a/src/tensor/embedding_backward.cc b/src/tensor/embedding_backward.cc
index 16bf469..115364a 100644
--- a/src/tensor/embedding_backward.cc
+++ b/src/tensor/embedding_backward.cc
@@ -33,8 +33,17 @@ void embedding_backward_async(const Tensor<Index> &index,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -67,6 +76,11 @@ void embedding_backward_async(const Tensor<Index> &index,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    // Entire vocabulary is indexed by every tile of vocab
+    if(vocab.grid.shape[1] != 1)
+    {
+        throw std::runtime_error("vocab.grid.shape[1] != 1");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     // Cycle over embedding tiles
-- 
2.43.0


From 5e01061992ae74cabe205431f2b26d0dbc21b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 13/33] fix: negative batch_ndim was not rejected

---
 src/tensor/add_fiber.cc   | 4 ++++
 src/tensor/mask_scalar.cc | 4 ++++
 src/tensor/sum_fiber.cc   | 4 ++++
 src/tile/add_fiber.cc     | 4 ++++
 src/tile/sum_fiber.cc     | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index efae5a6..9fafd5f 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -35,6 +35,10 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
  * */
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(src.ndim != batch_ndim+1)
     {
         throw std::runtime_error("src.ndim != batch_ndim+1");
diff --git a/src/tensor/mask_scalar.cc b/src/tensor/mask_scalar.cc
index f804b23..beee18c 100644
--- a/src/tensor/mask_scalar.cc
+++ b/src/tensor/mask_scalar.cc
@@ -28,6 +28,10 @@ template<typename T>
 void mask_scalar_async(const Tensor<bool_t> &mask, T val, const Tensor<T> &A,
         Index batch_ndim)
 {
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(mask.ndim != A.ndim-batch_ndim)
     {
         throw std::runtime_error("mask.ndim != A.ndim-batch_ndim");
diff --git a/src/tensor/sum_fiber.cc b/src/tensor/sum_fiber.cc
index f438c5d..00d8b55 100644
--- a/src/tensor/sum_fiber.cc
+++ b/src/tensor/sum_fiber.cc
@@ -26,6 +26,10 @@ void sum_fiber_async(T alpha, const Tensor<T> &src, T beta,
         const Tensor<T> &dst, Index axis, Index batch_ndim, int redux)
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(dst.ndim != batch_ndim+1)
     {
         throw std::runtime_error("dst.ndim != batch_ndim+1");
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index dc9f5e9..6ff4956 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -35,6 +35,10 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
  * */
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(src.ndim != batch_ndim+1)
     {
         throw std::runtime_error("src.ndim != batch_ndim+1");
diff --git a/src/tile/sum_fiber.cc b/src/tile/sum_fiber.cc
index 09a4e42..9e9b3ed 100644
--- a/src/tile/sum_fiber.cc
+++ b/src/tile/sum_fiber.cc
@@ -25,6 +25,10 @@ void sum_fiber_async(T alpha, const Tile<T> &src, T beta,
         const Tile<T> &dst, Index axis, Index batch_ndim)
 {
     // Check dimensions
+    if(batch_ndim < 0)
+    {
+        throw std::runtime_error("batch_ndim < 0");
+    }
     if(dst.ndim != batch_ndim+1)
     {
         throw std::runtime_error("dst.ndim != batch_ndim+1");
-- 
2.43.0


From f3f7bb5a1858eb4eb5c3e3559460dbffbc88146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 14/33] fix: to_array left arrays of other layout or type
 unfilled

---
 wrappers/python/nntile/nntile_core.cc | 42 ++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/nntile_core.cc b/wrappers/python/nntile/nntile_core.cc
index 34c5098..0cfb2de 100644
--- a/wrappers/python/nntile/nntile_core.cc
+++ b/wrappers/python/nntile/nntile_core.cc
@@ -74,6 +74,24 @@ void def_mod_starpu(py::module_ &m)
             starpu_fxt_stop_profiling();});
 }
 
+// Fill given numpy.ndarray in place, even if its memory layout or type differs
+// from what is needed to read the data directly into it
+template<typename T, typename F>
+void fill_array(py::array array, const F &read)
+{
+    using array_type = py::array_t<T, py::array::f_style>;
+    if(py::isinstance<array_type>(array))
+    {
+        auto direct = py::reinterpret_borrow<array_type>(array);
+        read(direct);
+        return;
+    }
+    array_type tmp(std::vector<py::ssize_t>(array.shape(),
+            array.shape()+array.ndim()));
+    read(tmp);
+    py::module_::import("numpy").attr("copyto")(array, tmp);
+}
+
 // numpy.ndarray -> Tile
 template<typename T>
 void tile_from_array(const tile::Tile<T> &tile,
@@ -158,6 +176,14 @@ void tile_to_array(const tile::Tile<T> &tile,
     tile_local.release();
 }
 
+// Tile -> numpy.ndarray of any layout
+template<typename T>
+void tile_to_any_array(const tile::Tile<T> &tile, py::array array)
+{
+    fill_array<T>(array, [&](py::array_t<T, py::array::f_style> &direct){
+            tile_to_array<T>(tile, direct);});
+}
+
 // Extend (sub)module with nntile::tile::Tile<T>
 template<typename T>
 void def_class_tile(py::module_ &m, const char *name)
@@ -167,9 +193,9 @@ void def_class_tile(py::module_ &m, const char *name)
         def(py::init<const TileTraits &>()).
         def("unregister", &Tile<T>::unregister).
         def("from_array", tile_from_array<T>).
-        def("to_array", tile_to_array<T>);
+        def("to_array", tile_to_any_array<T>);
     m.def("tile_from_array", tile_from_array<T>);
-    m.def("tile_to_array", tile_to_array<T>);
+    m.def("tile_to_array", tile_to_any_array<T>);
 }
 
 // Extend (sub)module with nntile::tile functionality
@@ -329,6 +355,14 @@ void tensor_to_array(const tensor::Tensor<T> &tensor,
     tmp.unregister();
 }
 
+// Tensor -> numpy.ndarray of any layout
+template<typename T>
+void tensor_to_any_array(const tensor::Tensor<T> &tensor, py::array array)
+{
+    fill_array<T>(array, [&](py::array_t<T, py::array::f_style> &direct){
+            tensor_to_array<T>(tensor, direct);});
+}
+
 // Extend (sub)module with nntile::tensor::Tensor<T>
 template<typename T>
 void def_class_tensor(py::module_ &m, const char *name)
@@ -344,7 +378,7 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("invalidate_submit", &Tensor<T>::wont_use).
         def("wont_use", &Tensor<T>::wont_use).
         def("from_array", tensor_from_array<T>).
-        def("to_array", tensor_to_array<T>).
+        def("to_array", tensor_to_any_array<T>).
         def("set_reduction_add", &Tensor<T>::set_reduction_add).
         def("set_reduction_hypot", &Tensor<T>::set_reduction_hypot).
         def("set_reduction_maxsumexp", &Tensor<T>::set_reduction_maxsumexp).
@@ -353,7 +387,7 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("get_tile", static_cast<tile::Tile<T>(Tensor<T>::*)(Index) const>(
                     &Tensor<T>::get_tile)).
         def_readonly("distribution", &Tensor<T>::tile_distr);
-    m.def("tensor_to_array", tensor_to_array<T>);
+    m.def("tensor_to_array", tensor_to_any_array<T>);
     m.def("tensor_from_array", tensor_from_array<T>);
 }
 
-- 
2.43.0


From 9d584b38ae69f183dd682fe36ec980f1a9a4c3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 15/33] fix: bias correction of AMSGrad step

---
 wrappers/python/nntile/optimizer/adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index d1a0937..6e5e4c6 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -84,7 +84,7 @@ class Adam:
             if self.amsgrad:
                 nntile.tensor.maximum_async(self.second_moments[i], \
                         self.max_second_moments[i])
-                nntile.tensor.addcdiv_async(step_size/scale_factor, \
+                nntile.tensor.addcdiv_async(step_size*scale_factor, \
                         self.eps*scale_factor, self.first_moments[i], \
                         self.max_second_moments[i], p.value)
                 self.max_second_moments[i].wont_use()
-- 
2.43.0


From be51257ed16b9c94777e4de740678d934484e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 16/33] fix: Adam saved maximal second moment of the last
 parameter for all parameters

---
 wrappers/python/nntile/optimizer/adam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 6e5e4c6..2af365d 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -112,8 +112,8 @@ class Adam:
             second_moments.append(s_m.copy())
         
         for m_s_m_nntile in self.max_second_moments:
-            m_s_m = np.array(np.zeros(self.max_second_moments[i].shape, dtype=self.dtype), order="F")
-            self.max_second_moments[i].to_array(m_s_m)
+            m_s_m = np.array(np.zeros(m_s_m_nntile.shape, dtype=self.dtype), order="F")
+            m_s_m_nntile.to_array(m_s_m)
             max_second_moments.append(m_s_m.copy())
         
         stored_data = {
-- 
2.43.0


From 2951c6c408652055c91d8bedd14c611d9539ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 17/33] fix: loading state of fused optimizers failed or lost
 double precision

---
 wrappers/python/nntile/optimizer/adam.py  | 12 ++++++++----
 wrappers/python/nntile/optimizer/adamw.py |  9 +++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 2af365d..739e90f 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -215,8 +215,8 @@ class FusedAdam:
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
             self.second_moments[i].to_array(s_m)
             if dtype == "fp32":
-                first_moments.append(f_m.copy())
-                second_moments.append(s_m.copy())
+                first_moments.append(torch.tensor(f_m))
+                second_moments.append(torch.tensor(s_m))
             elif dtype == "fp16":
                 first_moments.append(torch.tensor(f_m, dtype=torch.float16))
                 second_moments.append(torch.tensor(s_m, dtype=torch.float16))
@@ -255,6 +255,10 @@ class FusedAdam:
         first_moments = stored_states["first_moments"]
         second_moments = stored_states["second_moments"]
         for i in range(len(first_moments)):
-            self.first_moments[i].from_array(first_moments[i].to(torch.float32))
-            self.second_moments[i].from_array(second_moments[i].to(torch.float32))
+            f_m, s_m = first_moments[i], second_moments[i]
+            # Half precision formats are unknown to numpy
+            if f_m.dtype in (torch.float16, torch.bfloat16):
+                f_m, s_m = f_m.to(torch.float32), s_m.to(torch.float32)
+            self.first_moments[i].from_array(f_m)
+            self.second_moments[i].from_array(s_m)
 
diff --git a/wrappers/python/nntile/optimizer/adamw.py b/wrappers/python/nntile/optimizer/adamw.py
index 6621970..32dae7e 100644
--- a/wrappers/python/nntile/optimizer/adamw.py
+++ b/wrappers/python/nntile/optimizer/adamw.py
@@ -120,11 +120,12 @@ class FusedAdamW:
         first_moments = stored_states["first_moments"]
         second_moments = stored_states["second_moments"]
         for i in range(len(first_moments)):
-            f = first_moments[i].to(torch.float32)
+            f, s = first_moments[i], second_moments[i]
+            # Half precision formats are unknown to numpy
+            if f.dtype in (torch.float16, torch.bfloat16):
+                f, s = f.to(torch.float32), s.to(torch.float32)
             self.first_moments[i].from_array(f)
-            del f
-            s = second_moments[i].to(torch.float32)
             self.second_moments[i].from_array(s)
-            del s
+            del f, s
         del stored_states, first_moments, second_moments
 
-- 
2.43.0


From d8ceb24833bb973d799ef3a4f1a0dbfb7ea9b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 18/33] fix: saving state of an optimizer before its first step
 aborted

---
 wrappers/python/nntile/optimizer/adam.py  | 10 +++++++---
 wrappers/python/nntile/optimizer/adamw.py |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 739e90f..7ef65a0 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -102,7 +102,9 @@ class Adam:
         first_moments = []
         second_moments = []
         max_second_moments = []
-        for i in range(len(self.first_moments)):
+        # There are no moments before the first step
+        nsaved = len(self.first_moments) if self.num_iter > 1 else 0
+        for i in range(nsaved):
             f_m = np.array(np.zeros(self.first_moments[i].shape, dtype=self.dtype), order="F")
             self.first_moments[i].to_array(f_m)
             first_moments.append(f_m.copy())
@@ -111,7 +113,7 @@ class Adam:
             self.second_moments[i].to_array(s_m)
             second_moments.append(s_m.copy())
         
-        for m_s_m_nntile in self.max_second_moments:
+        for m_s_m_nntile in self.max_second_moments[:nsaved]:
             m_s_m = np.array(np.zeros(m_s_m_nntile.shape, dtype=self.dtype), order="F")
             m_s_m_nntile.to_array(m_s_m)
             max_second_moments.append(m_s_m.copy())
@@ -209,7 +211,9 @@ class FusedAdam:
     def save_state(self, path, dtype="fp32"):
         first_moments = []
         second_moments = []
-        for i in range(len(self.first_moments)):
+        # There are no moments before the first step
+        nsaved = len(self.first_moments) if self.num_iter > 1 else 0
+        for i in range(nsaved):
             f_m = np.array(np.zeros(self.first_moments[i].shape, dtype=self.dtype), order="F")
             self.first_moments[i].to_array(f_m)
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
diff --git a/wrappers/python/nntile/optimizer/adamw.py b/wrappers/python/nntile/optimizer/adamw.py
index 32dae7e..c6f61c7 100644
--- a/wrappers/python/nntile/optimizer/adamw.py
+++ b/wrappers/python/nntile/optimizer/adamw.py
@@ -74,7 +74,9 @@ class FusedAdamW:
     def save_state(self, path, dtype="fp32"):
         first_moments = []
         second_moments = []
-        for i in range(len(self.first_moments)):
+        # There are no moments before the first step
+        nsaved = len(self.first_moments) if self.num_iter > 1 else 0
+        for i in range(nsaved):
             f_m = np.array(np.zeros(self.first_moments[i].shape, dtype=self.dtype), order="F")
             self.first_moments[i].to_array(f_m)
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
-- 
2.43.0


From 671ebaf708f506f3b6add26121f311aacbe30778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 19/33] fix: flash operations accessed memory out of bounds for
 uneven or mismatched tiles

---
 src/tensor/flash_maxsumexp.cc             |  90 +++++++---------
 src/tensor/flash_softmax_gemm.cc          |  98 +++++++++---------
 src/tensor/flash_softmax_gemm_backward.cc | 120 ++++++++++++----------
 3 files changed, 152 insertions(+), 156 deletions(-)

diff --git a/src/tensor/flash_maxsumexp.cc b/src/tensor/flash_maxsumexp.cc
index 152d17d..d35e215 100644
--- a/src/tensor/flash_maxsumexp.cc
+++ b/src/tensor/flash_maxsumexp.cc
@@ -28,58 +28,44 @@ void flash_maxsumexp_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<bool_t> &mask, const Tensor<T> &maxsumexp,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Kernels process whole tiles, all of the same size
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    // Check shapes and tiles of other tensors
+    if(K.shape != Q.shape or K.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("Shapes or tiles of Q and K differ");
+    }
+    const std::vector<Index> &q = Q.shape, &q_tile = Q.basetile_shape;
+    if(mask.shape != std::vector<Index>{q[1], q[1]}
+            or mask.basetile_shape != std::vector<Index>{q_tile[1], q_tile[1]})
+    {
+        throw std::runtime_error("Invalid shape or tile of mask");
+    }
+    if(maxsumexp.shape != std::vector<Index>{2, q[1], q[2], q[3]}
+            or maxsumexp.basetile_shape != std::vector<Index>{2, q_tile[1], q_tile[2], q_tile[3]})
+    {
+        throw std::runtime_error("Invalid shape or tile of maxsumexp");
+    }
+    if(tmp.shape != std::vector<Index>{q[1], q[1], q[2], q[3]}
+            or tmp.basetile_shape != std::vector<Index>{q_tile[1], q_tile[1], q_tile[2], q_tile[3]})
+    {
+        throw std::runtime_error("Invalid shape or tile of tmp");
+    }
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
diff --git a/src/tensor/flash_softmax_gemm.cc b/src/tensor/flash_softmax_gemm.cc
index 2dd4782..82c4598 100644
--- a/src/tensor/flash_softmax_gemm.cc
+++ b/src/tensor/flash_softmax_gemm.cc
@@ -31,58 +31,52 @@ void flash_softmax_gemm_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<T> &maxsumexp, const Tensor<T> &dst,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Kernels process whole tiles, all of the same size
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    // Check shapes and tiles of other tensors
+    if(K.shape != Q.shape or K.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("Shapes or tiles of Q and K differ");
+    }
+    if(V.shape != Q.shape or V.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("Shapes or tiles of Q and V differ");
+    }
+    if(dst.shape != Q.shape or dst.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("Shapes or tiles of Q and dst differ");
+    }
+    const std::vector<Index> &q = Q.shape, &q_tile = Q.basetile_shape;
+    if(mask.shape != std::vector<Index>{q[1], q[1]}
+            or mask.basetile_shape != std::vector<Index>{q_tile[1], q_tile[1]})
+    {
+        throw std::runtime_error("Invalid shape or tile of mask");
+    }
+    if(maxsumexp.shape != std::vector<Index>{2, q[1], q[2], q[3]}
+            or maxsumexp.basetile_shape != std::vector<Index>{2, q_tile[1], q_tile[2], q_tile[3]})
+    {
+        throw std::runtime_error("Invalid shape or tile of maxsumexp");
+    }
+    if(tmp.shape != std::vector<Index>{q[1], q[1], q[2], q[3]}
+            or tmp.basetile_shape != std::vector<Index>{q_tile[1], q_tile[1], q_tile[2], q_tile[3]})
+    {
+        throw std::runtime_error("Invalid shape or tile of tmp");
+    }
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
diff --git a/src/tensor/flash_softmax_gemm_backward.cc b/src/tensor/flash_softmax_gemm_backward.cc
index b478d6e..0054d52 100644
--- a/src/tensor/flash_softmax_gemm_backward.cc
+++ b/src/tensor/flash_softmax_gemm_backward.cc
@@ -31,58 +31,74 @@ void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
         const Tensor<T> &tmp, const Tensor<T> &tmp_grad,
         const Tensor<T> &tmp_sumprod_slice, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Kernels process whole tiles, all of the same size
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    // Check shapes and tiles of other tensors
+    if(dQ.shape != Q.shape or dQ.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("Shapes or tiles of Q and dQ differ");
+    }
+    if(K.shape != Q.shape or K.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("Shapes or tiles of Q and K differ");
+    }
+    if(dK.shape != Q.shape or dK.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("Shapes or tiles of Q and dK differ");
+    }
+    if(V.shape != Q.shape or V.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("Shapes or tiles of Q and V differ");
+    }
+    if(dV.shape != Q.shape or dV.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("Shapes or tiles of Q and dV differ");
+    }
+    if(dst_grad.shape != Q.shape or dst_grad.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("Shapes or tiles of Q and dst_grad differ");
+    }
+    const std::vector<Index> &q = Q.shape, &q_tile = Q.basetile_shape;
+    if(mask.shape != std::vector<Index>{q[1], q[1]}
+            or mask.basetile_shape != std::vector<Index>{q_tile[1], q_tile[1]})
+    {
+        throw std::runtime_error("Invalid shape or tile of mask");
+    }
+    if(maxsumexp.shape != std::vector<Index>{2, q[1], q[2], q[3]}
+            or maxsumexp.basetile_shape != std::vector<Index>{2, q_tile[1], q_tile[2], q_tile[3]})
+    {
+        throw std::runtime_error("Invalid shape or tile of maxsumexp");
+    }
+    if(tmp.shape != std::vector<Index>{q[1], q[1], q[2], q[3]}
+            or tmp.basetile_shape != std::vector<Index>{q_tile[1], q_tile[1], q_tile[2], q_tile[3]})
+    {
+        throw std::runtime_error("Invalid shape or tile of tmp");
+    }
+    if(tmp_grad.shape != std::vector<Index>{q[1], q[1], q[2], q[3]}
+            or tmp_grad.basetile_shape != std::vector<Index>{q_tile[1], q_tile[1], q_tile[2], q_tile[3]})
+    {
+        throw std::runtime_error("Invalid shape or tile of tmp_grad");
+    }
+    if(tmp_sumprod_slice.shape != std::vector<Index>{q[1], q[2], q[3]}
+            or tmp_sumprod_slice.basetile_shape != std::vector<Index>{q_tile[1], q_tile[2], q_tile[3]})
+    {
+        throw std::runtime_error("Invalid shape or tile of tmp_sumprod_slice");
+    }
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
-- 
2.43.0


From dac776a2c7a8e4ac383cbc493dd54c830e5b91ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 20/33] fix: synchronous forward and backward of layers
 (missing import, backward called forward)

---
 wrappers/python/nntile/layer/base_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/base_layer.py b/wrappers/python/nntile/layer/base_layer.py
index b5c0ae8..dc59efd 100644
--- a/wrappers/python/nntile/layer/base_layer.py
+++ b/wrappers/python/nntile/layer/base_layer.py
@@ -11,6 +11,7 @@
 # @author Aleksandr Mikhalev
 # @date 2023-05-06
 
+from nntile.nntile_core import starpu
 from nntile.tensor import Tensor, TensorMoments, randn_async
 import numpy as np
 from typing import List, Union
@@ -54,7 +55,7 @@ class BaseLayer(object):
         raise NotImplementedError
 
     def backward(self):
-        self.forward_async()
+        self.backward_async()
         starpu.wait_for_all()
 
     # Unregister layer weights and temporary tensors
-- 
2.43.0


From d3e413e5dbf789eb5e67ffa6d2abc2cbd3bd211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 21/33] fix: GAP.backward_async overwrote the gradient of its
 input instead of accumulating into it

---
 wrappers/python/nntile/layer/mixer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 99d76a9..2e6ec96 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -67,7 +67,7 @@ class GAP(BaseLayer):
     def backward_async(self):
         alpha = 1 / (self.x.value.shape[0])
         transpose_async(1.0, self.y.grad, self.yT.grad, 1)
-        add_slice_async(alpha, self.yT.grad, 0.0, self.x.grad, 0)
+        add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
 
 
 class MixerMlp(BaseLayer):
-- 
2.43.0


From 0af9ab0d2bc1c2c54a2914bfc8d263404de932b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 22/33] fix: backward of Add and AddSlice failed for inputs
 that do not require a gradient

---
 wrappers/python/nntile/layer/add.py       | 10 ++++++----
 wrappers/python/nntile/layer/add_slice.py | 15 +++++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/wrappers/python/nntile/layer/add.py b/wrappers/python/nntile/layer/add.py
index cb5a01c..c480203 100644
--- a/wrappers/python/nntile/layer/add.py
+++ b/wrappers/python/nntile/layer/add.py
@@ -45,10 +45,12 @@ class Add(BaseLayer):
         self.res.value.wont_use()
     
     def backward_async(self):
-        add_async(1, self.res.grad, 1, self.x.grad)
-        add_async(1, self.res.grad, 1, self.y.grad)
-        self.x.grad.wont_use()
-        self.y.grad.wont_use()
+        if self.x.grad_required:
+            add_async(1, self.res.grad, 1, self.x.grad)
+            self.x.grad.wont_use()
+        if self.y.grad_required:
+            add_async(1, self.res.grad, 1, self.y.grad)
+            self.y.grad.wont_use()
         self.res.grad.wont_use()
 
     def unregister(self):
diff --git a/wrappers/python/nntile/layer/add_slice.py b/wrappers/python/nntile/layer/add_slice.py
index 1b28202..f909f3f 100644
--- a/wrappers/python/nntile/layer/add_slice.py
+++ b/wrappers/python/nntile/layer/add_slice.py
@@ -24,7 +24,8 @@ class AddSlice(BaseLayer):
         # Set up local named parameters
         self.x = x
         self.y = y
-        self.y.grad.set_reduction_add()
+        if self.y.grad is not None:
+            self.y.grad.set_reduction_add()
         self.u = u
         self.axis = axis
         if redux:
@@ -43,11 +44,13 @@ class AddSlice(BaseLayer):
         self.u.value.wont_use()
 
     def backward_async(self):
-        add_async(1, self.u.grad, 1, self.x.grad)
-        sum_slice_async(1, self.u.grad, 1, self.y.grad, self.axis, \
-                redux=self.redux)
-        self.x.grad.wont_use()
-        self.y.grad.wont_use()
+        if self.x.grad_required:
+            add_async(1, self.u.grad, 1, self.x.grad)
+            self.x.grad.wont_use()
+        if self.y.grad_required:
+            sum_slice_async(1, self.u.grad, 1, self.y.grad, self.axis, \
+                    redux=self.redux)
+            self.y.grad.wont_use()
         self.u.grad.wont_use()
         
     # Simple generator for the add_slice layer
-- 
2.43.0


From fce2fc7227740b759a4decaa2408e22175d332d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 23/33] fix: CrossEntropy failed for a model output that does
 not require a gradient

---
 wrappers/python/nntile/loss/crossentropy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/loss/crossentropy.py b/wrappers/python/nntile/loss/crossentropy.py
index 855e718..6ecba44 100644
--- a/wrappers/python/nntile/loss/crossentropy.py
+++ b/wrappers/python/nntile/loss/crossentropy.py
@@ -93,7 +93,8 @@ class CrossEntropy:
             subtract_indexed_outputs_async(self.scale, self.y, \
                     self.model_output.grad)
         self.model_output.value.wont_use()
-        self.model_output.grad.wont_use()
+        if self.model_output.grad_required is True:
+            self.model_output.grad.wont_use()
         self.maxsumexp.wont_use()
         self.logsumexp.wont_use()
         self.val.wont_use()
-- 
2.43.0


From 5e7c17c844512094438aee1569345cde2ca8a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 24/33] fix: Frob loss lacked get_val, which the training
 pipeline calls

---
 wrappers/python/nntile/loss/frob.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wrappers/python/nntile/loss/frob.py b/wrappers/python/nntile/loss/frob.py
index b3e1f8b..253f984 100644
--- a/wrappers/python/nntile/loss/frob.py
+++ b/wrappers/python/nntile/loss/frob.py
@@ -54,6 +54,12 @@ class Frob:
         loss = Frob(x, y, val, val2, tmp)
         return loss, next_tag
 
+    def get_val(self, val_np):
+        self.val.to_array(val_np)
+
+    def get_grad(self, grad_np):
+        self.x.grad.to_array(grad_np)
+
     # Get value and gradient if needed
     def calc_async(self):
         # Put X into gradient grad X
-- 
2.43.0


From 785c62c30661730f57cbcaad656acdf56a1261c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 25/33] fix: MlpMixer converted a square weight of the initial
 layer without transposing it

---
 wrappers/python/nntile/model/mlp_mixer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/model/mlp_mixer.py b/wrappers/python/nntile/model/mlp_mixer.py
index 79c24fa..b9daa39 100644
--- a/wrappers/python/nntile/model/mlp_mixer.py
+++ b/wrappers/python/nntile/model/mlp_mixer.py
@@ -118,8 +118,9 @@ class MlpMixer(BaseModel):
         x_moments = TensorMoments(x, x_grad, x_grad_required)
   
         mlp_mixer_nntile = MlpMixer(x_moments, hidden_layer_dim, n_mixer_layers, n_classes, next_tag)
-        for p, p_torch in zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters()):
-            if p.value.shape[0] != p_torch.shape[0]:
+        for i, (p, p_torch) in enumerate(zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters())):
+            # Weight of the initial layer (side 'L') is always transposed, even if it is square
+            if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                 p.value.from_array(p_torch.detach().numpy().T)
             else:
                 p.value.from_array(p_torch.detach().numpy())
@@ -128,8 +129,8 @@ class MlpMixer(BaseModel):
 
     def to_torch(self, torch_mlp_mixer):
         with torch.no_grad():
-            for (p, p_torch) in zip(self.parameters, torch_mlp_mixer.parameters()):
-                if p.value.shape[0] != p_torch.shape[0]:
+            for i, (p, p_torch) in enumerate(zip(self.parameters, torch_mlp_mixer.parameters())):
+                if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                     nntile_np = np.zeros(p.value.shape, dtype=np.float32, order="F")
                     p.value.to_array(nntile_np)
                     p_torch.copy_(torch.from_numpy(nntile_np.T))
-- 
2.43.0


From 72b5934fc323321f5b225afc46070d90b49f86b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 26/33] fix: asynchronous tile randn waited for its task to
 release the index workspace

---
 src/tile/randn.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile/randn.cc b/src/tile/randn.cc
index 1a00eb3..8f66833 100644
--- a/src/tile/randn.cc
+++ b/src/tile/randn.cc
@@ -65,7 +65,7 @@ void randn_async(const Tile<T> &dst, const std::vector<Index> &start,
     if(ndim != 0)
     {
         // Temporary index
-        starpu::VariableHandle tmp_index(sizeof(Index)*2*ndim, STARPU_R);
+        starpu::VariableHandle tmp_index(sizeof(Index)*2*ndim, STARPU_SCRATCH);
         // Insert task
         starpu::randn::submit<T>(ndim, dst.nelems, seed, mean, stddev, start,
                 dst.shape, dst.stride, underlying_shape, dst, tmp_index);
-- 
2.43.0


From b7601575617da559ce658d5ba17e8bbf63389266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 27/33] fix: block_cyclic read out of bounds for a tensor
 without dimensions

---
 src/tensor/distributions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/distributions.cc b/src/tensor/distributions.cc
index 1c20048..3e993de 100644
--- a/src/tensor/distributions.cc
+++ b/src/tensor/distributions.cc
@@ -50,8 +50,8 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
             index[j] %= mpi_grid[j];
         }
         // Obtain corresponding mpi rank
-        int mpi_rank = index[ndim-1];
-        for(Index j = ndim-2; j >= 0; --j)
+        int mpi_rank = 0;
+        for(Index j = ndim-1; j >= 0; --j)
         {
             mpi_rank = mpi_rank*mpi_grid[j] + index[j];
         }
-- 
2.43.0


From f27e49f8f67587b7870a70e2f6775eedc64495ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 28/33] fix: block_cyclic divided by zero for an empty process
 grid and accepted a negative one

---
 src/tensor/distributions.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tensor/distributions.cc b/src/tensor/distributions.cc
index 3e993de..24adaf8 100644
--- a/src/tensor/distributions.cc
+++ b/src/tensor/distributions.cc
@@ -31,6 +31,14 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
         throw std::runtime_error("Wrong number of dimensions");
     }
     const Index ndim = mpi_grid.size();
+    // Check if mpi grid has only positive values
+    for(Index i = 0; i < ndim; ++i)
+    {
+        if(mpi_grid[i] <= 0)
+        {
+            throw std::runtime_error("mpi_grid[i] <= 0");
+        }
+    }
     // Check starting and maximum ranks
     if(start_rank < 0 or start_rank >= max_rank)
     {
-- 
2.43.0


From 5a87bb34497ad5f76c2e6206c25de3b6b079bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 29/33] fix: allocate task arguments of normalize, sumnorm and
 gemm_ex with malloc

StarPU releases STARPU_CL_ARGS buffers with free(), so memory obtained from
operator new must not be given to it.
---
 src/starpu/gemm_ex.cc   | 21 ++++++++++-----------
 src/starpu/normalize.cc | 15 +++++++--------
 src/starpu/sumnorm.cc   | 11 +++++------
 3 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/starpu/gemm_ex.cc b/src/starpu/gemm_ex.cc
index 30f5461..fe211f2 100644
--- a/src/starpu/gemm_ex.cc
+++ b/src/starpu/gemm_ex.cc
@@ -13,6 +13,7 @@
  * */
 
 #include "nntile/starpu/gemm_ex.hh"
+#include <cstdlib>
 
 #ifdef NNTILE_USE_CUDA
 #   include <cublas_v2.h>
@@ -240,17 +241,15 @@ void submit(const TransOp &transA, const TransOp &transB, Index m, Index n,
         C_mode = STARPU_RW;
     }
     // Codelet arguments
-    auto args = new args_t<T>
-    {
-        .transA = transA,
-        .transB = transB,
-        .m = m,
-        .n = n,
-        .k = k,
-        .batch = batch,
-        .alpha = alpha,
-        .beta = beta
-    };
+    args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    args->transA = transA;
+    args->transB = transB;
+    args->m = m;
+    args->n = n;
+    args->k = k;
+    args->batch = batch;
+    args->alpha = alpha;
+    args->beta = beta;
     fp64_t nflops = 2 * m * n * k;
     // Submit task
     int ret = starpu_task_insert(codelet<T>(transA, transB),
diff --git a/src/starpu/normalize.cc b/src/starpu/normalize.cc
index 24d2ef9..6fc9b2e 100644
--- a/src/starpu/normalize.cc
+++ b/src/starpu/normalize.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/normalize.hh"
 #include "nntile/kernel/normalize.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -125,14 +126,12 @@ void submit(Index m, Index n, Index k, Index l, T eps, Handle gamma_beta,
  * */
 {
     // Codelet arguments
-    auto args = new args_t<T>
-    {
-        .m = m,
-        .n = n,
-        .k = k,
-        .l = l,
-        .eps = eps
-    };
+    args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    args->m = m;
+    args->n = n;
+    args->k = k;
+    args->l = l;
+    args->eps = eps;
     fp64_t nflops = 14 * m * n * k;
     // Submit task
     int ret = starpu_task_insert(codelet<T>(),
diff --git a/src/starpu/sumnorm.cc b/src/starpu/sumnorm.cc
index 1a90ca5..daedbc4 100644
--- a/src/starpu/sumnorm.cc
+++ b/src/starpu/sumnorm.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/sumnorm.hh"
 #include "nntile/kernel/sumnorm.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -117,12 +118,10 @@ void submit(Index m, Index n, Index k, Handle src, Handle dst)
  * */
 {
     // Codelet arguments
-    auto args = new args_t
-    {
-        .m = m,
-        .n = n,
-        .k = k
-    };
+    args_t *args = (args_t *)std::malloc(sizeof(*args));
+    args->m = m;
+    args->n = n;
+    args->k = k;
     //fp64_t nflops = m * n * k;
     // Submit task
     int ret = starpu_task_insert(codelet<T>(),
-- 
2.43.0


From 2aeed0379ab941f36e906ad59fce40794d1481cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 30/33] fix: tile-level sqrt, gelutanh and mask_scalar did not
 check operand shapes (out of bounds access)

---
 src/tile/gelutanh.cc    |  7 ++++++-
 src/tile/mask_scalar.cc | 19 ++++++++++++++++++-
 src/tile/sqrt.cc        |  7 ++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/tile/gelutanh.cc b/src/tile/gelutanh.cc
index cb64aaa..20ae339 100644
--- a/src/tile/gelutanh.cc
+++ b/src/tile/gelutanh.cc
@@ -26,7 +26,12 @@ namespace tile
 template<typename T>
 void gelutanh_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::gelutanh::submit<T>(src.nelems, src, dst);
 }
 
diff --git a/src/tile/mask_scalar.cc b/src/tile/mask_scalar.cc
index a67a41f..0790115 100644
--- a/src/tile/mask_scalar.cc
+++ b/src/tile/mask_scalar.cc
@@ -27,7 +27,24 @@ namespace tile
 template<typename T>
 void mask_scalar_async(const Tile<bool_t> &mask, T val, const Tile<T> &A)
 {
-    // Submit task without any arguments checked
+    // Check dimensions
+    if(A.ndim < 1)
+    {
+        throw std::runtime_error("A.ndim < 1");
+    }
+    if(mask.ndim != A.ndim-1)
+    {
+        throw std::runtime_error("mask.ndim != A.ndim-1");
+    }
+    // Check shapes
+    for(Index i = 0; i < mask.ndim; ++i)
+    {
+        if(mask.shape[i] != A.shape[i])
+        {
+            throw std::runtime_error("mask.shape[i] != A.shape[i]");
+        }
+    }
+    // Submit task
     starpu::mask_scalar::submit<T>(A.matrix_shape[A.ndim-1][0],
             A.shape[A.ndim-1], mask, val, A);
 }
diff --git a/src/tile/sqrt.cc b/src/tile/sqrt.cc
index ee2713e..b8a5a6a 100644
--- a/src/tile/sqrt.cc
+++ b/src/tile/sqrt.cc
@@ -27,7 +27,12 @@ namespace tile
 template<typename T>
 void sqrt_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::sqrt::submit<T>(src.nelems, src, dst);
 }
 
-- 
2.43.0


From f55576633ee3fad311484311fdfd5bbb219da272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 31/33] fix: allocate arguments of the remaining tasks with
 malloc

As for normalize and sumnorm: StarPU releases STARPU_CL_ARGS buffers with
free(), so memory obtained from operator new must not be given to it.
---
 src/starpu/axpy.cc.in          |  8 ++++++--
 src/starpu/dgelu.cc            |  4 +++-
 src/starpu/dgelutanh.cc        |  4 +++-
 src/starpu/drelu.cc            |  4 +++-
 src/starpu/fp16_to_fp32.cc     |  4 +++-
 src/starpu/fp32_to_fp16.cc     |  4 +++-
 src/starpu/gelu.cc             |  4 +++-
 src/starpu/gelutanh_inplace.cc |  4 +++-
 src/starpu/gemm.cc.in          | 21 ++++++++++-----------
 src/starpu/maximum.cc          |  4 +++-
 src/starpu/nrm2.cc.in          |  4 +++-
 src/starpu/prod.cc             |  4 +++-
 src/starpu/relu.cc             |  4 +++-
 src/starpu/relu_forward.cc     |  4 +++-
 14 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/src/starpu/axpy.cc.in b/src/starpu/axpy.cc.in
index 82ebf38..d090c0e 100644
--- a/src/starpu/axpy.cc.in
+++ b/src/starpu/axpy.cc.in
@@ -14,6 +14,7 @@
  * */
 
 #include "nntile/starpu/axpy.hh"
+#include <cstdlib>
 
 #ifdef NNTILE_USE_CBLAS
 #   include <@CBLAS_H_NAME@>
@@ -239,7 +240,8 @@ void submit(Handle alpha, Index nelems, Handle src, Handle dst)
     }
 #endif // NNTILE_USE_CUDA
     // Codelet arguments
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     // Submit task
     int ret = starpu_task_insert(codelet_tensor_alpha<T>(),
             STARPU_R, static_cast<starpu_data_handle_t>(alpha),
@@ -280,7 +282,9 @@ void submit(T alpha, Index nelems, Handle src, Handle dst)
     }
 #endif // NNTILE_USE_CUDA
     // Codelet arguments
-    auto cl_args = new args2_t<T>{nelems, alpha};
+    auto cl_args = (args2_t<T> *)std::malloc(sizeof(args2_t<T>));
+    cl_args->nelems = nelems;
+    cl_args->alpha = alpha;
     // Submit task
     int ret = starpu_task_insert(codelet_scalar_alpha<T>(),
             STARPU_R, static_cast<starpu_data_handle_t>(src),
diff --git a/src/starpu/dgelu.cc b/src/starpu/dgelu.cc
index beed272..7cff083 100644
--- a/src/starpu/dgelu.cc
+++ b/src/starpu/dgelu.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/dgelu.hh"
 #include "nntile/kernel/dgelu.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -94,7 +95,8 @@ void restore_where()
 template<typename T>
 void submit(Index nelems, Handle data)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_RW, static_cast<starpu_data_handle_t>(data),
diff --git a/src/starpu/dgelutanh.cc b/src/starpu/dgelutanh.cc
index ad8fa2d..6c72410 100644
--- a/src/starpu/dgelutanh.cc
+++ b/src/starpu/dgelutanh.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/dgelutanh.hh"
 #include "nntile/kernel/dgelutanh.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -94,7 +95,8 @@ void restore_where()
 template<typename T>
 void submit(Index nelems, Handle data)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_RW, static_cast<starpu_data_handle_t>(data),
diff --git a/src/starpu/drelu.cc b/src/starpu/drelu.cc
index 7bb6a64..793e3c7 100644
--- a/src/starpu/drelu.cc
+++ b/src/starpu/drelu.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/drelu.hh"
 #include "nntile/kernel/drelu.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -94,7 +95,8 @@ void restore_where()
 template<typename T>
 void submit(Index nelems, Handle data)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_RW, static_cast<starpu_data_handle_t>(data),
diff --git a/src/starpu/fp16_to_fp32.cc b/src/starpu/fp16_to_fp32.cc
index c7c7077..ed0c4b2 100644
--- a/src/starpu/fp16_to_fp32.cc
+++ b/src/starpu/fp16_to_fp32.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/fp16_to_fp32.hh"
 #include "nntile/kernel/fp16_to_fp32.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -82,7 +83,8 @@ void restore_where()
 
 void submit(Index nelems, Handle src, Handle dst)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(&codelet,
             STARPU_R, static_cast<starpu_data_handle_t>(src),
diff --git a/src/starpu/fp32_to_fp16.cc b/src/starpu/fp32_to_fp16.cc
index cffa89f..129307c 100644
--- a/src/starpu/fp32_to_fp16.cc
+++ b/src/starpu/fp32_to_fp16.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/fp32_to_fp16.hh"
 #include "nntile/kernel/fp32_to_fp16.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -82,7 +83,8 @@ void restore_where()
 
 void submit(Index nelems, Handle src, Handle dst)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(&codelet,
             STARPU_R, static_cast<starpu_data_handle_t>(src),
diff --git a/src/starpu/gelu.cc b/src/starpu/gelu.cc
index abdb724..e072f69 100644
--- a/src/starpu/gelu.cc
+++ b/src/starpu/gelu.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/gelu.hh"
 #include "nntile/kernel/gelu.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -94,7 +95,8 @@ void restore_where()
 template<typename T>
 void submit(Index nelems, Handle data)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_RW, static_cast<starpu_data_handle_t>(data),
diff --git a/src/starpu/gelutanh_inplace.cc b/src/starpu/gelutanh_inplace.cc
index a4c6106..ec90ce6 100644
--- a/src/starpu/gelutanh_inplace.cc
+++ b/src/starpu/gelutanh_inplace.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/gelutanh_inplace.hh"
 #include "nntile/kernel/gelutanh_inplace.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -93,7 +94,8 @@ void restore_where()
 template<typename T>
 void submit(Index nelems, Handle data)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_RW, static_cast<starpu_data_handle_t>(data),
diff --git a/src/starpu/gemm.cc.in b/src/starpu/gemm.cc.in
index 8bc52e6..ee26017 100644
--- a/src/starpu/gemm.cc.in
+++ b/src/starpu/gemm.cc.in
@@ -13,6 +13,7 @@
  * */
 
 #include "nntile/starpu/gemm.hh"
+#include <cstdlib>
 
 #ifdef NNTILE_USE_CBLAS
 #   include <@CBLAS_H_NAME@>
@@ -523,17 +524,15 @@ void submit(const TransOp &transA, const TransOp &transB, Index m, Index n,
         C_mode = STARPU_RW;
     }
     // Codelet arguments
-    auto args = new args_t<T_scal>
-    {
-        .transA = transA,
-        .transB = transB,
-        .m = m,
-        .n = n,
-        .k = k,
-        .batch = batch,
-        .alpha = alpha,
-        .beta = beta
-    };
+    args_t<T_scal> *args = (args_t<T_scal> *)std::malloc(sizeof(*args));
+    args->transA = transA;
+    args->transB = transB;
+    args->m = m;
+    args->n = n;
+    args->k = k;
+    args->batch = batch;
+    args->alpha = alpha;
+    args->beta = beta;
     fp64_t nflops = 2 * m * n * k * batch;
     // Submit task
     int ret = starpu_task_insert(codelet<T>(transA, transB),
diff --git a/src/starpu/maximum.cc b/src/starpu/maximum.cc
index 2683c37..924d866 100644
--- a/src/starpu/maximum.cc
+++ b/src/starpu/maximum.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/maximum.hh"
 #include "nntile/kernel/maximum.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -96,7 +97,8 @@ void restore_where()
 template<typename T>
 void submit(Index nelems, Handle src, Handle dst)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_R, static_cast<starpu_data_handle_t>(src),
diff --git a/src/starpu/nrm2.cc.in b/src/starpu/nrm2.cc.in
index 5b223be..1e0c0c0 100644
--- a/src/starpu/nrm2.cc.in
+++ b/src/starpu/nrm2.cc.in
@@ -13,6 +13,7 @@
  * */
 
 #include "nntile/starpu/nrm2.hh"
+#include <cstdlib>
 
 #ifdef NNTILE_USE_CBLAS
 #   include <@CBLAS_H_NAME@>
@@ -167,7 +168,8 @@ void submit(Index nelems, Handle src, Handle dst)
     }
 #endif // NNTILE_USE_CUDA
     // Codelet arguments
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     // Submit task
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_R, static_cast<starpu_data_handle_t>(src),
diff --git a/src/starpu/prod.cc b/src/starpu/prod.cc
index 7bfa90b..9858339 100644
--- a/src/starpu/prod.cc
+++ b/src/starpu/prod.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/prod.hh"
 #include "nntile/kernel/prod.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -96,7 +97,8 @@ void restore_where()
 template<typename T>
 void submit(Index nelems, Handle src, Handle dst)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_R, static_cast<starpu_data_handle_t>(src),
diff --git a/src/starpu/relu.cc b/src/starpu/relu.cc
index d83f80b..f2daa53 100644
--- a/src/starpu/relu.cc
+++ b/src/starpu/relu.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/relu.hh"
 #include "nntile/kernel/relu.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -93,7 +94,8 @@ void restore_where()
 template<typename T>
 void submit(Index nelems, Handle data)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_RW, static_cast<starpu_data_handle_t>(data),
diff --git a/src/starpu/relu_forward.cc b/src/starpu/relu_forward.cc
index f9b009b..e85d559 100644
--- a/src/starpu/relu_forward.cc
+++ b/src/starpu/relu_forward.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/relu_forward.hh"
 #include "nntile/kernel/relu_forward.hh"
+#include <cstdlib>
 
 namespace nntile
 {
@@ -95,7 +96,8 @@ void restore_where()
 template<typename T>
 void submit(Index nelems, Handle src, Handle dst)
 {
-    Index *nelems_ = new Index{nelems};
+    Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_R, static_cast<starpu_data_handle_t>(src),
-- 
2.43.0


From a77f7809157f1d6e0ab31caefb65a96eb6b54ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 32/33] fix: BaseModel.append shall add tensors, not lists of
 them

---
 wrappers/python/nntile/model/base_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/model/base_model.py b/wrappers/python/nntile/model/base_model.py
index ed1a911..7aff4bc 100644
--- a/wrappers/python/nntile/model/base_model.py
+++ b/wrappers/python/nntile/model/base_model.py
@@ -33,9 +33,9 @@ class BaseModel:
 
     # Add a new layer with corresponding new activations
     def append(self, layer: BaseLayer):
-        self.activations.append(layer.activations_output)
+        self.activations.extend(layer.activations_output)
         self.layers.append(layer)
-        self.parameters.append(layer.parameters)
+        self.parameters.extend(layer.parameters)
 
     # Forward propagation
     def forward_async(self):
-- 
2.43.0


From f153234c848af08e4be18247a7975e0fe22b5d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:50 +0000
Subject: [PATCH 33/33] fix: explicit shutdown of Config aborted the process
 when the object was destroyed

---
 include/nntile/starpu/config.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/nntile/starpu/config.hh b/include/nntile/starpu/config.hh
index 3d7b619..f3461ba 100644
--- a/include/nntile/starpu/config.hh
+++ b/include/nntile/starpu/config.hh
@@ -57,6 +57,8 @@ namespace starpu
 class Config: public starpu_conf
 {
     int cublas;
+    //! Whether StarPU is to be shut down by this object
+    bool initialized = false;
 public:
     explicit Config(int ncpus_=-1, int ncuda_=-1, int cublas_=-1)
     {
@@ -86,6 +88,7 @@ public:
         }
         else
         {
+            initialized = true;
             int ncpus_ = starpu_worker_get_count_by_type(STARPU_CPU_WORKER);
             int ncuda_ = starpu_worker_get_count_by_type(STARPU_CUDA_WORKER);
             std::cout << "Initialized NCPU=" << ncpus_ << " NCUDA=" << ncuda_
@@ -105,6 +108,13 @@ public:
     }
     void shutdown()
     {
+        // StarPU shall be shut down only once, either explicitly or by the
+        // destructor
+        if(!initialized)
+        {
+            return;
+        }
+        initialized = false;
 #ifdef NNTILE_USE_CUDA
         if(cublas != 0)
         {
-- 
2.43.0

