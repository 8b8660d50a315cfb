From e9599dcc32ea793509cb7057fabb251b7d03c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:11 +0000
Subject: [PATCH 01/13] fix: copyvec simd versions must not read past the end
 of the source

The software-pipelined loop loaded one vector more than it stored, so the last
iteration read one vector behind src + n.
---
 simd_memory.hpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index ca5430b..2b3ad16 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -288,27 +288,15 @@ struct copyvec
         else
             val.load(src);
 
-        mp_iteration(dst, src + offset, val);
-    }
-
-    static always_inline void mp_iteration(F * dst, const F * src, vec<F> const & loaded_value)
-    {
-        vec<F> val;
-
-        if (src_aligned)
-            val.load_aligned(src);
-        else
-            val.load(src);
-
-        store_aligned<dst_aligned>(loaded_value, dst);
-        copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset, val);
+        store_aligned<dst_aligned>(val, dst);
+        copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset);
     }
 };
 
 template <typename F, bool src_aligned, bool dst_aligned>
 struct copyvec<F, src_aligned, dst_aligned, 0>
 {
-    static always_inline void mp_iteration(F * dst, const F * src, vec<F> loaded_value)
+    static always_inline void mp_iteration(F * dst, const F * src)
     {}
 };
 
-- 
2.43.0


From cbc618a580f58f9ead54ddbb7f0898787a93040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:11 +0000
Subject: [PATCH 02/13] fix: do not truncate the slope of double ramp arguments
 to float

---
 detail/wrap_argument_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/wrap_argument_vector.hpp b/detail/wrap_argument_vector.hpp
index 399dec2..0b1dc47 100644
--- a/detail/wrap_argument_vector.hpp
+++ b/detail/wrap_argument_vector.hpp
@@ -91,7 +91,7 @@ struct vector_ramp_argument
 {
     always_inline vector_ramp_argument(FloatType const & base, FloatType const & slope)
     {
-        float vSlope = data.set_slope(base, slope);
+        FloatType vSlope = data.set_slope(base, slope);
         slope_.set_vec(vSlope);
     }
 
-- 
2.43.0


From aaa7f388ac01e14c51b21a557163cfd009c1c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:11 +0000
Subject: [PATCH 03/13] fix: make the ramp versions of addvec compile

addvec modified a const parameter, addvec_simd called vec::set, which does not exist.
---
 simd_memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index 2b3ad16..d00a2b0 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -356,7 +356,7 @@ inline void addvec(F * out, const F in, unsigned int n)
 }
 
 template <typename F>
-inline void addvec(F * out, const F in, const F slope, unsigned int n)
+inline void addvec(F * out, F in, const F slope, unsigned int n)
 {
     do {
         *out++ += in; in += slope;
@@ -448,7 +448,7 @@ inline void addvec_simd(F * out, const F in, const F slope, unsigned int n)
 {
     const int per_loop = vec<F>::objects_per_cacheline;
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     n /= per_loop;
     do
     {
@@ -475,7 +475,7 @@ template <unsigned int n, typename F>
 inline void addvec_simd(F * out, const F in, const F slope)
 {
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     detail::addvec<F, n>::mp_iteration(out, vin, vslope);
 }
 
-- 
2.43.0


From 7a9efb84c469305491da3b7c1c7ef84ad6355c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:11 +0000
Subject: [PATCH 04/13] fix: avx load_first must clear the upper lanes

_mm256_castps128_ps256 leaves the upper half undefined.
---
 vec/vec_avx_double.hpp | 3 +--
 vec/vec_avx_float.hpp  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 29c6faa..81b85a1 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -141,8 +141,7 @@ public:
 
     void load_first(const double * data)
     {
-        clear();
-        data_ = _mm256_castpd128_pd256(_mm_load_sd(data));
+        data_ = _mm256_insertf128_pd(gen_zero(), _mm_load_sd(data), 0);
     }
 
     void store(double * dest) const
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 350ace8..55aa4dd 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -147,8 +147,7 @@ public:
 
     void load_first(const float * data)
     {
-        clear();
-        data_ = _mm256_castps128_ps256(_mm_load_ss(data));
+        data_ = _mm256_insertf128_ps(gen_zero(), _mm_load_ss(data), 0);
     }
 
     void store(float * dest) const
-- 
2.43.0


From ca2f9b96079613ba964796bb407ee36cacab8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 05/13] fix: avx greater/greater-equal must be false for
 unordered operands

---
 vec/vec_avx_double.hpp | 8 ++++----
 vec/vec_avx_float.hpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 81b85a1..ab795af 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -242,8 +242,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 
@@ -271,8 +271,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 55aa4dd..eef17e2 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -283,8 +283,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 #undef RELATIONAL_OPERATOR
@@ -315,8 +315,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
-- 
2.43.0


From d75b30446aa6d4e1570e8f8136e1de7ae4291cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 06/13] fix: simd peak meters must handle every multiple of the
 cacheline size

The loops consumed 4 vectors per iteration. With 32 byte vectors this is two
cachelines: a single cacheline wrapped the loop counter, odd multiples dropped samples.
---
 simd_peakmeter.hpp | 66 ++++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 44 deletions(-)

diff --git a/simd_peakmeter.hpp b/simd_peakmeter.hpp
index 4cfba27..5816f80 100644
--- a/simd_peakmeter.hpp
+++ b/simd_peakmeter.hpp
@@ -54,37 +54,29 @@ inline F peak_vec(const F * in, F * peak, unsigned int n)
 template <typename F>
 inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
 {
-    vec<F> maximum, abs3;
+    vec<F> maximum, last;
     maximum.load_first(peak);
 
     /* loop */
     const size_t vec_size = vec<F>::size;
-    const size_t unroll = 4 * vec_size;
-    n /= unroll;
+    const size_t per_loop = vec<F>::objects_per_cacheline;
+    n /= per_loop;
     do {
-        vec<F> in0, in1, in2, in3;
-        in0.load_aligned(in);
-        in1.load_aligned(in+vec_size);
-        in2.load_aligned(in+2*vec_size);
-        in3.load_aligned(in+3*vec_size);
-
-        vec<F> abs0 = abs(in0);
-        vec<F> abs1 = abs(in1);
-        vec<F> abs2 = abs(in2);
-        abs3 = abs(in3);
-
-        vec<F> local_max = max_(max_(abs0, abs1),
-                               max_(abs2, abs3));
-
-        maximum = max_(maximum, local_max);
-        in += unroll;
+        for (size_t i = 0; i != per_loop; i += vec_size) {
+            vec<F> sample;
+            sample.load_aligned(in + i);
+
+            last = abs(sample);
+            maximum = max_(maximum, last);
+        }
+        in += per_loop;
     } while(--n);
 
     /* horizonal accumulation */
     *peak = maximum.horizontal_max();
 
     /* return absolute of last sample */
-    return abs3.get(vec<F>::size - 1);
+    return last.get(vec<F>::size - 1);
 }
 
 /* updates peak and squared sum */
@@ -117,31 +109,17 @@ inline void peak_rms_vec_simd(const F * in, F * peak, F * squared_sum, unsigned
 
     /* loop */
     const size_t vec_size = vec<F>::size;
-    const size_t unroll = 4 * vec_size;
-    n /= unroll;
+    const size_t per_loop = vec<F>::objects_per_cacheline;
+    n /= per_loop;
     do {
-        vec<F> in0, in1, in2, in3;
-        in0.load_aligned(in);
-        in1.load_aligned(in+vec_size);
-        in2.load_aligned(in+2*vec_size);
-        in3.load_aligned(in+3*vec_size);
-
-        vec<F> abs0 = abs(in0);
-        vec<F> sqr0 = square(in0);
-        vec<F> abs1 = abs(in1);
-        vec<F> sqr1 = square(in1);
-        vec<F> abs2 = abs(in2);
-        vec<F> sqr2 = square(in2);
-        vec<F> abs3 = abs(in3);
-        vec<F> sqr3 = square(in3);
-
-        vec<F> local_max = max_(max_(abs0, abs1),
-                                max_(abs2, abs3));
-        maximum = max_(maximum, local_max);
-
-        local_squared_sum += sqr0 + sqr1 + sqr2 + sqr3;
-
-        in += unroll;
+        for (size_t i = 0; i != per_loop; i += vec_size) {
+            vec<F> sample;
+            sample.load_aligned(in + i);
+
+            maximum = max_(maximum, abs(sample));
+            local_squared_sum += square(sample);
+        }
+        in += per_loop;
     } while(--n);
 
     /* horizonal accumulation */
-- 
2.43.0


From f5cbf1ab7df6aea7c254aa52caf0a7d58e4d499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 07/13] fix: start horizontal minimum/maximum at the neutral
 element

numeric_limits<F>::min() is the smallest positive number: maxima of negative and
minima of positive samples were wrong.
---
 simd_horizontal_functions.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simd_horizontal_functions.hpp b/simd_horizontal_functions.hpp
index 326fe40..160954b 100644
--- a/simd_horizontal_functions.hpp
+++ b/simd_horizontal_functions.hpp
@@ -36,7 +36,7 @@ namespace nova {
 template <typename F>
 inline F horizontal_max_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = -std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -49,7 +49,7 @@ inline F horizontal_max_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = -std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -71,7 +71,7 @@ inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -84,7 +84,7 @@ inline F horizontal_min_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -139,7 +139,7 @@ inline F horizontal_sum_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
+    F current_max = -std::numeric_limits<F>::infinity();
     F current_min = std::numeric_limits<F>::max();
     using namespace std;
 
@@ -155,7 +155,7 @@ inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int
 template <typename F>
 inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
     vec<F> current_min(std::numeric_limits<F>::max());
 
     /* loop */
@@ -178,7 +178,7 @@ inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigne
 template <typename F>
 inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
+    F current_max = -std::numeric_limits<F>::infinity();
     F current_sum = 0;
     using namespace std;
 
@@ -194,7 +194,7 @@ inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int
 template <typename F>
 inline void horizontal_maxsum_vec_simd(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
     vec<F> current_sum(F(0));
 
     /* loop */
-- 
2.43.0


From 2dd957075cb9c24cc8740bdd503e5f0b575ec4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 08/13] fix: vec_round_float must not change numbers that are
 already integral

---
 detail/vec_math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index faf6be8..fe4a21c 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -61,7 +61,8 @@ always_inline VecType vec_round_float(VecType const & arg)
     const vec two_to_23_ps (0x1.0p23f);
     const vec rounded = (abs_arg + two_to_23_ps) - two_to_23_ps;
 
-    return sign ^ rounded;
+    // |arg| >= 2^23: already integral
+    return sign ^ select(rounded, abs_arg, mask_ge(abs_arg, two_to_23_ps));
 }
 
 template <typename VecType>
-- 
2.43.0


From 350bb5e4582540441c3e8b17abe6e6b223f32837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 09/13] fix: trunc must not go through an integer

The conversion overflows for numbers outside of the range of long.
---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 6dca81e..1ac79e9 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -294,7 +294,7 @@ inline double log2(double arg)
 template<typename float_type>
 inline float_type trunc(float_type const & arg)
 {
-    return (float_type)(long)arg;
+    return arg < 0 ? std::ceil(arg) : std::floor(arg);
 }
 
 
-- 
2.43.0


From 3306e6a1c4902682cabeeab8a0a1246184864c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 10/13] fix: horizontal_min/horizontal_max of __m128 must
 include lane 3

---
 simd_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd_utils.hpp b/simd_utils.hpp
index c2d008b..add7806 100644
--- a/simd_utils.hpp
+++ b/simd_utils.hpp
@@ -118,7 +118,7 @@ inline float horizontal_min(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_movehl_ps(xmm0, xmm0);
     xmm0 = _mm_min_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_min_ss(xmm0, xmm1);
@@ -129,7 +129,7 @@ inline float horizontal_max(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_movehl_ps(xmm0, xmm0);
     xmm0 = _mm_max_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_max_ss(xmm0, xmm1);
-- 
2.43.0


From a4aefa090ead9676f295b0c3776d9f74bae3d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 11/13] fix: vec_acos_float(-0.5)

-0.5 selected the branch for arguments below -0.5, although asin was computed for
the central branch.
---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index fe4a21c..f971885 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -434,7 +434,7 @@ always_inline VecType vec_acos_float(VecType const & arg)
     VecType ret_05_1 = two_asin;
 
     VecType ret_m05_1 = select(ret_m05_05, ret_05_1, mask_gt(arg, half));
-    VecType ret = select(ret_m1_m05, ret_m05_1, mask_gt(arg, -0.5));
+    VecType ret = select(ret_m1_m05, ret_m05_1, mask_ge(arg, -0.5));
 
     // |arg| > 1: return 0
     ret = select(ret, zero, mask_gt(abs_arg, one));
-- 
2.43.0


From f004fc09fe7743fc36d0263872dc683a8805ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 12/13] fix: vec_exp_float must saturate at maxlogf

At maxlogf the scaled result overflows to NaN.
---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index f971885..1358556 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -155,7 +155,7 @@ always_inline VecType vec_exp_float(VecType const & arg)
     const VecType max_float(std::numeric_limits<float>::max());
     const VecType zero = VecType::gen_zero();
 
-    VecType too_large = mask_gt(arg, maxlogf);
+    VecType too_large = mask_ge(arg, maxlogf);
     VecType too_small = mask_lt(arg, minlogf);
 
     VecType ret = select(approx, max_float, too_large);
-- 
2.43.0


From 43df15fd575b857eeb39fe0991f7f490a126b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 13/13] fix: horizontal_minmax starts the minimum at infinity,
 so that a buffer of infinities has the right minimum

---
 simd_horizontal_functions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd_horizontal_functions.hpp b/simd_horizontal_functions.hpp
index 160954b..183b7b9 100644
--- a/simd_horizontal_functions.hpp
+++ b/simd_horizontal_functions.hpp
@@ -140,7 +140,7 @@ template <typename F>
 inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int n)
 {
     F current_max = -std::numeric_limits<F>::infinity();
-    F current_min = std::numeric_limits<F>::max();
+    F current_min = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -156,7 +156,7 @@ template <typename F>
 inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigned int n)
 {
     vec<F> current_max(-std::numeric_limits<F>::infinity());
-    vec<F> current_min(std::numeric_limits<F>::max());
+    vec<F> current_min(std::numeric_limits<F>::infinity());
 
     /* loop */
     const size_t vec_size = vec<F>::size;
-- 
2.43.0

