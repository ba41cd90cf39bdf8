From 8acae63d58e9517b5aa13288d931337886bd140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 01/60] fix: off-centre perspective divides by right - left

---
 include/xme/math/matrices/perspective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 282a4ba..6ce408a 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -56,7 +56,7 @@ XME_INLINE constexpr auto perspective_lh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = -(right + left) / (right - near);
+    result[2][0] = -(right + left) / (right - left);
     result[2][1] = -(top + bottom) / (top - bottom);
     result[2][2] = (far + near) / (far - near);
     result[2][3] = 1;
@@ -71,7 +71,7 @@ XME_INLINE constexpr auto perspective_rh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = (right + left) / (right - near);
+    result[2][0] = (right + left) / (right - left);
     result[2][1] = (top + bottom) / (top - bottom);
     result[2][2] = -(far + near) / (far - near);
     result[2][3] = -1;
-- 
2.43.0


From 812311359e3742523e3318cb2e45394518c3a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 02/60] fix: field-of-view perspective selects the left-handed
 form under XME_MATH_CLIP_LH

---
 include/xme/math/matrices/perspective.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 6ce408a..7deae05 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -43,7 +43,7 @@ template<CFloatingPoint T>
 XME_INLINE constexpr auto perspective(T fov, T aspect_ratio, T near,
                                       T far) noexcept -> Matrix<T, 4, 4> {
 #if defined(XME_MATH_CLIP_LH)
-    return perspective_rh(fov, aspect_ratio, far, near);
+    return perspective_lh(fov, aspect_ratio, near, far);
 #else
     return perspective_rh(fov, aspect_ratio, near, far);
 #endif
-- 
2.43.0


From f1c74edbcd6cd0e6e7f9ef60f304d1fed266130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 03/60] fix: ortho writes depth scale to [2][2] and translation
 to the fourth column

---
 include/xme/math/matrices/perspective.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 7deae05..41dbec4 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -97,10 +97,10 @@ XME_INLINE constexpr auto ortho_lh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = 2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = 2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
@@ -111,10 +111,10 @@ XME_INLINE constexpr auto ortho_rh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = -2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = -2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
-- 
2.43.0


From 8984d261af546f45cb9ed8b8cd293d40dc384eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 04/60] fix: Matrix<T, 4, 4> converts from a 4x4 matrix of
 another element type

---
 include/xme/math/matrices/matrix4x4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 337a6a6..0e48752 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -65,7 +65,7 @@ public:
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
-      m_data({m[0], m[1], m[2], m[3]}) {}
+      m_data({column_type(m[0]), column_type(m[1]), column_type(m[2]), column_type(m[3])}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 3, 3>& m) noexcept :
-- 
2.43.0


From edc4c6cd00211b907ef1b1e9d5295a73f4fdbceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 05/60] fix: find reads blocks with unaligned loads

---
 include/xme/core/algorithm/find.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index d6f5981..67d5115 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -14,25 +14,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
     if constexpr(size == 1) {
         const __m256i needle     = _mm256_set1_epi8(*(std::int8_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi8(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi8(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi16(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi16(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m256i needle    = _mm256_set1_epi32(*(std::int32_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi32(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi32(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_ps(*(__m256*)&comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m256i needle    = _mm256_set1_epi64x(*(std::int64_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi64(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi64(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_pd(*(__m256d*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
@@ -40,25 +40,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #elif XME_SIMD_USE_SSE2
     if constexpr(size == 1) {
         const __m128i needle     = _mm_set1_epi8(*(std::int8_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi8(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi16(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi16(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m128i needle    = _mm_set1_epi32(*(std::int32_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi32(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi32(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi64(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
     }
-- 
2.43.0


From 1546266dbc5315c785453f838a6cc97d4489c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 06/60] fix: find compares blocks only where == is equality of
 representation and the comparison is available

---
 include/xme/core/algorithm/find.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 67d5115..12d18b6 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -9,6 +9,13 @@
 
 namespace xme {
 namespace detail {
+//! Types whose operator== compares the object representation, with a size that can be compared
+template<typename T>
+inline constexpr bool simd_comparable =
+  (std::is_integral_v<T> || std::is_pointer_v<T>)
+  && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4
+      || (sizeof(T) == 8 && (XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE41)));
+
 template<std::size_t size>
 XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
@@ -56,7 +63,7 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
-    else if constexpr(size == 8) {
+    else if constexpr(size == 8 && XME_SIMD_USE_SSE41) {
         const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
         const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
@@ -74,12 +81,12 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>
-                 && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
+    if constexpr(::ranges::contiguous_iterator<I> && ::ranges::sized_sentinel_for<S, I>
+                 && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>
+                 && detail::simd_comparable<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
-        while(compare + readable_bytes <= s) {
+        while(s - compare >= static_cast<std::ptrdiff_t>(readable_bytes)) {
             const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
-- 
2.43.0


From 4d59c14b19b0da5d457df9911ae148ae3c2aca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 07/60] fix: reverse uses the block permutation only for the
 element size it implements and SSSE3

---
 include/xme/core/algorithm/reverse.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 52d0e76..f63b0bc 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -28,7 +28,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm256_storeu_si256((__m256i*)((std::int8_t*)rhs - 32), lower);
     }
     else
-#elif XME_SIMD_USE_SSE3
+#elif XME_SIMD_USE_SSSE3
     if constexpr(size == 1) {
         __m128i lower = _mm_loadu_si128((__m128i*)lhs);
         __m128i upper = _mm_loadu_si128((__m128i*)((std::int8_t*)rhs - 16));
@@ -37,7 +37,6 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, upper);
         _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);
     }
-    else if constexpr(size == 2) {}
     else
 #endif
         static_assert(size < 0);
@@ -46,11 +45,10 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
 XME_INLINE constexpr auto reverse(I i, S s) noexcept {
-#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
+#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
+    if constexpr(::ranges::contiguous_iterator<I> && std::is_trivially_copyable_v<T> && sizeof(T) == 1) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-- 
2.43.0


From 689dc7c30256632ed92c14650ddcbdfdcd22c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 08/60] fix: BindFront's constructor is noexcept when the bound
 objects' construction is

---
 include/xme/core/functional/bind.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index b2d6cfd..2e1b7b6 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -19,7 +19,7 @@ public:
     template<CDifferentFromSelf<BindFront> Fn, typename... BoundArgs>
     explicit constexpr BindFront(Fn&& func, BoundArgs&&... args)
       noexcept(std::is_nothrow_constructible_v<F, Fn>
-               && (std::is_nothrow_constructible_v<BoundArgs, Args> && ...)) :
+               && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
     constexpr auto operator=(const BindFront&) noexcept -> BindFront& = default;
-- 
2.43.0


From 49491fe11fb269e9b40978e9f67595548008c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 09/60] fix: copying and moving a binder is noexcept only when
 it is for the stored objects

---
 include/xme/core/functional/bind.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index 2e1b7b6..aef48a6 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -12,9 +12,9 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindFront(const BindFront&) noexcept = default;
+    constexpr BindFront(const BindFront&) = default;
 
-    constexpr BindFront(BindFront&&) noexcept = default;
+    constexpr BindFront(BindFront&&) = default;
 
     template<CDifferentFromSelf<BindFront> Fn, typename... BoundArgs>
     explicit constexpr BindFront(Fn&& func, BoundArgs&&... args)
@@ -22,9 +22,9 @@ public:
                && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindFront&) noexcept -> BindFront& = default;
+    constexpr auto operator=(const BindFront&) -> BindFront& = default;
 
-    constexpr auto operator=(BindFront&&) noexcept -> BindFront& = default;
+    constexpr auto operator=(BindFront&&) -> BindFront& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
@@ -74,9 +74,9 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindBack(const BindBack&) noexcept = default;
+    constexpr BindBack(const BindBack&) = default;
 
-    constexpr BindBack(BindBack&&) noexcept = default;
+    constexpr BindBack(BindBack&&) = default;
 
     template<CDifferentFromSelf<BindBack> Fn, typename... BoundArgs>
     explicit constexpr BindBack(Fn&& func, BoundArgs&&... args)
@@ -84,9 +84,9 @@ public:
                && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindBack&) noexcept -> BindBack& = default;
+    constexpr auto operator=(const BindBack&) -> BindBack& = default;
 
-    constexpr auto operator=(BindBack&&) noexcept -> BindBack& = default;
+    constexpr auto operator=(BindBack&&) -> BindBack& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
-- 
2.43.0


From 687a96dd4f0b4ad1e781932612c0d11a70567620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 10/60] fix: bindFront and bindBack forward their bound
 arguments, bindBack after the call arguments

---
 include/xme/core/functional/bind.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index aef48a6..bb94ad9 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -149,7 +149,7 @@ constexpr auto bindFront(Args&&... args) {
 
     return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
              this Self&&, T&&... call_args) -> decltype(auto) {
-        return std::invoke(f, xme::forwardLike<Self>(bound_args)..., std::forward<T>(call_args)...);
+        return std::invoke(f, xme::forward_like<Self>(bound_args)..., std::forward<T>(call_args)...);
     };
 }
 #endif
@@ -173,7 +173,7 @@ constexpr auto bindBack(Args&&... args) {
 
     return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
              this Self&&, T&&... call_args) -> decltype(auto) {
-        return std::invoke(f, xme::forwardLike<Self>(bound_args)..., std::forward<T>(call_args)...);
+        return std::invoke(f, std::forward<T>(call_args)..., xme::forward_like<Self>(bound_args)...);
     };
 }
 #endif
-- 
2.43.0


From 1605722651974cba5214ac38f17b3d2023c89833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 11/60] fix: Tuple and Pair elements keep the object's category
 (const rvalues, rvalue reference members, deducing this)

---
 include/xme/container/pair.hpp   | 36 ++++++++++++++++----------------
 include/xme/container/tuple.hpp  |  5 +++++
 private/container/tuple_base.hpp | 16 ++++++--------
 3 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 2620858..497681a 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -16,21 +16,6 @@ public:
         return *this;
     }
 
-#if defined(__cpp_explicit_this_parameter)
-    template<typename Self>
-    [[nodiscard]]
-    constexpr auto operator[](this Self&& self,
-                              std::integral_constant<std::size_t, 0>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).first;
-    }
-
-    template<typename Self>
-    [[nodiscard]]
-    constexpr auto operator[](this Self&& self,
-                              std::integral_constant<std::size_t, 1>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).second;
-    }
-#else
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 0>) & noexcept -> T& {
         return first;
@@ -43,7 +28,12 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 0>) && noexcept -> T&& {
-        return static_cast<Pair&&>(*this).first;
+        return static_cast<T&&>(first);
+    }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, 0>) const&& noexcept -> const T&& {
+        return static_cast<const T&&>(first);
     }
 
     [[nodiscard]]
@@ -58,9 +48,13 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
-        return static_cast<Pair&&>(*this).second;
+        return static_cast<U&&>(second);
+    }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, 1>) const&& noexcept -> const U&& {
+        return static_cast<const U&&>(second);
     }
-#endif
 
     [[nodiscard]]
     XME_CONSTEXPR20 bool operator==(const Pair&) const noexcept = default;
@@ -101,6 +95,12 @@ constexpr auto get(Pair<T, U>&& p) noexcept -> decltype(auto) {
     return std::move(p)[std::integral_constant<std::size_t, I>{}];
 }
 
+template<std::size_t I, typename T, typename U>
+[[nodiscard]]
+constexpr auto get(const Pair<T, U>&& p) noexcept -> decltype(auto) {
+    return std::move(p)[std::integral_constant<std::size_t, I>{}];
+}
+
 template<typename T, typename U>
 constexpr void swap(Pair<T, U>& lhs, Pair<T, U>& rhs) noexcept(noexcept(lhs.swap(rhs))) {
     lhs.swap(rhs);
diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 1ff7d4a..1d115f9 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -69,6 +69,11 @@ constexpr auto get(Tuple<T...>&& tup) noexcept -> decltype(auto) {
     return std::move(tup)[std::integral_constant<std::size_t, I>{}];
 }
 
+template<std::size_t I, typename... T>
+constexpr auto get(const Tuple<T...>&& tup) noexcept -> decltype(auto) {
+    return std::move(tup)[std::integral_constant<std::size_t, I>{}];
+}
+
 template<typename... T>
 constexpr void swap(Tuple<T...>& lhs, Tuple<T...>& rhs)
   noexcept((std::is_nothrow_swappable_v<T> && ...)) {
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 87bdc26..9a4ca04 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -16,14 +16,6 @@ constexpr auto operator+(TypeList<T...>, TypeList<U...>) {
 
 template<std::size_t I, typename T>
 struct TupleElement {
-#if defined(__cpp_explicit_this_parameter)
-    template<typename Self>
-    [[nodiscard]]
-    constexpr auto operator[](this Self&& self,
-                              std::integral_constant<std::size_t, I>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).value;
-    }
-#else
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) & noexcept -> T& {
         return value;
@@ -36,9 +28,13 @@ struct TupleElement {
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
-        return static_cast<TupleElement&&>(*this).value;
+        return static_cast<T&&>(value);
+    }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, I>) const&& noexcept -> const T&& {
+        return static_cast<const T&&>(value);
     }
-#endif
 
     XME_CONSTEXPR20 auto operator<=>(const TupleElement&) const = default;
 
-- 
2.43.0


From 6dc5cb29272d50db1116f7e0b5639e8646305281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 12/60] fix: Pair's assignment is noexcept when the element
 assignments are

---
 include/xme/container/pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 497681a..e6cccdf 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -10,7 +10,8 @@ struct Pair {
 public:
     template<CPairLike P>
     constexpr auto operator=(P&& p)
-      noexcept(std::is_nothrow_swappable_v<T> && std::is_nothrow_swappable_v<U>) -> Pair& {
+      noexcept(noexcept(first = get<0>(std::forward<P>(p)))
+               && noexcept(second = get<1>(std::forward<P>(p)))) -> Pair& {
         first  = get<0>(std::forward<P>(p));
         second = get<1>(std::forward<P>(p));
         return *this;
-- 
2.43.0


From a1dd5bdc5f58e69101886f032035746795bbb344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 13/60] fix: tuple_cat names its own forward_as_tuple, which
 argument-dependent lookup made ambiguous

---
 include/xme/container/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 1d115f9..3aced81 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -151,7 +151,7 @@ constexpr auto tuple_cat(T&&... t) {
     using outer = typename cat::outer_indices;
     using inner = typename cat::inner_indices;
     return detail::tuple_cat_impl<typename cat::return_t>(
-      outer{}, inner{}, forward_as_tuple(std::forward<T>(t)...));
+      outer{}, inner{}, xme::forward_as_tuple(std::forward<T>(t)...));
 }
 
 }  // namespace xme
-- 
2.43.0


From 222b71fb4f8e8d8d0931e45cf3b5fb1aa3fa3ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 14/60] fix: containers name range-v3's namespace in full,
 which xme::ranges hid

---
 include/xme/container/array_view.hpp  | 10 +++++-----
 include/xme/container/linked_list.hpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 4131700..050049a 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -90,12 +90,12 @@ public:
       ArrayView(first, std::ranges::distance(first, last)) {}
 
     //! Create an ArrayView pointing to begin(range) up to end(range)
-    template<ranges::contiguous_range R>
-        requires(ranges::sized_range<R>) && (ranges::borrowed_range<R>)
+    template<::ranges::contiguous_range R>
+        requires(::ranges::sized_range<R>) && (::ranges::borrowed_range<R>)
                 && (!detail::is_std_array<std::remove_cvref_t<R>>)
                 && (!std::is_array_v<std::remove_cvref_t<R>>)
                 && (!detail::is_array_view<std::remove_cvref_t<R>>)
-    constexpr ArrayView(R&& range) noexcept : ArrayView(ranges::data(range), ranges::size(range)) {}
+    constexpr ArrayView(R&& range) noexcept : ArrayView(::ranges::data(range), ::ranges::size(range)) {}
 
     //! Create an ArrayView pointing to a C-Style array
     template<std::size_t Lenght>
@@ -222,8 +222,8 @@ ArrayView(const std::array<T, N>&) -> ArrayView<const T, N>;
 template<std::contiguous_iterator Iter, typename End>
 ArrayView(Iter, End) -> ArrayView<std::remove_reference_t<std::iter_reference_t<Iter>>>;
 
-template<ranges::contiguous_range R>
-ArrayView(R&&) -> ArrayView<std::remove_reference_t<ranges::range_reference_t<R>>>;
+template<::ranges::contiguous_range R>
+ArrayView(R&&) -> ArrayView<std::remove_reference_t<::ranges::range_reference_t<R>>>;
 
 //! Creates a readonly byte ArrayView of any ArrayView
 template<typename T, std::size_t Size>
diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 65eac38..95d3ff9 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
-    template<ranges::input_range R>
+    template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     explicit constexpr LinkedList(R&& range) {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
@@ -153,7 +153,7 @@ public:
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     constexpr void assign(R&& range) {
-        assign(::ranges::begin(range), ranges::end(range));
+        assign(::ranges::begin(range), ::ranges::end(range));
     }
 
     //! Creates a node at the front by copying value
@@ -190,7 +190,7 @@ public:
     //! Inserts a [begin(range), end(range)) range of nodes after pos
     //! @returns an iterator to the last inserted element.
     template<::ranges::input_range R>
-        requires(std::is_convertible_v<ranges::range_reference_t<R>, T>)
+        requires(std::is_convertible_v<::ranges::range_reference_t<R>, T>)
     constexpr auto insert_after(const_iterator pos, R&& range) -> iterator {
         return insert_after(pos, ::ranges::begin(range), ::ranges::end(range));
     }
-- 
2.43.0


From 71177f3da8d9945ff1af68c538033d9846ad0981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 15/60] fix: quaternion includes the standard headers it uses

---
 include/xme/math/quaternion.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xme/math/quaternion.hpp b/include/xme/math/quaternion.hpp
index d736cbb..55c3dfb 100644
--- a/include/xme/math/quaternion.hpp
+++ b/include/xme/math/quaternion.hpp
@@ -1,4 +1,7 @@
 #pragma once
+#include <compare>
+#include <cstddef>
+#include <type_traits>
 #include <xme/setup.hpp>
 #include <xme/core/concepts/concepts.hpp>
 
-- 
2.43.0


From 5549708970401ca9696fafc5a8c587e55347e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 16/60] fix: a Delegate can be copied, the manager takes its
 source as const

---
 include/xme/core/functional/delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 50eda81..d5fc6e1 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -92,7 +92,7 @@ public:
 
         static constexpr void destroy(AnyData& f) noexcept { destroy_functor<is_local_storage>(f); }
 
-        static constexpr void manager(AnyData& dest, AnyData& source, EOperation op) {
+        static constexpr void manager(AnyData& dest, const AnyData& source, EOperation op) {
             switch(op) {
             case EOperation::copy:    create_functor(dest, *handle(source)); break;
             case EOperation::destroy: destroy(dest); break;
@@ -198,7 +198,7 @@ public:
 private:
     AnyData m_storage{};
     R (*m_callable)(const AnyData&, Args...)          = nullptr;
-    void (*m_manager)(AnyData&, AnyData&, EOperation) = nullptr;
+    void (*m_manager)(AnyData&, const AnyData&, EOperation) = nullptr;
 };
 
 namespace detail {
-- 
2.43.0


From 76e9340a5d365807123b58cb2a2b082c72b289d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 17/60] fix: a Delegate made from an lvalue holds a copy of it

---
 include/xme/core/functional/delegate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index d5fc6e1..e8fe9ea 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -134,11 +134,11 @@ public:
 
     template<CDifferentFromSelf<Delegate> Fn>
     constexpr Delegate(Fn&& fn) {
-        using Manager = FunctorManager<Fn>;
+        using Manager = FunctorManager<std::decay_t<Fn>>;
         if(!is_empty_function(fn)) {
             Manager::create_functor(m_storage, std::forward<Fn>(fn));
-            m_callable = &FunctorManager<Fn>::invoke;
-            m_manager  = &FunctorManager<Fn>::manager;
+            m_callable = &Manager::invoke;
+            m_manager  = &Manager::manager;
         }
     }
 
-- 
2.43.0


From 7e59c75fbcb6e02ab8009393b9bcc4f86f59c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 18/60] fix: Delegate stores in place only functors that its
 move and swap may relocate

---
 include/xme/core/functional/delegate.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index e8fe9ea..a39a88b 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -56,7 +56,8 @@ public:
         static constexpr std::size_t max_size  = sizeof(AnyCallable);
         static constexpr std::size_t max_align = alignof(AnyCallable);
         static constexpr bool is_local_storage =
-          sizeof(Functor) <= max_size && alignof(Functor) <= max_align;
+          sizeof(Functor) <= max_size && alignof(Functor) <= max_align
+          && std::is_trivially_copyable_v<Functor>;
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
             return std::invoke(*handle(functor), std::forward<Args>(args)...);
-- 
2.43.0


From 21d901b8bcdb5e9bab6b5ef2e5a8ddcecc1e267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 19/60] fix: Delegate::handle finds functors stored on the heap

---
 include/xme/core/functional/delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index a39a88b..b39d2ec 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -191,7 +191,7 @@ public:
     template<typename Functor>
     constexpr auto handle() const noexcept -> const Functor* {
         if(m_manager == &FunctorManager<Functor>::manager) {
-            return static_cast<const Functor*>(m_storage.access());
+            return FunctorManager<Functor>::handle(m_storage);
         }
         return nullptr;
     }
-- 
2.43.0


From e2583470c6184fc0b249e8ad6947c0ac29c80c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 20/60] fix: SharedLibrary closes its handle exactly once and
 forgets closed handles

---
 include/xme/hal/shared_library.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 4c32718..0317ef2 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <string_view>
+#include <utility>
 #include "platform_macros.hpp"
 
 #if XME_PLATFORM_WINDOWS
@@ -21,16 +22,16 @@ public:
     constexpr auto operator=(const SharedLibrary&) -> SharedLibrary& = delete;
 
     constexpr auto operator=(SharedLibrary&& rhs) noexcept -> SharedLibrary& {
-        std::ranges::swap(m_library, rhs.m_library);
+        if(this != &rhs) {
+            close();
+            std::swap(m_library, rhs.m_library);
+        }
         return *this;
     }
 
     constexpr SharedLibrary(std::string_view lib_name) noexcept { open(lib_name); }
 
-    constexpr ~SharedLibrary() {
-        if(m_library)
-            close();
-    }
+    constexpr ~SharedLibrary() { close(); }
 
     [[nodiscard]]
     constexpr bool is_open() const noexcept {
@@ -38,6 +39,7 @@ public:
     }
 
     constexpr void open(std::string_view lib_name) {
+        close();
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
@@ -47,7 +49,10 @@ public:
     constexpr void close() {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        dlclose(m_library);
+        if(m_library) {
+            dlclose(m_library);
+            m_library = nullptr;
+        }
 #endif
     }
 
-- 
2.43.0


From bd928fa23d0ed2147f0c705f9b4aad8fdca183b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 21/60] fix: SharedLibrary passes null-terminated names to the
 dynamic linker

---
 include/xme/hal/shared_library.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 0317ef2..b9ac1ea 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include <utility>
 #include "platform_macros.hpp"
@@ -29,7 +30,7 @@ public:
         return *this;
     }
 
-    constexpr SharedLibrary(std::string_view lib_name) noexcept { open(lib_name); }
+    constexpr SharedLibrary(std::string_view lib_name) { open(lib_name); }
 
     constexpr ~SharedLibrary() { close(); }
 
@@ -42,7 +43,7 @@ public:
         close();
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
+        m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
@@ -58,10 +59,10 @@ public:
 
     template<typename T>
     [[nodiscard]]
-    constexpr auto proc_address(std::string_view function) const noexcept -> void* {
+    constexpr auto proc_address(std::string_view function) const -> void* {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        return (T)dlsym(m_library, function.data());
+        return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
 
-- 
2.43.0


From 26633fc818da500aac87b826e52db86fdd2558c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 22/60] fix: proc_address returns the address as the requested
 type

---
 include/xme/hal/shared_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index b9ac1ea..656bb48 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -59,7 +59,7 @@ public:
 
     template<typename T>
     [[nodiscard]]
-    constexpr auto proc_address(std::string_view function) const -> void* {
+    constexpr auto proc_address(std::string_view function) const -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         return (T)dlsym(m_library, std::string(function).c_str());
-- 
2.43.0


From c86548bdc5340501c9bb4fd75c11e01f760d30cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 23/60] fix: environment functions pass null-terminated names
 and values

---
 include/xme/hal/linux/platform.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xme/hal/linux/platform.hpp b/include/xme/hal/linux/platform.hpp
index 1caf156..aae7fcf 100644
--- a/include/xme/hal/linux/platform.hpp
+++ b/include/xme/hal/linux/platform.hpp
@@ -1,18 +1,19 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include <cstdlib>
 
 namespace xme::hal {
 constexpr auto get_environment_variable(std::string_view name) -> char* {
-    return ::secure_getenv(name.data());
+    return ::secure_getenv(std::string(name).c_str());
 }
 
 constexpr auto set_environment_variable(std::string_view name, std::string_view value) {
     if(value.length() == 0) {
-        ::unsetenv(name.data());
+        ::unsetenv(std::string(name).c_str());
     }
     else {
-        ::setenv(name.data(), value.data(), true);
+        ::setenv(std::string(name).c_str(), std::string(value).c_str(), true);
     }
 }
 }  // namespace xme::hal
-- 
2.43.0


From 1db5ff306dac1a94793e354e1da3e7ee0c6ce5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 24/60] fix: ReverseIterator orders and compares by position,
 later positions being greater

---
 .../xme/core/iterators/reverse_iterator.hpp   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index e9da22a..46d5cd3 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <compare>
 #include <iterator>
 #include <concepts>
 namespace xme {
@@ -121,18 +122,22 @@ public:
 
     constexpr bool operator==(const self& rhs) const noexcept = default;
 
-    constexpr auto operator<=>(const self& rhs) const noexcept = default;
+    constexpr auto operator<=>(const self& rhs) const noexcept
+        requires(std::three_way_comparable<It>)
+    {
+        return rhs.m_current <=> m_current;
+    }
 
     template<typename U>
-    friend constexpr bool operator==(const ReverseIterator<It>& lhs,
-                                     const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() == rhs.operator->();
+        requires(std::equality_comparable_with<It, U>)
+    constexpr bool operator==(const ReverseIterator<U>& rhs) const noexcept {
+        return m_current == rhs.m_current;
     }
 
     template<typename U>
-    friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
-                                      const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() <=> rhs.operator->();
+        requires(std::three_way_comparable_with<It, U>)
+    constexpr auto operator<=>(const ReverseIterator<U>& rhs) const noexcept {
+        return rhs.m_current <=> m_current;
     }
 
 private:
-- 
2.43.0


From 6e43fc75cd8e13a7bb4179d9f299169ecf08ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 25/60] fix: a default constructed ReverseIterator has a value

---
 include/xme/core/iterators/reverse_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index 46d5cd3..b78aafb 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -141,6 +141,6 @@ public:
     }
 
 private:
-    It m_current;
+    It m_current{};
 };
 }  // namespace xme
-- 
2.43.0


From a362514a6397704519901235497fe7e8bfc94579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 26/60] fix: ConstIterator converts from a ConstIterator of a
 convertible iterator

---
 include/xme/core/iterators/const_iterator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 1fa8ded..9896043 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -26,6 +26,9 @@ private:
             return std::input_iterator_tag{};
     }
 
+    template<std::input_iterator>
+    friend class ConstIterator;
+
 public:
     using difference_type = std::iter_difference_t<It>;
     using value_type      = std::iter_value_t<It>;
@@ -38,7 +41,7 @@ public:
     constexpr ConstIterator(It it) noexcept : m_current(it) {}
 
     template<std::convertible_to<It> U>
-    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current{other} {}
+    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current(other.m_current) {}
 
     template<CDifferentFrom<ConstIterator> T>
         requires std::convertible_to<T, It>
-- 
2.43.0


From 4bc407abe3093581d4ef7b201fd3cef06327f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 27/60] fix: remove Array's integer - iterator, which is not
 defined

---
 include/xme/container/array.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 2dad1a4..fcebaff 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -403,10 +403,6 @@ public:
 
     constexpr auto operator-(difference_type n) const noexcept -> Iterator { return m_cursor - n; }
 
-    friend constexpr auto operator-(difference_type n, const Iterator& it) noexcept -> Iterator {
-        return n - it.m_cursor;
-    }
-
     constexpr auto operator-(const Iterator& it) const noexcept -> difference_type {
         return m_cursor - it.m_cursor;
     }
-- 
2.43.0


From 2eebfc3a28e6998ca4f6b7aae955fcfed1f39a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 28/60] fix: a throwing uninitialized copy destroys what it
 built, not its source

---
 include/xme/ranges/uninitialized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index 3110362..e9eded8 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -17,7 +17,7 @@ struct {
             }
         }
         catch(...) {
-            ranges::destroy_a(in_first, out_curr, alloc);
+            ranges::destroy_a(out_first, out_curr, alloc);
             throw;
         }
         return {in_first, out_curr};
-- 
2.43.0


From f417a162da958ba2db35df348a1d369f1d6cf478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 29/60] fix: Array builds relocated elements in raw storage and
 destroys the old ones

---
 include/xme/container/array.hpp      | 61 ++++++++++++++++------------
 include/xme/ranges/uninitialized.hpp | 20 +++++++++
 2 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index fcebaff..bf9935d 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -283,26 +283,35 @@ public:
 
 private:
     constexpr void grow_storage(size_type n) {
-        const auto old_size = this->size();
-        pointer new_begin   = m_allocator.allocate(n);
-
-        std::ranges::move(*this, new_begin);
-        if(m_data.begin)
-            m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_begin;
-        m_data.end         = new_begin + old_size;
-        m_data.storage_end = new_begin + n;
+        relocate_storage(n, this->size());
     }
 
     constexpr void shrink_storage(size_type n) {
-        size_type elements_to_move = std::min(this->size(), n);
-        pointer new_begin          = m_allocator.allocate(n);
+        relocate_storage(n, std::min(this->size(), n));
+    }
+
+    //! Moves the first `elements` elements to a new storage of `n` elements.
+    constexpr void relocate_storage(size_type n, size_type elements) {
+        pointer new_begin = m_allocator.allocate(n);
+        pointer new_end   = new_begin;
+        try {
+            new_end = ranges::uninitialized_move_a(
+              m_data.begin, m_data.begin + elements, new_begin, m_allocator);
+        }
+        catch(...) {
+            m_allocator.deallocate(new_begin, n);
+            throw;
+        }
+        replace_storage(new_begin, new_end, n);
+    }
 
-        std::ranges::move(begin(), begin() + elements_to_move, new_begin);
-        ranges::destroy_a(m_data.begin + elements_to_move, m_data.end, m_allocator);
-        m_allocator.deallocate(m_data.begin, capacity());
+    //! Destroys the elements, releases the storage and adopts a new one.
+    constexpr void replace_storage(pointer new_begin, pointer new_end, size_type n) noexcept {
+        ranges::destroy_a(*this, m_allocator);
+        if(m_data.begin)
+            m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_begin;
-        m_data.end         = new_begin + elements_to_move;
+        m_data.end         = new_end;
         m_data.storage_end = new_begin + n;
     }
 
@@ -310,23 +319,25 @@ private:
     constexpr auto realloc_insert(iterator pos, Args&&... args) -> iterator {
         const size_type elements_before = pos - begin();
         const size_type new_size        = this->size() + std::max(this->size(), size_type(1));
-        const size_type curr_size       = this->size();
+        const pointer old_pos           = m_data.begin + elements_before;
         pointer new_start               = m_allocator.allocate(new_size);
+        // The elements built in the new storage are [built_first, built_last)
+        pointer built_first = new_start + elements_before;
+        pointer built_last  = built_first;
         try {
-            alloc_traits::construct(
-              m_allocator, new_start + elements_before, std::forward<Args>(args)...);
-            std::ranges::move(begin(), pos, new_start);
-            std::ranges::move(pos, end(), new_start + elements_before + 1);
+            alloc_traits::construct(m_allocator, built_last, std::forward<Args>(args)...);
+            ++built_last;
+            ranges::uninitialized_move_a(m_data.begin, old_pos, new_start, m_allocator);
+            built_first = new_start;
+            built_last =
+              ranges::uninitialized_move_a(old_pos, m_data.end, built_last, m_allocator);
         }
         catch(...) {
-            ranges::destroy_at_a(new_start + elements_before, m_allocator);
+            ranges::destroy_a(built_first, built_last, m_allocator);
             m_allocator.deallocate(new_start, new_size);
             throw;
         }
-        m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_start;
-        m_data.end         = new_start + (curr_size + 1);
-        m_data.storage_end = new_start + new_size;
+        replace_storage(new_start, built_last, new_size);
         return begin() + elements_before;
     }
 
diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index e9eded8..04f5f01 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -31,6 +31,26 @@ struct {
     }
 } inline constexpr uninitialized_copy_a;
 
+struct {
+    template<std::forward_iterator InIter, std::sentinel_for<InIter> InSent,
+             std::forward_iterator OutIter, typename Alloc>
+    constexpr auto operator()(InIter in_first, InSent in_last, OutIter out_first,
+                              Alloc& alloc) const -> OutIter {
+        OutIter out_curr = out_first;
+        try {
+            for(; in_first != in_last; ++out_curr, (void)++in_first) {
+                std::allocator_traits<Alloc>::construct(
+                  alloc, std::addressof(*out_curr), std::ranges::iter_move(in_first));
+            }
+        }
+        catch(...) {
+            ranges::destroy_a(out_first, out_curr, alloc);
+            throw;
+        }
+        return out_curr;
+    }
+} inline constexpr uninitialized_move_a;
+
 struct {
     template<std::forward_iterator Iter, typename T, typename Alloc>
     constexpr auto operator()(Iter first, std::size_t n, const T& value,
-- 
2.43.0


From e44719f82c923ba0255cdc4fb21f3e615072d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 30/60] fix: inserting a range in an Array assigns live
 elements and builds the others, moving its own

---
 include/xme/container/array.hpp | 53 ++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index bf9935d..3961555 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -181,28 +181,45 @@ public:
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
         auto p             = const_cast<pointer>(pos.operator->());
         size_type elements = std::ranges::distance(first, last);
+        if(elements == 0)
+            return p;
         if(this->size() + elements > capacity()) {
-            Array tmp(capacity() == 0 ? elements : capacity() + elements);
-            size_type elements_before = std::ranges::distance(begin(), pos);
-
-            // Must be constructed first, so if it throws we don't break the original
-            // array
-            for(std::size_t n = 0; first != last; ++first, ++n)
-                alloc_traits::construct(
-                  m_allocator, tmp.m_data.begin + elements_before + n, *first);
-
-            std::ranges::move(::ranges::cbegin(*this), pos, tmp.begin());
-            std::ranges::move(pos, ::ranges::cend(*this), tmp.begin() + elements_before + elements);
-            tmp.m_data.end = tmp.m_data.begin + this->size() + elements;
-            std::ranges::swap(m_data, tmp.m_data);
-
+            const size_type new_capacity    = capacity() + elements;
+            const size_type elements_before = p - m_data.begin;
+            pointer new_start               = m_allocator.allocate(new_capacity);
+            // The elements built in the new storage are [built_first, built_last)
+            pointer built_first = new_start + elements_before;
+            pointer built_last  = built_first;
+            try {
+                // Must be constructed first, so if it throws we don't break the original
+                // array
+                for(; first != last; ++first, (void)++built_last)
+                    alloc_traits::construct(m_allocator, built_last, *first);
+                ranges::uninitialized_move_a(m_data.begin, p, new_start, m_allocator);
+                built_first = new_start;
+                built_last = ranges::uninitialized_move_a(p, m_data.end, built_last, m_allocator);
+            }
+            catch(...) {
+                ranges::destroy_a(built_first, built_last, m_allocator);
+                m_allocator.deallocate(new_start, new_capacity);
+                throw;
+            }
+            replace_storage(new_start, built_last, new_capacity);
             return begin() + elements_before;
         }
 
-        std::move_backward(pos, ::ranges::cend(*this), end() + elements);
-        m_data.end += elements;
-        for(std::size_t n = 0; first != last; ++first, ++n)
-            alloc_traits::construct(m_allocator, p + n, *first);
+        const pointer old_end      = m_data.end;
+        const size_type after      = old_end - p;
+        const size_type overlapped = std::min(after, elements);
+        // The elements that go past the old end are built, the others are assigned
+        Iter mid = std::ranges::next(first, static_cast<std::iter_difference_t<Iter>>(overlapped));
+        for(Iter it = mid; it != last; ++it, (void)++m_data.end)
+            alloc_traits::construct(m_allocator, m_data.end, *it);
+        m_data.end = ranges::uninitialized_move_a(
+          old_end - overlapped, old_end, m_data.end, m_allocator);
+        std::move_backward(p, old_end - overlapped, old_end);
+        for(pointer out = p; first != mid; ++first, (void)++out)
+            *out = *first;
         return p;
     }
 
-- 
2.43.0


From 3eb8480b6b97bbc489bc4d0be977a6217739e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 31/60] fix: erasing from an Array moves the elements after it
 down and destroys the last ones

---
 include/xme/container/array.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 3961555..adbc0d1 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -281,9 +281,9 @@ public:
     //! @returns an iterator pointing to the element after it
     constexpr auto erase(const_iterator pos) -> iterator {
         auto p = const_cast<pointer>(pos.operator->());
-        ranges::destroy_at_a(p, m_allocator);
-        std::ranges::move(std::ranges::next(pos), ::ranges::cend(*this), p);
+        std::move(p + 1, m_data.end, p);
         --m_data.end;
+        ranges::destroy_at_a(m_data.end, m_allocator);
         return p;
     }
 
@@ -292,9 +292,11 @@ public:
     constexpr auto erase(const_iterator first, const_iterator last) -> iterator {
         auto p             = const_cast<pointer>(first.operator->());
         size_type elements = std::ranges::distance(first, last);
-        ranges::destroy_n_a(p, elements, m_allocator);
-        std::ranges::move(first + elements, ::ranges::cend(*this), p);
-        m_data.end -= elements;
+        if(elements == 0)
+            return p;
+        pointer new_end = std::move(p + elements, m_data.end, p);
+        ranges::destroy_a(new_end, m_data.end, m_allocator);
+        m_data.end = new_end;
         return p;
     }
 
-- 
2.43.0


From 23815cdc1194b078ff1387d822bddaad5badbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 32/60] fix: an Array can append and insert one of its own
 elements

---
 include/xme/container/array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index adbc0d1..397bc3c 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -166,10 +166,11 @@ public:
         else if(m_data.end == m_data.storage_end) {
             return realloc_insert(p, std::forward<U>(value));
         }
+        T tmp(std::forward<U>(value));  // value may be an element of this array
         alloc_traits::construct(m_allocator, m_data.end, std::move(*(m_data.end - 1)));
         ++m_data.end;
         std::move_backward(p, m_data.end - 2, m_data.end - 1);
-        *p = std::forward<U>(value);
+        *p = std::move(tmp);
         return p;
     }
 
@@ -270,7 +271,7 @@ public:
     template<typename... Args>
     constexpr auto emplace_back(Args&&... args) -> reference {
         if(m_data.end == m_data.storage_end)
-            grow_storage(this->size() + std::max(this->size(), size_type(1)));
+            return *realloc_insert(end(), std::forward<Args>(args)...);
 
         alloc_traits::construct(m_allocator, m_data.end, std::forward<Args>(args)...);
         ++m_data.end;
-- 
2.43.0


From 34ba225095f724f0dd8a2ecca645fcc7960f0aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 33/60] fix: Array reads single-pass ranges once

---
 include/xme/container/array.hpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 397bc3c..8216bac 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -2,6 +2,7 @@
 #include "concepts.hpp"
 #include "range/v3/iterator/traits.hpp"
 #include "xme/container/icontainer.hpp"
+#include <algorithm>
 #include <cassert>
 #include <xme/core/iterators/reverse_iterator.hpp>
 #include <xme/ranges/destroy.hpp>
@@ -62,6 +63,12 @@ public:
       Array(list.begin(), list.end(), alloc) {}
 
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
+    constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
+      Array(alloc) {
+        push_back(std::move(first), std::move(last));
+    }
+
+    template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
       Array(std::ranges::distance(first, last), alloc) {
         auto&& [_, out] = xme::ranges::uninitialized_copy_a(
@@ -179,6 +186,16 @@ public:
     //! It is recommended to never throw on move construcor/assignment.
     //! @returns an iterator to the first inserted element.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
+    constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
+        Array tmp(std::move(first), std::move(last), m_allocator);
+        return insert(pos, tmp.m_data.begin, tmp.m_data.end);
+    }
+
+    //! Inserts [first, last) in a specified position..
+    //! If the copy/move constructor throw, the state is unspecified.
+    //! It is recommended to never throw on move construcor/assignment.
+    //! @returns an iterator to the first inserted element.
+    template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
         auto p             = const_cast<pointer>(pos.operator->());
         size_type elements = std::ranges::distance(first, last);
@@ -243,9 +260,16 @@ public:
     //! Pushes [first, last) to the end of the array.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr void push_back(Iter first, Sent last) {
-        size_type new_capacity = this->size() + std::ranges::distance(first, last);
-        if(new_capacity > capacity()) {
-            grow_storage(new_capacity);
+        if constexpr(std::forward_iterator<Iter>) {
+            size_type new_capacity = this->size() + std::ranges::distance(first, last);
+            if(new_capacity > capacity()) {
+                grow_storage(new_capacity);
+            }
+        }
+        else {
+            for(; first != last; ++first)
+                emplace_back(*first);
+            return;
         }
         for(; first != last; ++first) {
             alloc_traits::construct(m_allocator, m_data.end, *first);
-- 
2.43.0


From 778aa3ecb675ceec997a3bad6f107d462508c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 34/60] fix: LinkedList constructors release the nodes built
 before an exception

---
 include/xme/container/linked_list.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 95d3ff9..a443b28 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -38,7 +38,7 @@ public:
     constexpr LinkedList() noexcept = default;
 
     //! Default constructs N nodes
-    explicit constexpr LinkedList(std::size_t n) {
+    explicit constexpr LinkedList(std::size_t n) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node();
@@ -47,7 +47,7 @@ public:
     }
 
     //! Constructs N nodes with value
-    constexpr LinkedList(std::size_t n, const T& value) {
+    constexpr LinkedList(std::size_t n, const T& value) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node(value);
@@ -57,24 +57,24 @@ public:
 
     //! Constructs a LinkedList from a [first, end) range
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
-    constexpr LinkedList(Iter first, Sent last) {
+    constexpr LinkedList(Iter first, Sent last) : LinkedList() {
         range_initialize(first, last);
     }
 
     //! Constructs a LinkedList with the initializer_list syntax
-    explicit constexpr LinkedList(std::initializer_list<T> list) {
+    explicit constexpr LinkedList(std::initializer_list<T> list) : LinkedList() {
         range_initialize(list.begin(), list.end());
     }
 
     //! Constructs a LinkedList by Copying elements from other.
-    explicit constexpr LinkedList(const LinkedList& other) {
+    explicit constexpr LinkedList(const LinkedList& other) : LinkedList() {
         range_initialize(other.begin(), other.end());
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
-    explicit constexpr LinkedList(R&& range) {
+    explicit constexpr LinkedList(R&& range) : LinkedList() {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
     }
 
-- 
2.43.0


From 7a641afab37c2950e74c46dbc6cb7c9747f0d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 35/60] fix: moving a LinkedList to itself keeps its elements

---
 include/xme/container/linked_list.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index a443b28..9baceef 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -94,8 +94,10 @@ public:
 
     //! Clears the current elements and transfer elements from other
     constexpr auto operator=(LinkedList&& other) noexcept -> LinkedList& {
-        clear();
-        ::ranges::swap(m_head.next, other.m_head.next);
+        if(this != &other) {
+            clear();
+            ::ranges::swap(m_head.next, other.m_head.next);
+        }
         return *this;
     }
 
-- 
2.43.0


From 6252b9c4cbb796187b52b940c809dfde9e2f4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 36/60] fix: raw AlignedData does not need a default
 constructible type

---
 include/xme/container/aligned_data.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/xme/container/aligned_data.hpp b/include/xme/container/aligned_data.hpp
index cf4dabd..1c4d2eb 100644
--- a/include/xme/container/aligned_data.hpp
+++ b/include/xme/container/aligned_data.hpp
@@ -22,9 +22,7 @@ public:
     using pointer         = T*;
     using const_pointer   = const T*;
 
-    constexpr AlignedData() noexcept
-        requires std::default_initializable<T>
-    = default;
+    constexpr AlignedData() noexcept = default;
 
     template<typename... Args>
     constexpr AlignedData(Args&&... args) noexcept {
-- 
2.43.0


From ac7fe970280cfaf0f60ef2ff053c48adb7dda4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 37/60] fix: AlignedData lets the exceptions of its object
 through

---
 include/xme/container/aligned_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/aligned_data.hpp b/include/xme/container/aligned_data.hpp
index 1c4d2eb..0f8276c 100644
--- a/include/xme/container/aligned_data.hpp
+++ b/include/xme/container/aligned_data.hpp
@@ -25,7 +25,7 @@ public:
     constexpr AlignedData() noexcept = default;
 
     template<typename... Args>
-    constexpr AlignedData(Args&&... args) noexcept {
+    constexpr AlignedData(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>) {
         std::construct_at(data(), std::forward<Args>(args)...);
     }
 
-- 
2.43.0


From 5de25a5bf937040635fa6472077c449f1b481f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 38/60] fix: subview rejects requests whose end overflows

---
 include/xme/container/array_view.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 050049a..9ae1e69 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -158,9 +158,9 @@ public:
     [[nodiscard]]
     constexpr auto subview() const noexcept -> ArrayView<T, Count> {
         if constexpr(Size == dynamic_size)
-            assert(Count + Offset <= size());
+            assert(Offset <= size() && Count <= size() - Offset);
         else
-            static_assert(Count + Offset <= Size);
+            static_assert(Offset <= Size && Count <= Size - Offset);
         return ArrayView<T, Count>(m_view + Offset, Count);
     }
 
@@ -168,7 +168,7 @@ public:
     [[nodiscard]]
     constexpr auto subview(size_type offset,
                            size_type count) const noexcept -> ArrayView<T, dynamic_size> {
-        assert(count + offset <= size());
+        assert(offset <= size() && count <= size() - offset);
         return ArrayView<T, dynamic_size>(m_view + offset, count);
     }
 
-- 
2.43.0


From 13cf2a4165e50698dec712339733972831ba3a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 39/60] fix: an ArrayView does not view the elements of an
 array of another type

---
 include/xme/container/array_view.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 9ae1e69..29c95ea 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -39,6 +39,10 @@ constexpr bool is_std_array = false;
 template<typename U, std::size_t Lenght>
 constexpr bool is_std_array<std::array<U, Lenght>> = true;
 
+//! The elements of an array of U may be viewed as an array of T
+template<typename U, typename T>
+concept CViewableAs = std::is_convertible_v<U (*)[], T (*)[]>;
+
 template<typename U>
 constexpr bool is_array_view = false;
 template<typename U, std::size_t N>
@@ -77,6 +81,7 @@ public:
 
     //! Creates an ArrayView pointing to an iterator up to it + size
     template<std::contiguous_iterator Iter>
+        requires(detail::CViewableAs<std::remove_reference_t<std::iter_reference_t<Iter>>, T>)
     constexpr ArrayView(Iter it, std::size_t size) noexcept :
       m_view(std::to_address(it)), m_size(size) {
         if constexpr(Size != dynamic_size)
@@ -86,6 +91,7 @@ public:
     //! Creates an ArrayView pointing to first, up to first + distance(first,
     //! last)
     template<std::contiguous_iterator Iter, std::sentinel_for<Iter> Sent>
+        requires(detail::CViewableAs<std::remove_reference_t<std::iter_reference_t<Iter>>, T>)
     constexpr ArrayView(Iter first, Sent last) noexcept :
       ArrayView(first, std::ranges::distance(first, last)) {}
 
@@ -95,6 +101,7 @@ public:
                 && (!detail::is_std_array<std::remove_cvref_t<R>>)
                 && (!std::is_array_v<std::remove_cvref_t<R>>)
                 && (!detail::is_array_view<std::remove_cvref_t<R>>)
+                && (detail::CViewableAs<std::remove_reference_t<::ranges::range_reference_t<R>>, T>)
     constexpr ArrayView(R&& range) noexcept : ArrayView(::ranges::data(range), ::ranges::size(range)) {}
 
     //! Create an ArrayView pointing to a C-Style array
@@ -105,7 +112,7 @@ public:
 
     //! Create an ArrayView pointing to a C++-Style array
     template<typename U, std::size_t Lenght>
-        requires(Size == dynamic_size || Size == Lenght)
+        requires(Size == dynamic_size || Size == Lenght) && (detail::CViewableAs<U, T>)
     constexpr ArrayView(std::array<U, Lenght>& arr) noexcept :
       ArrayView(static_cast<pointer>(arr.data()), Lenght) {}
 
@@ -113,7 +120,7 @@ public:
     //! Do not pass a temporary array, a view does not extends the lifetime of the
     //! array
     template<typename U, std::size_t Lenght>
-        requires(Size == dynamic_size || Size == Lenght)
+        requires(Size == dynamic_size || Size == Lenght) && (detail::CViewableAs<const U, T>)
     constexpr ArrayView(const std::array<U, Lenght>& arr) noexcept :
       ArrayView(static_cast<pointer>(arr.data()), Lenght) {}
 
-- 
2.43.0


From 461c7f6a913f85c7e8c5a44d7fca708b2015591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 40/60] fix: a Heap can be built from a range that does not
 know its size

---
 include/xme/container/heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/heap.hpp b/include/xme/container/heap.hpp
index 96ae60d..5bb9321 100644
--- a/include/xme/container/heap.hpp
+++ b/include/xme/container/heap.hpp
@@ -39,7 +39,8 @@ public:
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
                 && (!std::is_same_v<Heap, std::remove_cvref_t<R>>)
     constexpr Heap(R&& range) {
-        m_array.reserve(::ranges::size(range));
+        if constexpr(::ranges::sized_range<R>)
+            m_array.reserve(::ranges::size(range));
         auto first = ::ranges::begin(range);
         auto last  = ::ranges::end(range);
         for(; first != last; ++first) {
-- 
2.43.0


From 767848215e7d2dacddece61faf850ea89d24eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 41/60] fix: ConstIterator over input-only iterators is an
 input iterator

---
 include/xme/core/iterators/const_iterator.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 9896043..82a8737 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -26,15 +26,19 @@ private:
             return std::input_iterator_tag{};
     }
 
+    static constexpr auto get_iterator_category() noexcept {
+        if constexpr(std::forward_iterator<It>)
+            return typename traits::iterator_category{};
+    }
+
     template<std::input_iterator>
     friend class ConstIterator;
 
 public:
     using difference_type = std::iter_difference_t<It>;
     using value_type      = std::iter_value_t<It>;
-    using iterator_category =
-      std::conditional_t<std::forward_iterator<It>, typename traits::iterator_category, void>;
-    using iterator_concept = decltype(get_iterator_concept());
+    using iterator_category = decltype(get_iterator_category());
+    using iterator_concept  = decltype(get_iterator_concept());
 
     constexpr ConstIterator() noexcept = default;
 
@@ -61,6 +65,8 @@ public:
         return *this;
     }
 
+    constexpr void operator++(int) noexcept { ++m_current; }
+
     constexpr auto operator++(int) noexcept -> ConstIterator
         requires std::forward_iterator<It>
     {
-- 
2.43.0


From 288344f9d2ccade14b9993f829f4162d70f82df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 42/60] fix: ConstIterator offers operator[] only for random
 access iterators

---
 include/xme/core/iterators/const_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 82a8737..8f90b42 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -135,7 +135,9 @@ public:
         return *this;
     }
 
-    constexpr auto operator[](difference_type n) const noexcept -> reference {
+    constexpr auto operator[](difference_type n) const noexcept -> reference
+        requires std::random_access_iterator<It>
+    {
         return m_current[n];
     }
 
-- 
2.43.0


From c5ebeb2c3a7be78ce9ad34e8a060dc691102702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 43/60] fix: IContainer::back is only offered when the end is
 an iterator

---
 include/xme/container/icontainer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/icontainer.hpp b/include/xme/container/icontainer.hpp
index 29d1ad0..33abbf9 100644
--- a/include/xme/container/icontainer.hpp
+++ b/include/xme/container/icontainer.hpp
@@ -91,14 +91,14 @@ public:
 
     [[nodiscard]]
     constexpr auto back() noexcept -> decltype(auto)
-        requires(::ranges::bidirectional_range<D>)
+        requires(::ranges::bidirectional_range<D> && ::ranges::common_range<D>)
     {
         return *::ranges::prev(::ranges::end(derived()));
     }
 
     [[nodiscard]]
     constexpr auto back() const noexcept -> decltype(auto)
-        requires(::ranges::bidirectional_range<const D>)
+        requires(::ranges::bidirectional_range<const D> && ::ranges::common_range<const D>)
     {
         return *::ranges::prev(::ranges::end(derived()));
     }
-- 
2.43.0


From a4f3caec9094016ca83dd61eb6651c0f6b26e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 44/60] fix: ConstIterator over iterators that dereference to a
 value is usable

---
 include/xme/core/iterators/const_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 8f90b42..8496a5c 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -51,7 +51,9 @@ public:
         requires std::convertible_to<T, It>
     constexpr ConstIterator(T&& it) noexcept : m_current(std::forward<T>(it)) {}
 
-    constexpr auto operator->() const noexcept -> const auto* {
+    constexpr auto operator->() const noexcept -> const auto*
+        requires std::is_lvalue_reference_v<std::iter_reference_t<It>>
+    {
         if constexpr(std::contiguous_iterator<It>)
             return std::to_address(m_current);
         else
-- 
2.43.0


From 44865e66562f6687e82f3fb0438c827d606b682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 45/60] fix: ReverseIterator orders random access iterators
 that lack <=>

---
 .../xme/core/iterators/reverse_iterator.hpp   | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index b78aafb..69078f1 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -128,6 +128,30 @@ public:
         return rhs.m_current <=> m_current;
     }
 
+    constexpr bool operator<(const self& rhs) const noexcept
+        requires(std::random_access_iterator<It> && !std::three_way_comparable<It>)
+    {
+        return rhs.m_current < m_current;
+    }
+
+    constexpr bool operator>(const self& rhs) const noexcept
+        requires(std::random_access_iterator<It> && !std::three_way_comparable<It>)
+    {
+        return rhs.m_current > m_current;
+    }
+
+    constexpr bool operator<=(const self& rhs) const noexcept
+        requires(std::random_access_iterator<It> && !std::three_way_comparable<It>)
+    {
+        return rhs.m_current <= m_current;
+    }
+
+    constexpr bool operator>=(const self& rhs) const noexcept
+        requires(std::random_access_iterator<It> && !std::three_way_comparable<It>)
+    {
+        return rhs.m_current >= m_current;
+    }
+
     template<typename U>
         requires(std::equality_comparable_with<It, U>)
     constexpr bool operator==(const ReverseIterator<U>& rhs) const noexcept {
-- 
2.43.0


From dce3f5a81c167c3544d6bfc0fa82c3e1e4dedad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 46/60] fix: reverse one-byte ranges whose end is a sentinel

---
 include/xme/core/algorithm/reverse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index f63b0bc..e59404a 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -48,7 +48,8 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I> && std::is_trivially_copyable_v<T> && sizeof(T) == 1) {
+    if constexpr(::ranges::contiguous_iterator<I> && std::is_same_v<I, S>
+                 && std::is_trivially_copyable_v<T> && sizeof(T) == 1) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-- 
2.43.0


From b37097395e94b4ce5cd7998eaee583f26dd3092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:34 +0000
Subject: [PATCH 47/60] fix: SIMD levels may be enabled together with levels
 they imply

---
 include/xme/hal/simd_detection.hpp | 36 ++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/xme/hal/simd_detection.hpp b/include/xme/hal/simd_detection.hpp
index bd9b856..117db5f 100644
--- a/include/xme/hal/simd_detection.hpp
+++ b/include/xme/hal/simd_detection.hpp
@@ -72,63 +72,81 @@
 //!      Enable SIMD Begin
 //! ------------------------------
 #if defined(XME_SIMD_ENABLE_AVX512F)
-#    define XME_SIMD_ENABLE_AVX2
+#    if !defined(XME_SIMD_ENABLE_AVX2)
+#        define XME_SIMD_ENABLE_AVX2
+#    endif
 #    define XME_SIMD_USE_AVX512F true
 #else
 #    define XME_SIMD_USE_AVX512F false
 #endif
 
 #if defined(XME_SIMD_ENABLE_AVX2)
-#    define XME_SIMD_ENABLE_AVX
+#    if !defined(XME_SIMD_ENABLE_AVX)
+#        define XME_SIMD_ENABLE_AVX
+#    endif
 #    define XME_SIMD_USE_AVX2 true
 #else
 #    define XME_SIMD_USE_AVX2 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_AVX)
-#    define XME_SIMD_ENABLE_SSE42
+#    if !defined(XME_SIMD_ENABLE_SSE42)
+#        define XME_SIMD_ENABLE_SSE42
+#    endif
 #    define XME_SIMD_USE_AVX true
 #else
 #    define XME_SIMD_USE_AVX false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSE42)
-#    define XME_SIMD_ENABLE_SSE41
+#    if !defined(XME_SIMD_ENABLE_SSE41)
+#        define XME_SIMD_ENABLE_SSE41
+#    endif
 #    define XME_SIMD_USE_SSE42 true
 #else
 #    define XME_SIMD_USE_SSE42 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSE41)
-#    define XME_SIMD_ENABLE_SSSE3
+#    if !defined(XME_SIMD_ENABLE_SSSE3)
+#        define XME_SIMD_ENABLE_SSSE3
+#    endif
 #    define XME_SIMD_USE_SSE41 true
 #else
 #    define XME_SIMD_USE_SSE41 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSSE3)
-#    define XME_SIMD_ENABLE_SSE3
+#    if !defined(XME_SIMD_ENABLE_SSE3)
+#        define XME_SIMD_ENABLE_SSE3
+#    endif
 #    define XME_SIMD_USE_SSSE3 true
 #else
 #    define XME_SIMD_USE_SSSE3 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSE3)
-#    define XME_SIMD_ENABLE_SSE2
+#    if !defined(XME_SIMD_ENABLE_SSE2)
+#        define XME_SIMD_ENABLE_SSE2
+#    endif
 #    define XME_SIMD_USE_SSE3 true
 #else
 #    define XME_SIMD_USE_SSE3 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSE2)
-#    define XME_SIMD_ENABLE_SSE
+#    if !defined(XME_SIMD_ENABLE_SSE)
+#        define XME_SIMD_ENABLE_SSE
+#    endif
 #    define XME_SIMD_USE_SSE2 true
 #else
 #    define XME_SIMD_USE_SSE2 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSE)
-#    define XME_SIMD_ENABLE_MMX
+#    if !defined(XME_SIMD_ENABLE_MMX)
+#        define XME_SIMD_ENABLE_MMX
+#    endif
 #    define XME_SIMD_USE_SSE true
 #else
 #    define XME_SIMD_USE_SSE false
-- 
2.43.0


From 45bd38c3e9a2cbefa5e813f9999ad021ab7b4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 48/60] fix: std_detection.hpp detects the standard library
 when it is the first include

---
 include/xme/hal/std_detection.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xme/hal/std_detection.hpp b/include/xme/hal/std_detection.hpp
index 1ef2409..3fca8cf 100644
--- a/include/xme/hal/std_detection.hpp
+++ b/include/xme/hal/std_detection.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <version>
 
 #if defined(__LIBCPP_VERSION)
 #    define XME_LIBSTD_CLANG
-- 
2.43.0


From ce82d589c6654ebfc6c5064091768b1f4a2e71ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 49/60] fix: to_unsigned of 128-bit integers outside GNU mode

---
 include/xme/core/utility/to_unsigned.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/utility/to_unsigned.hpp b/include/xme/core/utility/to_unsigned.hpp
index cf55848..74f1b01 100644
--- a/include/xme/core/utility/to_unsigned.hpp
+++ b/include/xme/core/utility/to_unsigned.hpp
@@ -8,7 +8,7 @@ XME_INLINE constexpr auto to_unsigned(T n) {
     return static_cast<std::make_unsigned_t<T>>(n);
 }
 
-#ifdef __sizeof_int128__
+#ifdef __SIZEOF_INT128__
 XME_INLINE constexpr auto to_unsigned(__int128 n) -> unsigned __int128 {
     return static_cast<unsigned __int128>(n);
 }
-- 
2.43.0


From 47ba4f07b8df186491fa7de6b3f374838fa5d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 50/60] fix: SharedLibrary is usable on Apple platforms

---
 include/xme/hal/shared_library.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 656bb48..dcf6ebe 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -5,7 +5,7 @@
 #include "platform_macros.hpp"
 
 #if XME_PLATFORM_WINDOWS
-#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+#elif XME_PLATFORM_LINUX || XME_PLATFORM_APPLE
 #    include <dlfcn.h>
 #endif
 
@@ -42,14 +42,14 @@ public:
     constexpr void open(std::string_view lib_name) {
         close();
 #if XME_PLATFORM_WINDOWS
-#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+#elif XME_PLATFORM_LINUX || XME_PLATFORM_APPLE
         m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
     constexpr void close() {
 #if XME_PLATFORM_WINDOWS
-#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+#elif XME_PLATFORM_LINUX || XME_PLATFORM_APPLE
         if(m_library) {
             dlclose(m_library);
             m_library = nullptr;
@@ -61,14 +61,14 @@ public:
     [[nodiscard]]
     constexpr auto proc_address(std::string_view function) const -> T {
 #if XME_PLATFORM_WINDOWS
-#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+#elif XME_PLATFORM_LINUX || XME_PLATFORM_APPLE
         return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
 
 private:
 #if XME_PLATFORM_WINDOWS
-#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+#elif XME_PLATFORM_LINUX || XME_PLATFORM_APPLE
     void* m_library = nullptr;
 #endif
 };
-- 
2.43.0


From c72d983ff0ce383fe6d408eb254e8ce0b38821b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 51/60] fix: std_detection.hpp recognises libc++

---
 include/xme/hal/std_detection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/hal/std_detection.hpp b/include/xme/hal/std_detection.hpp
index 3fca8cf..9f0c190 100644
--- a/include/xme/hal/std_detection.hpp
+++ b/include/xme/hal/std_detection.hpp
@@ -1,7 +1,7 @@
 #pragma once
 #include <version>
 
-#if defined(__LIBCPP_VERSION)
+#if defined(_LIBCPP_VERSION)
 #    define XME_LIBSTD_CLANG
 #elif defined(__GLIBCXX__)
 #    define XME_LIBSTD_GCC
-- 
2.43.0


From 8fa26f5a63e5bc93c9b8c82cd94f9fab1fd40c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 52/60] fix: rotate truncated 1 - cos(angle) to the axis'
 element type

---
 include/xme/math/matrices/transformation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/transformation.hpp b/include/xme/math/matrices/transformation.hpp
index 2ee17c3..15c22be 100644
--- a/include/xme/math/matrices/transformation.hpp
+++ b/include/xme/math/matrices/transformation.hpp
@@ -41,7 +41,7 @@ XME_INLINE constexpr auto rotate(const Matrix<T, 4, 4>& m, auto angle,
     const auto s{std::sin(static_cast<T>(angle))};
     const auto c{std::cos(static_cast<T>(angle))};
 
-    const Vector<T, 3> temp{n * (1 - c)};
+    const Vector<T, 3> temp{Vector<T, 3>{n} * (1 - c)};
 
     Matrix<T, 3, 3> Rotate;
     Rotate[0][0] = c + temp[0] * n[0];
-- 
2.43.0


From 21f90296f778a10ae6ac69c5958e2f9690e5d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 53/60] fix: lerp computed 1 - percent in percent's type,
 wrapping for unsigned and rounding for narrower types

---
 include/xme/math/vectors/functions.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/vectors/functions.hpp b/include/xme/math/vectors/functions.hpp
index 538800b..22137fe 100644
--- a/include/xme/math/vectors/functions.hpp
+++ b/include/xme/math/vectors/functions.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <limits>
+#include <type_traits>
 #include <xme/setup.hpp>
 #include <xme/core/concepts/arithmetic.hpp>
 #include <xme/math/scalars/functions.hpp>
@@ -17,7 +18,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
     if constexpr(std::is_same_v<std::remove_cv_t<U>, bool>) {
         return percent ? v2 : v1;
     }
-    return v2 * percent + v1 * (1 - percent);
+    return v2 * percent + v1 * (std::common_type_t<T, U>(1) - percent);
 }
 
 //! Linearly interpolates `v1` and `v2`.
@@ -32,7 +33,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
             result[i] = percent[i] ? v2[i] : v1[i];
         }
         else {
-            result[i] = v2[i] * percent[i] + v1[i] * (1 - percent[i]);
+            result[i] = v2[i] * percent[i] + v1[i] * (std::common_type_t<T, U>(1) - percent[i]);
         }
     }
     return result;
-- 
2.43.0


From 0f923f24268da4aa8c68ba3ae771c4a12636cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 54/60] fix: products of matrices and vectors of different
 element types did not compile

---
 include/xme/math/matrices/matrix4x4.hpp | 11 ++++++-----
 include/xme/math/matrix.hpp             |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 0e48752..c4d6eeb 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -89,11 +89,12 @@ public:
     template<typename U>
     [[nodiscard]]
     constexpr auto operator*(const Vector<U, 4>& v) const noexcept -> column_type {
+        const row_type rhs(v);
         return {
-            math::dot(row(0), v),
-            math::dot(row(1), v),
-            math::dot(row(2), v),
-            math::dot(row(3), v),
+            math::dot(row(0), rhs),
+            math::dot(row(1), rhs),
+            math::dot(row(2), rhs),
+            math::dot(row(3), rhs),
         };
     }
 
@@ -104,7 +105,7 @@ public:
         for(std::size_t rowIndex = 0; rowIndex < 4; ++rowIndex) {
             const row_type row = this->row(rowIndex);
             for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)
-                result[columnIndex][rowIndex] = dot(row, m[columnIndex]);
+                result[columnIndex][rowIndex] = dot(row, row_type(m[columnIndex]));
         }
         return result;
     }
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index f6f33cb..9aa9c5e 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -90,7 +90,7 @@ public:
     constexpr auto operator*(const Vector<U, Cols>& v) const noexcept -> column_type {
         column_type result;
         for(std::size_t i = 0; i < Rows; ++i)
-            result[i] = math::dot(this->row(i), v);
+            result[i] = math::dot(this->row(i), row_type(v));
         return result;
     }
     template<typename U, std::size_t Rows2>
@@ -101,7 +101,7 @@ public:
         for(std::size_t rowIndex = 0; rowIndex < Rows; ++rowIndex) {
             const row_type row = this->row(rowIndex);
             for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)
-                result[columnIndex][rowIndex] = math::dot(row, m[columnIndex]);
+                result[columnIndex][rowIndex] = math::dot(row, row_type(m[columnIndex]));
         }
         return result;
     }
-- 
2.43.0


From d1f7d81e39f5dcd490d6eef5eaa1681b107bd4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 55/60] fix: building a Matrix from columns of different
 element types did not compile

---
 include/xme/math/matrices/matrix4x4.hpp | 2 +-
 include/xme/math/matrix.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index c4d6eeb..750ae85 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -61,7 +61,7 @@ public:
     } {}
 
     template<typename... Args>
-    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({args...}) {}
+    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({column_type(args)...}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index 9aa9c5e..f266612 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -62,7 +62,7 @@ public:
     }
 
     template<typename... Args, std::size_t Size>
-    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({args...}) {
+    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({column_type(args)...}) {
         static_assert(sizeof...(Args) == Cols);
     }
 
-- 
2.43.0


From 92f14abb59b41c4fed86c3a10a508bb4c710bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 56/60] fix: find read the searched value through a pointer of
 an unrelated type

The optimisers of gcc and clang reordered that read with the caller's writes and a stale value was searched.
---
 include/xme/core/algorithm/find.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 12d18b6..d765440 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -1,5 +1,7 @@
 #pragma once
 #include <bit>
+#include <cstdint>
+#include <cstring>
 #include <execution>
 #include <x86intrin.h>
 #include <xme/setup.hpp>
@@ -16,29 +18,37 @@ inline constexpr bool simd_comparable =
   && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4
       || (sizeof(T) == 8 && (XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE41)));
 
+//! Reads the bytes of an object that may have another type
+template<typename T>
+XME_INLINE auto load_as(const void* object) noexcept -> T {
+    T result;
+    std::memcpy(&result, object, sizeof(T));
+    return result;
+}
+
 template<std::size_t size>
 XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
     if constexpr(size == 1) {
-        const __m256i needle     = _mm256_set1_epi8(*(std::int8_t*)value);
+        const __m256i needle     = _mm256_set1_epi8(load_as<std::int8_t>(value));
         const __m256i comp       = _mm256_cmpeq_epi8(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
-        const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);
+        const __m256i needle     = _mm256_set1_epi16(load_as<std::int16_t>(value));
         const __m256i comp       = _mm256_cmpeq_epi16(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
-        const __m256i needle    = _mm256_set1_epi32(*(std::int32_t*)value);
+        const __m256i needle    = _mm256_set1_epi32(load_as<std::int32_t>(value));
         const __m256i comp      = _mm256_cmpeq_epi32(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_ps(*(__m256*)&comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
-        const __m256i needle    = _mm256_set1_epi64x(*(std::int64_t*)value);
+        const __m256i needle    = _mm256_set1_epi64x(load_as<std::int64_t>(value));
         const __m256i comp      = _mm256_cmpeq_epi64(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_pd(*(__m256d*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
@@ -46,25 +56,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
     else
 #elif XME_SIMD_USE_SSE2
     if constexpr(size == 1) {
-        const __m128i needle     = _mm_set1_epi8(*(std::int8_t*)value);
+        const __m128i needle     = _mm_set1_epi8(load_as<std::int8_t>(value));
         const __m128i comp       = _mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
-        const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
+        const __m128i needle     = _mm_set1_epi16(load_as<std::int16_t>(value));
         const __m128i comp       = _mm_cmpeq_epi16(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
-        const __m128i needle    = _mm_set1_epi32(*(std::int32_t*)value);
+        const __m128i needle    = _mm_set1_epi32(load_as<std::int32_t>(value));
         const __m128i comp      = _mm_cmpeq_epi32(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
     else if constexpr(size == 8 && XME_SIMD_USE_SSE41) {
-        const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
+        const __m128i needle    = _mm_set1_epi64x(load_as<std::int64_t>(value));
         const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
-- 
2.43.0


From 8ca27c81879582474cb7863a647cacc6dce11882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 57/60] fix: find and reverse were not usable in constant
 expressions in SIMD configurations

---
 include/xme/core/algorithm/find.hpp    | 4 +++-
 include/xme/core/algorithm/reverse.hpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index d765440..6c52c76 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -96,7 +96,9 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
                  && detail::simd_comparable<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
-        while(s - compare >= static_cast<std::ptrdiff_t>(readable_bytes)) {
+        // The vector instructions are not usable in constant expressions
+        while(!std::is_constant_evaluated()
+              && s - compare >= static_cast<std::ptrdiff_t>(readable_bytes)) {
             const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index e59404a..f62f211 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -53,7 +53,8 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-        while(count--) {
+        // The vector instructions are not usable in constant expressions
+        while(!std::is_constant_evaluated() && count--) {
             detail::reverse_simd<sizeof(T)>(std::to_address(i), std::to_address(s));
             i += readable_bytes;
             s -= readable_bytes;
-- 
2.43.0


From bea9a21dc5ab7fa3319ce3a994ed73b8e5f05ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 58/60] fix: indexing vectors and quaternions was not usable in
 constant expressions

---
 include/xme/math/quaternion.hpp      | 6 ++++++
 include/xme/math/vectors/vector2.hpp | 6 ++++++
 include/xme/math/vectors/vector3.hpp | 6 ++++++
 include/xme/math/vectors/vector4.hpp | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/include/xme/math/quaternion.hpp b/include/xme/math/quaternion.hpp
index 55c3dfb..450e7d7 100644
--- a/include/xme/math/quaternion.hpp
+++ b/include/xme/math/quaternion.hpp
@@ -39,11 +39,17 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
+        // The members are not an array in a constant expression
+        if(std::is_constant_evaluated())
+            return i == 0 ? w : i == 1 ? x : i == 2 ? y : z;
         return (&w)[i];
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
+        // The members are not an array in a constant expression
+        if(std::is_constant_evaluated())
+            return i == 0 ? w : i == 1 ? x : i == 2 ? y : z;
         return (&w)[i];
     }
 
diff --git a/include/xme/math/vectors/vector2.hpp b/include/xme/math/vectors/vector2.hpp
index e6003b5..8a393ec 100644
--- a/include/xme/math/vectors/vector2.hpp
+++ b/include/xme/math/vectors/vector2.hpp
@@ -76,12 +76,18 @@ struct Vector<T, 2> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 2 && "Index out of bound");
+        // The members are not an array in a constant expression
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : y;
         return (&x)[i];
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 2 && "Index out of bound");
+        // The members are not an array in a constant expression
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : y;
         return (&x)[i];
     }
 
diff --git a/include/xme/math/vectors/vector3.hpp b/include/xme/math/vectors/vector3.hpp
index 3bb85fe..95aeecd 100644
--- a/include/xme/math/vectors/vector3.hpp
+++ b/include/xme/math/vectors/vector3.hpp
@@ -89,12 +89,18 @@ struct Vector<T, 3> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 3 && "Index out of bound");
+        // The members are not an array in a constant expression
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : i == 1 ? y : z;
         return (&x)[i];
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 3 && "Index out of bound");
+        // The members are not an array in a constant expression
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : i == 1 ? y : z;
         return (&x)[i];
     }
 
diff --git a/include/xme/math/vectors/vector4.hpp b/include/xme/math/vectors/vector4.hpp
index 989004c..bd6b399 100644
--- a/include/xme/math/vectors/vector4.hpp
+++ b/include/xme/math/vectors/vector4.hpp
@@ -106,12 +106,18 @@ struct Vector<T, 4> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 4 && "Index out of bound");
+        // The members are not an array in a constant expression
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : i == 1 ? y : i == 2 ? z : w;
         return (&x)[i];
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 4 && "Index out of bound");
+        // The members are not an array in a constant expression
+        if(std::is_constant_evaluated())
+            return i == 0 ? x : i == 1 ? y : i == 2 ? z : w;
         return (&x)[i];
     }
 
-- 
2.43.0


From 71a231ac1655b3316d3f9511319c3a7ac59e2c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:54 +0000
Subject: [PATCH 59/60] fix: Heap::push lets an exception of the comparator or
 of an element reach the caller

heapfy_up was noexcept, so push, emplace and the range constructors ended the program.
---
 include/xme/container/heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/heap.hpp b/include/xme/container/heap.hpp
index 5bb9321..855f002 100644
--- a/include/xme/container/heap.hpp
+++ b/include/xme/container/heap.hpp
@@ -101,7 +101,7 @@ private:
         return index * 2 + 2;
     }
 
-    constexpr void heapfy_up(size_type index) noexcept {
+    constexpr void heapfy_up(size_type index) {
         for(auto parent_heap = parent(index); index != 0;) {
             if(!m_compare(m_array[parent_heap], m_array[index]))
                 return;
-- 
2.43.0


From 46c39d0a4a86efdf98fefd6667cad49f8b35787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:54 +0000
Subject: [PATCH 60/60] fix: Delegate's copying and converting assignments may
 throw

They copy a callable and allocate, and were noexcept: an exception ended the program.
---
 include/xme/core/functional/delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index b39d2ec..6e795f1 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -150,7 +150,7 @@ public:
 
     explicit constexpr operator bool() const noexcept { return !!m_manager; }
 
-    constexpr auto operator=(const Delegate& other) noexcept -> Delegate& {
+    constexpr auto operator=(const Delegate& other) -> Delegate& {
         Delegate(other).swap(*this);
         return *this;
     }
@@ -170,7 +170,7 @@ public:
     }
 
     template<CDifferentFromSelf<Delegate> Fn>
-    constexpr auto operator=(Fn&& other) noexcept -> Delegate& {
+    constexpr auto operator=(Fn&& other) -> Delegate& {
         Delegate(std::forward<Fn>(other)).swap(*this);
         return *this;
     }
-- 
2.43.0

