From df9e0c88b5db57a7ab35231ad6b25871cdea0058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:06 +0000
Subject: [PATCH 01/30] fix: inner product of empty vectors is zero, and the
 generic dot_core returns the product

---
 include/lalib/ops/vec_ops_core.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 4babe41..ecf35fa 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -205,9 +205,8 @@ inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const st
 
 template<typename T>
 inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
-    auto r = v1[0] * v2[0];
-    #pragma omp simd reduction(+:r)
-    for (auto i = 1u; i < size; ++i) {
+    auto r = T();
+    for (auto i = 0u; i < size; ++i) {
         r += v1[i] * v2[i];
     }
     return r;
@@ -215,8 +214,7 @@ inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
 
 template<typename T>
 inline auto dot_core(const T* v1, const T* v2, size_t size) -> T {
-    __dot_core_simd(v1, v2, size);
-    return v2;
+    return __dot_core_simd(v1, v2, size);
 }
 
 template<>
-- 
2.43.0


From bed456b3466ea7ab9ae2f772521cced6dc05433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:06 +0000
Subject: [PATCH 02/30] fix: neg, axpy and dot on run-time-size vectors throw
 on a size mismatch instead of terminating

---
 include/lalib/ops/vec_ops.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 2694bcb..25597bf 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -24,7 +24,7 @@ template<typename T, size_t N>
 inline auto neg(const SizedVec<T, N>& v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto neg(const DynVec<T>& v, DynVec<T>& vr) noexcept -> DynVec<T>&;
+inline auto neg(const DynVec<T>& v, DynVec<T>& vr) -> DynVec<T>&;
 
 
 template<typename T, size_t N>
@@ -113,7 +113,7 @@ template<typename T, size_t N>
 inline auto axpy(T alpha, const SizedVec<T, N>& x, SizedVec<T, N>& y) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) noexcept -> DynVec<T>&;
+inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) -> DynVec<T>&;
 
 
 /// @brief      Calculate scalar multipliation of vectors
@@ -160,7 +160,7 @@ template<typename T, size_t N>
 inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T;
 
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T;
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T;
 
 
 template<typename T>
@@ -245,7 +245,7 @@ auto neg(const SizedVec<T, N> &v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>
 }
 
 template <typename T>
-auto neg(const DynVec<T> &v, DynVec<T>& vr) noexcept -> DynVec<T> &
+auto neg(const DynVec<T> &v, DynVec<T>& vr) -> DynVec<T> &
 {
     __check_size(v.size(), vr.size());
     __neg_core_simd(v.data(), vr.data(), v.size());
@@ -373,7 +373,7 @@ auto axpy(T alpha, const SizedVec<T, N> &x, SizedVec<T, N> &y) noexcept -> Sized
     return y;
 }
 template <typename T>
-auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) noexcept -> DynVec<T> &
+auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) -> DynVec<T> &
 {
     __check_size(x.size(), y.size());
     axpy_core(alpha, x.data(), y.data(), x.size());
@@ -458,7 +458,7 @@ inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T
     return d;
 }
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T {
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T {
     T d;
     __check_size(x.size(), y.size());
     d = dot_core(x.data(), y.data(), x.size());
-- 
2.43.0


From 2cc667ca3ca6f144bb647093084837b0133edc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:06 +0000
Subject: [PATCH 03/30] fix: add and sub on run-time-size vectors check the
 size of the result vector

---
 include/lalib/ops/vec_ops.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 25597bf..845213b 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -296,6 +296,7 @@ auto add(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto add(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     add_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
@@ -343,6 +344,7 @@ auto sub(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto sub(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     sub_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
-- 
2.43.0


From 16af0168a54421f6d9c3136b3b51ad50a950beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:34 +0000
Subject: [PATCH 04/30] fix: SizedVec::dot checks the size of a run-time-size
 operand

---
 include/lalib/vec/sized_vec.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/vec/sized_vec.hpp b/include/lalib/vec/sized_vec.hpp
index 0236cb8..fef8212 100644
--- a/include/lalib/vec/sized_vec.hpp
+++ b/include/lalib/vec/sized_vec.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <initializer_list>
 #include "lalib/ops/vec_ops_core.hpp"
+#include "lalib/err/error.hpp"
 
 namespace lalib {
 
@@ -74,7 +75,7 @@ public:
 
     // === Operations === //
     constexpr auto dot(const SizedVec<T, N>& v) const noexcept -> T;
-    constexpr auto dot(const DynVec<T>& v) const noexcept -> T;
+    constexpr auto dot(const DynVec<T>& v) const -> T;
 
     constexpr auto norm2() const noexcept -> T;
 
@@ -205,9 +206,12 @@ inline constexpr auto SizedVec<T, N>::dot(const SizedVec<T, N> &v) const noexcep
 }
 
 template <typename T, size_t N>
-inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const noexcept -> T
+inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const -> T
 {
     T d;
+    if (this->size() != v.size()) {
+        throw vec_error::SizeMismatched(this->size(), v.size());
+    }
     d = dot_core(this->data(), v.data(), this->size());
     return d;
 }
-- 
2.43.0


From a57d47c118979edf49fe190af126cadbf78ca549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:34 +0000
Subject: [PATCH 05/30] fix: sub(SizedVec, DynVec, SizedVec) returns the result
 vector

---
 include/lalib/ops/vec_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 845213b..1d28130 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -330,7 +330,7 @@ auto sub(const SizedVec<T, N> &v1, const DynVec<T> &v2, SizedVec<T, N> &vr) -> S
 {
     __check_size(v1.size(), v2.size());
     sub_core(v1.data(), v2.data(), vr.data(), N);
-    return v1;
+    return vr;
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 0d4c899548a86de8cc39aca97157c9c2eec3ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:34 +0000
Subject: [PATCH 06/30] fix: dividing a float vector by a scalar compiles

---
 include/lalib/ops/ops_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 3c00e25..1407bde 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -41,13 +41,13 @@ struct One<std::complex<T>> {
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const T& val) noexcept {
-    return 1.0 / val;
+    return T(1.0) / val;
 }
 
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const std::complex<T>& val) noexcept {
-    return 1.0 / val;
+    return T(1.0) / val;
 }
 
 }
-- 
2.43.0


From c63ac6e6ac656654b9acaed2acf4a5833d42b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:00 +0000
Subject: [PATCH 07/30] fix: cross(DynVec, SizedVec<3>) returns a fixed-size
 vector

---
 include/lalib/ops/vec_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 1d28130..5ebcc14 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -541,7 +541,7 @@ inline auto cross(const SizedVec<T, 3>& x, const DynVec<T>& y, DynVec<T>& vr) no
 template<typename T>
 inline auto cross(const DynVec<T>& x, const SizedVec<T, 3>& y) noexcept -> SizedVec<T, 3> {
     assert(x.size() == 3);
-    auto vr = x;
+    auto vr = y;
     cross3_core(x.data(), y.data(), vr.data());
     return vr;
 }
-- 
2.43.0


From eb5cc73058402c5254c1d7c960b8ee32041bfe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:47 +0000
Subject: [PATCH 08/30] fix: axpy with the same vector as both operands under
 BLAS

---
 include/lalib/ops/vec_ops_core.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index ecf35fa..373807a 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -163,7 +163,12 @@ inline auto axpy_core(T alpha, const T* vx, T* vy, size_t size) noexcept -> T* {
 template<>
 inline auto axpy_core<float>(float alpha, const float* vx, float* vy, size_t size) noexcept -> float* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_saxpy(size, alpha, vx, 1, vy, 1);
+    // BLAS does not allow x and y to be the same vector
+    if (vx == vy) {
+        alpha += 1.0f;
+        cblas_sscal(size, alpha, vy, 1);
+    }
+    else { cblas_saxpy(size, alpha, vx, 1, vy, 1); }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
@@ -173,7 +178,12 @@ inline auto axpy_core<float>(float alpha, const float* vx, float* vy, size_t siz
 template<>
 inline auto axpy_core<double>(double alpha, const double* vx, double* vy, size_t size) noexcept -> double* { 
     #ifdef LALIB_BLAS_BACKEND
-    cblas_daxpy(size, alpha, vx, 1, vy, 1);
+    // BLAS does not allow x and y to be the same vector
+    if (vx == vy) {
+        alpha += 1.0;
+        cblas_dscal(size, alpha, vy, 1);
+    }
+    else { cblas_daxpy(size, alpha, vx, 1, vy, 1); }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
@@ -183,7 +193,12 @@ inline auto axpy_core<double>(double alpha, const double* vx, double* vy, size_t
 template<>
 inline auto axpy_core<std::complex<float>>(std::complex<float> alpha, const std::complex<float>* vx, std::complex<float>* vy, size_t size) noexcept -> std::complex<float>* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_caxpy(size, &alpha, vx, 1, vy, 1);
+    // BLAS does not allow x and y to be the same vector
+    if (vx == vy) {
+        alpha += 1.0f;
+        cblas_cscal(size, &alpha, vy, 1);
+    }
+    else { cblas_caxpy(size, &alpha, vx, 1, vy, 1); }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
@@ -193,7 +208,12 @@ inline auto axpy_core<std::complex<float>>(std::complex<float> alpha, const std:
 template<>
 inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const std::complex<double>* vx, std::complex<double>* vy, size_t size) noexcept -> std::complex<double>* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_zaxpy(size, &alpha, vx, 1, vy, 1);
+    // BLAS does not allow x and y to be the same vector
+    if (vx == vy) {
+        alpha += 1.0;
+        cblas_zscal(size, &alpha, vy, 1);
+    }
+    else { cblas_zaxpy(size, &alpha, vx, 1, vy, 1); }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
-- 
2.43.0


From d37a5ef04c2330537795280dd5570ee65af5bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:59 +0000
Subject: [PATCH 09/30] fix: zero and one of complex element types compile

---
 include/lalib/ops/ops_traits.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 1407bde..22f9d4a 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -9,30 +9,36 @@ namespace lalib {
 
 // === Zero === //
 
+template<typename T>
+struct Zero;
+
 template<typename T>
 requires std::floating_point<T>
-struct Zero {
+struct Zero<T> {
     static auto value() noexcept -> T { return 0.0; }
 };
 
 template<typename T>
 requires std::floating_point<T>
 struct Zero<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(0.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(0.0, 0.0); }
 };
 
 // === One === //
 
+template<typename T>
+struct One;
+
 template<typename T>
 requires std::floating_point<T>
-struct One {
+struct One<T> {
     static auto value() noexcept -> T { return 1.0; }
 };
 
 template<typename T>
 requires std::floating_point<T>
 struct One<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(1.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(1.0, 0.0); }
 };
 
 
-- 
2.43.0


From 8ae0f6ee4899a1db589bd1aabdf91415c073487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 10/30] fix: reading outside the band of a tri-diagonal matrix
 returns no dangling reference

---
 include/lalib/mat/dyn_mat.hpp   | 3 ++-
 include/lalib/mat/sized_mat.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index f81c6c1..f13be77 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -265,6 +265,7 @@ private:
     std::vector<T> _dl;
     std::vector<T> _d;
     std::vector<T> _du;
+    T _zero = Zero<T>::value();
 };
 
 template <typename T>
@@ -290,7 +291,7 @@ inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) const ->
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return this->_zero;
 }
 template <typename T>
 inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) -> T &
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index d2bba69..ac63b5c 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -285,6 +285,7 @@ private:
     std::array<T, N - 1>    _dl;
     std::array<T, N>        _d;
     std::array<T, N - 1>    _du;
+    T                       _zero = Zero<T>::value();
 };
 
 template <typename T, size_t N>
@@ -304,7 +305,7 @@ inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) cons
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return this->_zero;
 }
 template <typename T, size_t N>
 inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) -> T &
-- 
2.43.0


From 0001514b0407e01396b3d607f09af5a88f8f7dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 11/30] fix: extending an empty Hessenberg matrix takes one
 element

---
 include/lalib/mat/dyn_mat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index f13be77..7973278 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -465,8 +465,9 @@ void HessenbergMat<T>::extend_with_zero() noexcept {
 
 template<typename T>
 void HessenbergMat<T>::extend_with(std::vector<T>&& new_elems) {
-    if (new_elems.size() != this->_n + 2) {
-        throw std::invalid_argument("New components must have length n + 2 = " + std::to_string(this->_n + 2));
+    auto n_new = this->_n == 0 ? 1 : this->_n + 2;
+    if (new_elems.size() != n_new) {
+        throw std::invalid_argument("New components must have length " + std::to_string(n_new));
     }
     this->_h.insert(this->_h.end(), new_elems.begin(), new_elems.end());
     this->_n += 1;
-- 
2.43.0


From f14f233c3d112584bcf8b56289959041567b1688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 12/30] fix: an impossible element count for an
 upper-triangular matrix is a catchable error; a default-constructed one is
 empty

---
 include/lalib/mat/dyn_mat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 7973278..cf3547b 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -496,7 +496,7 @@ struct DynUpperTriMat {
     DynUpperTriMat() noexcept = default;
 
     /// @brief Creates a upper triangular matrix with given elements.
-    DynUpperTriMat(std::vector<T>&& upper_elems) noexcept;
+    DynUpperTriMat(std::vector<T>&& upper_elems);
 
     /// @brief Creates an empty upper triangular matrix by allocating memory for the given capacity.
     static constexpr auto with_capacity(size_t cap) noexcept -> DynUpperTriMat<T>;
@@ -531,7 +531,7 @@ struct DynUpperTriMat {
     auto data() noexcept -> T*;
 
 private:
-    size_t _n;
+    size_t _n = 0;
     std::vector<T> _upper_elems;
 
     const T _zero = Zero<T>::value();
@@ -550,7 +550,7 @@ private:
 };
 
 template<typename T>
-DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems) noexcept:
+DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems):
     _n(_calc_size(upper_elems.size())),
     _upper_elems(std::move(upper_elems))
 {}
-- 
2.43.0


From 80624e913a765299464fbf4e6d99e1db6dc67626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:04 +0000
Subject: [PATCH 13/30] fix: Hessenberg and upper-triangular matrices are
 assignable

---
 include/lalib/mat/dyn_mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index cf3547b..35d8f84 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -389,7 +389,7 @@ private:
     size_t _n;
     std::vector<T> _h;
     
-    const T _zero = Zero<T>::value();
+    T _zero = Zero<T>::value();
 
     static auto _calc_size(size_t n) -> size_t {
         if (n == 0) { return 0; }
@@ -534,7 +534,7 @@ private:
     size_t _n = 0;
     std::vector<T> _upper_elems;
 
-    const T _zero = Zero<T>::value();
+    T _zero = Zero<T>::value();
 
     static auto _calc_size(size_t n) -> size_t {
         auto ac = 1 + 8 * n;
-- 
2.43.0


From cfea7d5354479390c32fdb3e8aae5d5862b3ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 14/30] fix: BLAS matrix-vector product into its own operand
 uses the original y

---
 include/lalib/ops/mat_vec_ops_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index d5db0dc..59cd56e 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -74,6 +74,7 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_sgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
@@ -90,6 +91,7 @@ inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_dgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
-- 
2.43.0


From a535c1f534686468f6f294be51570e1d1d3c3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 15/30] fix: BLAS product with a matrix of no columns scales y
 by beta

---
 include/lalib/ops/mat_vec_ops_core.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index 59cd56e..b189c46 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -72,7 +72,10 @@ inline auto mul_core(size_t n, size_t m, T alpha, const T* mat, const T* x, T be
 template<>
 inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, const float* x, float beta, float* y) noexcept -> float* {
     #if defined(LALIB_BLAS_BACKEND)
-    if (x == y) {
+    if (m == 0) {
+        // xGEMV returns at once without scaling y.
+        __mul_core_simd(n, m, alpha, mat, x, beta, y);
+    } else if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
         std::copy(y, y + n, tmp.get());
         cblas_sgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
@@ -89,7 +92,10 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
 template<>
 inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat, const double* x, double beta, double* y) noexcept -> double* {
     #if defined(LALIB_BLAS_BACKEND)
-    if (x == y) {
+    if (m == 0) {
+        // xGEMV returns at once without scaling y.
+        __mul_core_simd(n, m, alpha, mat, x, beta, y);
+    } else if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
         std::copy(y, y + n, tmp.get());
         cblas_dgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
-- 
2.43.0


From e43e012fd666ea4b63bc55ff79e2698bc3c616c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 16/30] fix: BLAS matrix product uses the row length of C as
 its leading dimension

---
 include/lalib/ops/mat_mat_ops_core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops_core.hpp b/include/lalib/ops/mat_mat_ops_core.hpp
index be1f614..0d30a8f 100644
--- a/include/lalib/ops/mat_mat_ops_core.hpp
+++ b/include/lalib/ops/mat_mat_ops_core.hpp
@@ -61,10 +61,10 @@ inline auto mul_core<float>(size_t n, size_t m, size_t l, float alpha, const flo
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<float[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
@@ -78,10 +78,10 @@ inline auto mul_core<double>(size_t n, size_t m, size_t l, double alpha, const d
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<double[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
-- 
2.43.0


From 2e37757716dceb9f7ffe42844eae868429ddc5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 17/30] fix: BLAS matrix product with a zero extent passes
 valid leading dimensions

---
 include/lalib/ops/mat_mat_ops_core.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops_core.hpp b/include/lalib/ops/mat_mat_ops_core.hpp
index 0d30a8f..6c3d36f 100644
--- a/include/lalib/ops/mat_mat_ops_core.hpp
+++ b/include/lalib/ops/mat_mat_ops_core.hpp
@@ -15,6 +15,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <algorithm>
 #include <memory>
 
 #ifdef LALIB_BLAS_BACKEND
@@ -61,10 +62,10 @@ inline auto mul_core<float>(size_t n, size_t m, size_t l, float alpha, const flo
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<float[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, tmp.get(), std::max<size_t>(1u, m));
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, matc, std::max<size_t>(1u, m));
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
@@ -78,10 +79,10 @@ inline auto mul_core<double>(size_t n, size_t m, size_t l, double alpha, const d
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<double[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, tmp.get(), std::max<size_t>(1u, m));
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, matc, std::max<size_t>(1u, m));
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
-- 
2.43.0


From f16482d7ce63a1470e65c87b99c85069874ae0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 18/30] fix: matrix product operators compile for every element
 type

---
 include/lalib/ops/mat_mat_ops.hpp |  4 ++--
 include/lalib/ops/mat_vec_ops.hpp | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index 2bef08f..e8f07f8 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -183,14 +183,14 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, DynMat<
 template<typename T, size_t N, size_t M, size_t L>
 inline auto operator*(const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b) noexcept -> SizedMat<T, N, M> {
     auto mr = lalib::SizedMat<T, N, M>::uninit();
-    mul(1.0, a, b, 0.0, mr);
+    mul(T(1), a, b, T(0), mr);
     return mr;
 }
 
 template<typename T>
 inline auto operator*(const DynMat<T>& a, const DynMat<T>& b) noexcept -> DynMat<T> {
     auto mr = lalib::DynMat<T>::uninit(a.shape().first, b.shape().second);
-    mul(1.0, a, b, 0.0, mr);
+    mul(T(1), a, b, T(0), mr);
     return mr;
 }
 
diff --git a/include/lalib/ops/mat_vec_ops.hpp b/include/lalib/ops/mat_vec_ops.hpp
index c2370b8..ef62c99 100644
--- a/include/lalib/ops/mat_vec_ops.hpp
+++ b/include/lalib/ops/mat_vec_ops.hpp
@@ -59,7 +59,7 @@ inline auto mul(T alpha, const SpMat<T>& mat, const DynVec<T>& v, T beta, DynVec
 template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const SizedVec<T, M>& vec) noexcept -> SizedVec<T, N> {
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -67,7 +67,7 @@ template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const DynVec<T>& vec) noexcept -> SizedVec<T, N> {
     assert(M == vec.size());
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -76,7 +76,7 @@ inline auto operator*(const DynMat<T>& mat, const SizedVec<T, N>& vec) noexcept
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -85,7 +85,7 @@ inline auto operator*(const DynMat<T>& mat, const DynVec<T>& vec) noexcept -> Dy
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, T(1), mat.data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
@@ -94,7 +94,7 @@ inline auto operator*(const SpMat<T>& mat, const DynVec<T>& vec) noexcept -> Dyn
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), 1.0, mat.values().data(), vec.data(), 0.0, vr.data());
+    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), T(1), mat.values().data(), vec.data(), T(0), vr.data());
     return vr;
 }
 
-- 
2.43.0


From d4f737b1ce2582315cc26347a2216f4a419e5b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 19/30] fix: misspelt member in an assertion of the matrix
 product

---
 include/lalib/ops/mat_mat_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index e8f07f8..b063d3c 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -142,7 +142,7 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, SizedMa
 
 template<typename T, size_t N, size_t M, size_t L>
 inline auto mul(T alpha, const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b, T beta, DynMat<T>& c) noexcept -> DynMat<T>& {
-    assert(c.shape().frist == N);
+    assert(c.shape().first == N);
     assert(c.shape().second == M);
     mul_core(N, M, L, alpha, a.data(), b.data(), beta, c.data());
     return c;
-- 
2.43.0


From 2432f01897ec9f0609b0d3f3f08143f64fcbb80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 20/30] fix: matrix negation and 2x2 inversion compile for the
 other element types

---
 include/lalib/mat.hpp         | 4 ++--
 include/lalib/ops/mat_ops.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lalib/mat.hpp b/include/lalib/mat.hpp
index 15b8c71..d11d065 100644
--- a/include/lalib/mat.hpp
+++ b/include/lalib/mat.hpp
@@ -34,14 +34,14 @@ inline auto invert(const SizedMat<T, 2, 2>& mat, SizedMat<T, 2, 2>& rmat) -> Siz
         rmat(1, 1) = mat(0, 0);
         rmat(0, 1) = -mat(0, 1);
         rmat(1, 0) = -mat(1, 0);
-        scale(1.0 / denom, rmat);
+        scale(T(1) / denom, rmat);
         return rmat;
     } else {
         auto denom = mat(0, 0) * mat(1, 1) - mat(0, 1) * mat(1, 0);
         std::swap(rmat(0, 0), rmat(1, 1));
         rmat(0, 1) *= -1.0;
         rmat(1, 0) *= -1.0;
-        scale(1.0 / denom, rmat);
+        scale(T(1) / denom, rmat);
         return rmat;
     }
 }
diff --git a/include/lalib/ops/mat_ops.hpp b/include/lalib/ops/mat_ops.hpp
index 7182db1..3c2520d 100644
--- a/include/lalib/ops/mat_ops.hpp
+++ b/include/lalib/ops/mat_ops.hpp
@@ -78,7 +78,7 @@ template<typename T, size_t N, size_t M>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SizedMat<T, N, M>& mat) noexcept -> SizedMat<T, N, M> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(static_cast<T>(-1), rmat);
     return rmat;
 }
 
@@ -86,7 +86,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const DynMat<T>& mat) noexcept -> DynMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(static_cast<T>(-1), rmat);
     return rmat;
 }
 
@@ -94,7 +94,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpCooMat<T>& mat) noexcept -> SpCooMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(static_cast<T>(-1), rmat);
     return rmat;
 }
 
@@ -102,7 +102,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpMat<T>& mat) noexcept -> SpMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(static_cast<T>(-1), rmat);
     return rmat;
 }
 
-- 
2.43.0


From 49383e6ce761e64c4bfea203ea561de1ac6f3d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:54 +0000
Subject: [PATCH 21/30] fix: shape of a sparse matrix without entries is
 defined

---
 include/lalib/mat/sp_mat.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index d8401c9..81ee059 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -308,8 +308,8 @@ auto SpCooMat<T>::unit(size_t n) -> SpCooMat<T> {
 
 template<typename T>
 constexpr auto SpCooMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
-    size_t nrow = *std::ranges::max_element(this->_row_ids) + 1;
-    size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
+    size_t nrow = this->_row_ids.empty() ? 0 : *std::ranges::max_element(this->_row_ids) + 1;
+    size_t ncol = this->_col_ids.empty() ? 0 : *std::ranges::max_element(this->_col_ids) + 1;
 
     return std::make_pair(nrow, ncol);
 }
@@ -520,8 +520,8 @@ auto SpMat<T>::unit(size_t n) -> SpMat<T> {
 
 template<typename T>
 constexpr auto SpMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
-    size_t nrow = this->_row_ptr.size() - 1;
-    size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
+    size_t nrow = this->_row_ptr.empty() ? 0 : this->_row_ptr.size() - 1;
+    size_t ncol = this->_col_ids.empty() ? 0 : *std::ranges::max_element(this->_col_ids) + 1;
 
     return std::make_pair(nrow, ncol);
 }
-- 
2.43.0


From 6fc57ca355a24c2c8d90e44d338c0572787826c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 22/30] fix: tri-diagonal solver handles systems of zero and
 one unknowns

---
 include/lalib/solver/internal/tdma.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lalib/solver/internal/tdma.hpp b/include/lalib/solver/internal/tdma.hpp
index 23fcb3e..2db0c82 100644
--- a/include/lalib/solver/internal/tdma.hpp
+++ b/include/lalib/solver/internal/tdma.hpp
@@ -10,6 +10,12 @@ namespace lalib::solver::_internal_ {
 template<typename T>
 requires ::std::floating_point<T>
 auto tdma(size_t n, size_t nrow, const T* dl, const T* d, const T* du, const T* b, T* x) -> T* {
+    if (n == 0) { return x; }
+    if (n == 1) {   // There are no off-diagonal elements.
+        for (auto k = 0u; k < nrow; ++k) { x[k] = b[k] / d[0]; }
+        return x;
+    }
+
     for (auto k = 0u; k < nrow; ++k) {
         std::vector<T> p, q;
         p.reserve(n);
-- 
2.43.0


From 461ecc8dd76f023851151e1d8f6d77b901a05897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 23/30] fix: solving a tri-diagonal system under LAPACK leaves
 the solver's matrix unchanged

---
 include/lalib/solver/tri_diag.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/tri_diag.hpp b/include/lalib/solver/tri_diag.hpp
index 844ddd1..cc90e2b 100644
--- a/include/lalib/solver/tri_diag.hpp
+++ b/include/lalib/solver/tri_diag.hpp
@@ -55,7 +55,8 @@ inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), 1);
+    auto mat = this->_mat;  // gtsv overwrites the matrix with its factors.
+    _lapack_::gtsv(n, 1, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), 1);
     #else
     _internal_::tdma(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
@@ -75,7 +76,8 @@ inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) noe
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), rslt.shape().second);
+    auto mat = this->_mat;  // gtsv overwrites the matrix with its factors.
+    _lapack_::gtsv(n, nrow, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), rslt.shape().second);
     #else
     _internal_::tdma(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
-- 
2.43.0


From 28b2f08f9caf2ac09d041c124f466adf8b192be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:47 +0000
Subject: [PATCH 24/30] fix: Cholesky factorization rejects a matrix whose
 first pivot is not positive

---
 include/lalib/solver/internal/cholesky_decomposition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index dcd5c4b..2cbea97 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -37,10 +37,10 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 		} 
 
 		if (l[index<MType>(n, i, i)] == 0) { 
-            return i;
+            return i + 1;
 		} 
 		else if (l[index<MType>(n, i, i)] < 0) { 
-            return i;
+            return i + 1;
 		}
 
 		l[index<MType>(n, i, i)] = std::sqrt( l[index<MType>(n, i, i)] );
-- 
2.43.0


From 8582d68c26fb43e55c76496b1132b2d39d98a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:02 +0000
Subject: [PATCH 25/30] fix: Cholesky factorizations work with their own
 element type, not only double

---
 include/lalib/solver/cholesky_factorization.hpp  | 16 ++++++++--------
 .../solver/internal/cholesky_decomposition.hpp   |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/lalib/solver/cholesky_factorization.hpp b/include/lalib/solver/cholesky_factorization.hpp
index 9b94a40..2982ebc 100644
--- a/include/lalib/solver/cholesky_factorization.hpp
+++ b/include/lalib/solver/cholesky_factorization.hpp
@@ -107,7 +107,7 @@ template<Vector V>
 inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
    	assert(this->_data.shape().first == rhs.size());
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -118,7 +118,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const V& rhs) const ->
    	assert(this->_data.shape().first == rhs.size());
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -130,7 +130,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M&
    	assert(rhs.shape().first == rhs.shape().first);
    	assert(rhs.shape().second == rhs.shape().second);
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -143,7 +143,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const M& rhs) const ->
    	assert(rhs.shape().second == rhs.shape().second);
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -179,7 +179,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rhs.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -194,7 +194,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const V& rhs) const -> V {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rslt.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
@@ -210,7 +210,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rhs.data(), rhs.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -227,7 +227,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const M& rhs) const -> M {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rslt.data(), rslt.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index 2cbea97..a02229e 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -23,7 +23,7 @@ inline constexpr auto index<MemType::Triangle>(size_t, size_t i, size_t j) noexc
 
 
 template<typename T, MemType MType>
-auto cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto cholesky_decomposition(size_t n, T* l) -> int32_t {
     for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j < i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -49,7 +49,7 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs, double* rslt) -> double* {
+auto cholesky_linear(size_t n, size_t nrow, const T* l, const T* rhs, T* rslt) -> T* {
 	for (auto k = 0u; k < nrow; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
@@ -72,7 +72,7 @@ auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs,
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto mod_cholesky_decomposition(size_t n, T* l) -> int32_t {
 	for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j <= i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -87,7 +87,7 @@ auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_linear(size_t n, size_t nrhs, const double* l, const double* rhs, double* rslt) {
+auto mod_cholesky_linear(size_t n, size_t nrhs, const T* l, const T* rhs, T* rslt) {
 	for (auto k = 0u; k < nrhs; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
-- 
2.43.0


From 5971200f17c908b79a201958bb382009f25b4989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:00 +0000
Subject: [PATCH 26/30] fix: incomplete LU factorization rejects a zero pivot
 in every row, not only one that is divided by

---
 include/lalib/solver/ilu.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/solver/ilu.hpp b/include/lalib/solver/ilu.hpp
index 13dff23..45bddfe 100644
--- a/include/lalib/solver/ilu.hpp
+++ b/include/lalib/solver/ilu.hpp
@@ -57,6 +57,8 @@ namespace internal {
                     mat.mut_at(i, j) = sum;
                 }
             }
+
+            if (mat(i, i) == 0) { return false; }
         }
 
         return true;
-- 
2.43.0


From 92d99944509f6e3d51a8053c3583c9d4097efd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 27/30] fix: Gram-Schmidt accepts an empty sequence of vectors

---
 include/lalib/ops/orthogonal.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lalib/ops/orthogonal.hpp b/include/lalib/ops/orthogonal.hpp
index 4f01b89..8517dc4 100644
--- a/include/lalib/ops/orthogonal.hpp
+++ b/include/lalib/ops/orthogonal.hpp
@@ -13,11 +13,10 @@ namespace lalib::orth {
 template<std::ranges::random_access_range C>
 requires Vector<std::ranges::range_value_t<C>>
 inline void cgs(C& vecs) {
-    auto n = vecs[0].size();
     auto m = vecs.size();
 
     for (auto j = 1u; j < m; ++j) {
-        assert(n == vecs[1].size());
+        assert(vecs[0].size() == vecs[j].size());
         auto vj = vecs[j];
         for (auto k = 0u; k < j; ++k) {
             lalib::axpy(-lalib::dot(vecs[k], vj) / vecs[k].dot(vecs[k]), vecs[k], vecs[j]);
-- 
2.43.0


From 5bf54960445e8061a5a171c0eb36eba6a0c632d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:00 +0000
Subject: [PATCH 28/30] fix: sparse addition into a row without elements does
 not read the next row

---
 include/lalib/mat/sp_mat.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index 81ee059..78a0905 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -382,7 +382,14 @@ auto SpCooMat<T>::operator+=(const SpCooMat<T>& mat) -> SpCooMat<T>& {
         auto rcursor_end = std::distance(mat._row_ids.begin(), rrow_iter_end) - 1;
 
         while (rcursor <= rcursor_end) {
-            if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
+            if (cursor > cursor_end) {
+                // The row `i` of this matrix has no elements.
+                this->_val.emplace_back(mat._val[rcursor]);
+                this->_row_ids.emplace_back(i);
+                this->_col_ids.emplace_back(mat._col_ids[rcursor]);
+                ++rcursor;
+            }
+            else if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
                 this->_val[cursor] += mat._val[rcursor];
 
                 if (rcursor == rcursor_end) { break; }
-- 
2.43.0


From 68865aa194d22f818b43dfc6161570ebac9b7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:32 +0000
Subject: [PATCH 29/30] fix: GMRES compiles for the other floating-point
 element types

---
 include/lalib/solver/gmres.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index ca0684e..f43ee68 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -48,7 +48,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
-    q.emplace_back((1.0 / b_prime.norm2()) * b_prime);
+    q.emplace_back((One<T>::value() / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
     auto c = std::vector<T>();
@@ -82,7 +82,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     // Transform the solution from the Krylov subspace
     auto x = lalib::DynVec<T>::filled(n, Zero<T>::value());
     for (auto i = 0u; i < beta.size() - 1; ++i) {
-        axpy(1.0, beta[i] * q[i], x);
+        axpy(One<T>::value(), beta[i] * q[i], x);
     }
 
     return x;
@@ -105,11 +105,11 @@ void Gmres<T, M>::_arnoldi(std::vector<DynVec<T>>& q, HessenbergMat<T>& hess, T&
         hess(j, i) = dot(q[j], v);
     }
     for (auto j: std::views::iota(0u, i + 1)) {
-        axpy(-1.0, hess(j, i) * q[j], v);
+        axpy(-One<T>::value(), hess(j, i) * q[j], v);
     }
 
     h = v.norm2();
-    q.emplace_back((1.0 / h) * v);
+    q.emplace_back((One<T>::value() / h) * v);
 }
 
 template<typename T, typename M>
-- 
2.43.0


From 82948e46b8e0c7117ef767625e800ef516869707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 30/30] fix: GMRES returns zero for a zero right-hand side
 instead of NaN

---
 include/lalib/solver/gmres.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index f43ee68..cd5790e 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -48,7 +48,10 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
-    q.emplace_back((One<T>::value() / b_prime.norm2()) * b_prime);
+    auto b_norm = b_prime.norm2();
+    // The direction of a zero vector is undefined, the solution is zero.
+    if (b_norm == 0) { return lalib::DynVec<T>::filled(n, Zero<T>::value()); }
+    q.emplace_back((One<T>::value() / b_norm) * b_prime);
 
     // Givens rotation components
     auto c = std::vector<T>();
@@ -59,7 +62,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     // Beta vector ( beta = ||b||| U^T e_1 )
     auto beta = std::vector<T>();
     beta.reserve(n);
-    beta.emplace_back(b_prime.norm2());
+    beta.emplace_back(b_norm);
 
     auto r = DynUpperTriMat<T>::with_capacity(n);
     auto hess = HessenbergMat<T>::with_capacity(n);
-- 
2.43.0

