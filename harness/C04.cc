#include "h.hpp"
#define V(T, S) \
FN int vec_get_##S(size_t n, size_t k, T* a, T* r) { const auto A = DynVec<T>(std::vector<T>(a, a + n)); if (A.size() != n) return 100; r[0] = A[k]; r[1] = A.data()[k]; r[2] = A.begin()[k]; r[3] = A.cbegin()[k]; return 0; } \
FN int vec_get2_##S(size_t n, size_t k, T* a, T* r) { const std::vector<T> v(a, a + n); auto A = DynVec<T>(v); if (A.size() != n) return 100; r[0] = A[k]; r[1] = A.data()[k]; r[2] = A.begin()[k]; r[3] = A.cbegin()[k]; return 0; } \
FN int vec_set_##S(size_t n, size_t k, T* s, T* a) { auto A = dv(a, n); A[k] = *s; put(A, a); return A.size() == n ? 0 : 100; } \
FN int vec_setd_##S(size_t n, size_t k, T* s, T* a) { auto A = dv(a, n); A.data()[k] = *s; for (size_t i = 0; i < n; ++i) a[i] = A[i]; return A.size() == n ? 0 : 100; } \
FN int vec_seti_##S(size_t n, size_t k, T* s, T* a) { auto A = dv(a, n); A.begin()[k] = *s; put(A, a); return A.size() == n ? 0 : 100; } \
FN int vec_iter_##S(size_t n, T* a, T* r, T* q, T* p) { auto A = dv(a, n); const auto& B = A; for (const auto& x : A) *r++ = x; for (const auto& x : B) *q++ = x; std::copy(A.cbegin(), A.cend(), p); return 0; } \
FN int vec_list_##S(T* a, T* r) { auto A = DynVec<T>({a[0], a[1], a[2]}); if (A.size() != 3) return 100; put(A, r); return 0; } \
FN int vec_empty_##S() { auto A = DynVec<T>(); return A.size() == 0 && A.begin() == A.end() ? 0 : 100; } \
FN int vec_uninit_##S(size_t n) { auto A = DynVec<T>::uninit(n); return A.size() == n && size_t(A.end() - A.begin()) == n ? 0 : 100; } \
FN int vec_filled_##S(size_t n, T* s, T* r) { auto A = DynVec<T>::filled(n, *s); if (A.size() != n) return 100; put(A, r); return 0; }
#define SV(T, S, N) \
FN int svec##N##_get_##S(size_t k, T* a, T* r) { const auto A = sv<T, N>(a); if (A.size() != N) return 100; r[0] = A[k]; r[1] = A.data()[k]; r[2] = *(A.begin() + k); r[3] = *(A.cbegin() + k); return 0; } \
FN int svec##N##_set_##S(size_t k, T* s, T* a) { auto A = sv<T, N>(a); A[k] = *s; put(A, a); return 0; } \
FN int svec##N##_setd_##S(size_t k, T* s, T* a) { auto A = sv<T, N>(a); A.data()[k] = *s; for (size_t i = 0; i < N; ++i) a[i] = A[i]; return 0; } \
FN int svec##N##_iter_##S(T* a, T* r, T* q, T* p) { auto A = sv<T, N>(a); const auto& B = A; for (const auto& x : A) *r++ = x; for (const auto& x : B) *q++ = x; std::copy(A.cbegin(), A.cend(), p); return 0; } \
FN int svec##N##_from_##S(size_t m, T* a, T* r) { std::vector<T> v(a, a + m); RUN(st, SizedVec<T, N> A(v); put(A, r)) return st; } \
FN int svec##N##_filled_##S(T* s, T* r) { auto A = SizedVec<T, N>::filled(*s); put(A, r); return 0; } \
FN int svec##N##_uninit_##S() { auto A = SizedVec<T, N>::uninit(); return A.size() == N && A.end() - A.begin() == N ? 0 : 100; }
#define M(T, S) \
FN int mat_get_##S(size_t n, size_t m, size_t i, size_t j, T* a, T* r) { const auto A = dm(a, n, m); if (A.shape() != std::make_pair(n, m)) return 100; r[0] = A(i, j); r[1] = A.at(i, j); r[2] = A.data()[i * m + j]; r[3] = A.begin()[i * m + j]; return 0; } \
FN int mat_get2_##S(size_t n, size_t m, size_t i, size_t j, T* a, T* r) { auto A = DynMat<T>(std::vector<T>(a, a + n * m), n, m); if (A.shape() != std::make_pair(n, m)) return 100; r[0] = A(i, j); r[1] = A.at(i, j); r[2] = A.mut_at(i, j); r[3] = A.cbegin()[i * m + j]; return 0; } \
FN int mat_set_##S(size_t n, size_t m, size_t i, size_t j, T* s, T* a) { auto A = dm(a, n, m); A(i, j) = *s; put(A, a); return A.shape() == std::make_pair(n, m) ? 0 : 100; } \
FN int mat_mut_##S(size_t n, size_t m, size_t i, size_t j, T* s, T* a) { auto A = dm(a, n, m); A.mut_at(i, j) = *s; put(A, a); return A.shape() == std::make_pair(n, m) ? 0 : 100; } \
FN int mat_setd_##S(size_t n, size_t m, size_t i, size_t j, T* s, T* a) { auto A = dm(a, n, m); A.data()[i * m + j] = *s; std::copy(A.begin(), A.end(), a); return 0; } \
FN int mat_iter_##S(size_t n, size_t m, T* a, T* r, T* q, T* p) { auto A = dm(a, n, m); const auto& B = A; std::copy(A.begin(), A.end(), r); std::copy(B.begin(), B.end(), q); std::copy(A.cbegin(), A.cend(), p); return 0; } \
FN int mat_list_##S(T* a, T* r) { auto A = DynMat<T>(3, 2, {a[0], a[1], a[2], a[3], a[4], a[5]}); if (A.shape() != std::make_pair(size_t(3), size_t(2))) return 100; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 2; ++j) r[2 * i + j] = A(i, j); return 0; } \
FN int mat_filled_##S(size_t n, size_t m, T* s, T* r) { auto A = DynMat<T>::filled(*s, n, m); if (A.shape() != std::make_pair(n, m)) return 100; put(A, r); return 0; } \
FN int mat_uninit_##S(size_t n, size_t m) { auto A = DynMat<T>::uninit(n, m); return A.shape() == std::make_pair(n, m) && size_t(A.end() - A.begin()) == n * m ? 0 : 100; } \
FN int mat_diagv_##S(size_t n, T* a, T* r) { auto A = DynMat<T>::diag(std::vector<T>(a, a + n)); if (A.shape() != std::make_pair(n, n)) return 100; put(A, r); return 0; } \
FN int mat_diag_##S(size_t n, T* s, T* r) { auto A = DynMat<T>::diag(*s, n); if (A.shape() != std::make_pair(n, n)) return 100; put(A, r); return 0; }
#define MI(T, S) \
FN int mat_identity_##S(size_t n, T* r) { auto A = DynMat<T>::identity(n); if (A.shape() != std::make_pair(n, n)) return 100; put(A, r); return 0; }
#define SM(T, S, N, M) \
FN int smat##N##x##M##_get_##S(size_t i, size_t j, T* a, T* r) { const auto A = sm<T, N, M>(a); if (A.shape() != std::pair<size_t, size_t>(N, M)) return 100; r[0] = A(i, j); r[1] = A.at(i, j); r[2] = A.data()[i * M + j]; r[3] = *(A.begin() + i * M + j); return 0; } \
FN int smat##N##x##M##_set_##S(size_t i, size_t j, T* s, T* a) { auto A = sm<T, N, M>(a); A(i, j) = *s; put(A, a); return 0; } \
FN int smat##N##x##M##_mut_##S(size_t i, size_t j, T* s, T* a) { auto A = sm<T, N, M>(a); A.mut_at(i, j) = *s; std::copy(A.begin(), A.end(), a); return 0; } \
FN int smat##N##x##M##_setd_##S(size_t i, size_t j, T* s, T* a) { auto A = sm<T, N, M>(a); A.data()[i * M + j] = *s; std::copy(A.cbegin(), A.cend(), a); return 0; } \
FN int smat##N##x##M##_from_##S(size_t k, T* a, T* r) { std::vector<T> v(a, a + k); RUN(st, const SizedMat<T, N, M> A(v); put(A, r)) return st; } \
FN int smat##N##x##M##_filled_##S(T* s, T* r) { auto A = SizedMat<T, N, M>::filled(*s); put(A, r); return 0; } \
FN int smat##N##x##M##_uninit_##S() { auto A = SizedMat<T, N, M>::uninit(); return A.shape() == std::pair<size_t, size_t>(N, M) && A.end() - A.begin() == N * M ? 0 : 100; }
#define SQ(T, S, N) \
FN int smat##N##_diagv_##S(T* a, T* r) { std::array<T, N> d; std::copy(a, a + N, d.begin()); auto A = SizedMat<T, N, N>::diag(d); put(A, r); return 0; } \
FN int smat##N##_diag_##S(T* s, T* r) { auto A = SizedMat<T, N, N>::diag(*s); put(A, r); return 0; }
#define SQI(T, S, N) \
FN int smat##N##_identity_##S(T* r) { auto A = SizedMat<T, N, N>::identity(); put(A, r); return 0; }
V(double, d) V(int, i) V(zd, z) SV(double, d, 1) SV(double, d, 3) SV(double, d, 20) SV(int, i, 4) SV(zd, z, 3)
M(double, d) M(int, i) M(zd, z) MI(double, d) MI(zd, z)
SM(double, d, 2, 3) SM(double, d, 4, 2) SM(double, d, 3, 3) SM(int, i, 2, 3) SM(zd, z, 2, 3)
SQ(double, d, 1) SQ(double, d, 3) SQ(zd, z, 2) SQI(double, d, 1) SQI(double, d, 3) SQI(zd, z, 2)
FN int svec_list(double* a, double* r) { RUN(st, auto A = SizedVec<double, 3>({a[0], a[1], a[2]}); put(A, r)) return st; }
FN int svec_list_short(double* a) { RUN(st, auto A = SizedVec<double, 3>({a[0], a[1]}); a[0] = A[0]) return st; }
FN int svec_list_long(double* a) { RUN(st, auto A = SizedVec<double, 2>({a[0], a[1], a[2]}); a[0] = A[0]) return st; }
FN int smat_list(double* a, double* r) { RUN(st, auto A = (SizedMat<double, 2, 3>({a[0], a[1], a[2], a[3], a[4], a[5]})); put(A, r)) return st; }
FN int smat_list_short(double* a) { RUN(st, auto A = (SizedMat<double, 2, 2>({a[0], a[1], a[2]})); a[0] = A(0, 0)) return st; }
FN int smat_list_long(double* a) { RUN(st, auto A = (SizedMat<double, 2, 2>({a[0], a[1], a[2], a[3], a[4]})); a[0] = A(0, 0)) return st; }
