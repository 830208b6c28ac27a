#include "h.hpp"
typedef double T;
template<class U> inline std::vector<U> vv(const U* p, size_t n) { return std::vector<U>(p, p + n); }
template<class U, size_t N> inline std::array<U, N> aa(const U* p) { std::array<U, N> a; std::copy(p, p + N, a.begin()); return a; }
// tri-diagonal
#define TRI(S, MK, PUT) \
FN int tri##S##get(SZ size_t i, size_t j, T* l, T* d, T* u, T* r) { const auto A = MK; if (A.shape() != std::make_pair(DIM, DIM)) return 100; RUN(st, r[0] = A(i, j); r[1] = A.at(i, j)) return st; } \
FN int tri##S##mget(SZ size_t i, size_t j, T* l, T* d, T* u, T* r) { auto A = MK; RUN(st, r[0] = A.mut_at(i, j); r[1] = A(i, j)) PUT return st; } \
FN int tri##S##set(SZ size_t i, size_t j, T* s, T* l, T* d, T* u) { auto A = MK; RUN(st, A(i, j) = *s) PUT return st; } \
FN int tri##S##mut(SZ size_t i, size_t j, T* s, T* l, T* d, T* u) { auto A = MK; RUN(st, A.mut_at(i, j) = *s) PUT return st; } \
FN int tri##S##two(SZ size_t i, size_t j, size_t p, size_t q, T* s, T* l, T* d, T* u, T* r) { auto A = MK; const auto& B = A; RUN(st, r[0] = B(p, q); A(i, j) = *s; r[1] = B(p, q)) return st; }
#define SZ size_t n,
#define DIM n
#define PUTD std::copy(A.data_dl(), A.data_dl() + (n - 1), l); std::copy(A.data_d(), A.data_d() + n, d); std::copy(A.data_du(), A.data_du() + (n - 1), u);
TRI(d_, DynTriDiagMat<T>(vv(l, n - 1), vv(d, n), vv(u, n - 1)), PUTD)
FN int trid_lv(size_t n, size_t i, size_t j, T* l, T* d, T* u, T* r) { const std::vector<T> L = vv(l, n - 1), D = vv(d, n), U = vv(u, n - 1); const auto A = DynTriDiagMat<T>(L, D, U); RUN(st, r[0] = A(i, j); r[1] = A.at(i, j)) return st; }
#undef SZ
#undef DIM
#define SZ
#define DIM size_t(NN)
#define PUTS std::copy(A.data_dl(), A.data_dl() + (NN - 1), l); std::copy(A.data_d(), A.data_d() + NN, d); std::copy(A.data_du(), A.data_du() + (NN - 1), u);
#define NN 4
#define MK4 SizedTriDiagMat<T, 4>(aa<T, 3>(l), aa<T, 4>(d), aa<T, 3>(u))
TRI(s4_, MK4, PUTS)
#undef NN
#define NN 2
#define MK2 SizedTriDiagMat<T, 2>(aa<T, 1>(l), aa<T, 2>(d), aa<T, 1>(u))
TRI(s2_, MK2, PUTS)
#undef NN
// Hessenberg (K packed elements) and upper triangular
#define PK(S, TY, CNT, ONE) \
FN int S##get(size_t n, size_t i, size_t j, T* a, T* r) { const TY A(vv(a, CNT)); if (A.shape() != std::make_pair(n, n)) return 100; RUN(st, r[0] = A(i, j); r[1] = A.at(i, j)) return st; } \
FN int S##mget(size_t n, size_t i, size_t j, T* a, T* r) { TY A(vv(a, CNT)); RUN(st, r[0] = A(i, j); r[1] = A.mut_at(i, j)) std::copy(A.data(), A.data() + CNT, a); return st; } \
FN int S##set(size_t n, size_t i, size_t j, T* s, T* a) { TY A(vv(a, CNT)); RUN(st, A(i, j) = *s) std::copy(A.data(), A.data() + CNT, a); return st; } \
FN int S##mut(size_t n, size_t i, size_t j, T* s, T* a) { TY A(vv(a, CNT)); RUN(st, A.mut_at(i, j) = *s) std::copy(A.data(), A.data() + CNT, a); return st; } \
FN int S##two(size_t n, size_t i, size_t j, size_t p, size_t q, T* s, T* a, T* r) { TY A(vv(a, CNT)); const auto& B = A; RUN(st, r[0] = B(p, q); A(i, j) = *s; r[1] = B(p, q)) return st; } \
FN int S##make(size_t n, size_t c, T* a) { int k = 0; RUN(st, TY A(vv(a, c)); if (A.shape() != std::make_pair(n, n)) k = 100) return st + k; } \
FN int S##empty(size_t c, T* r) { auto A = TY::with_capacity(c); if (A.shape() != std::make_pair(size_t(0), size_t(0))) return 100; A.extend_with_zero(); if (A.shape() != std::make_pair(size_t(1), size_t(1))) return 101; r[0] = A(0, 0); return 0; } \
FN int S##empty1(size_t c, T* s, T* r) { auto A = TY::with_capacity(c); std::vector<T> v(s, s + c); RUN(st, A.extend_with(std::move(v)); r[0] = A(0, 0)) size_t k = st ? 0 : 1; if (A.shape() != std::make_pair(k, k)) return 100; return st; } \
FN int S##ext0(size_t n, size_t i, size_t j, T* a, T* r) { TY A(vv(a, CNT)); A.extend_with_zero(); if (A.shape() != std::make_pair(n + 1, n + 1)) return 100; const auto& B = A; r[0] = B(i, j); return 0; } \
FN int S##ext(size_t n, size_t i, size_t j, T* a, T* b, T* r) { TY A(vv(a, CNT)); RUN(st, A.extend_with(vv(b, n + ONE))) if (st) return st; if (A.shape() != std::make_pair(n + 1, n + 1)) return 100; const auto& B = A; r[0] = B(i, j); return 0; } \
FN int S##ext_all(size_t n, T* a, T* b, T* r) { TY A(vv(a, CNT)); RUN(st, A.extend_with(vv(b, n + ONE))) if (st) return st; std::copy(A.data(), A.data() + (CNT + n + ONE), r); return 0; } \
FN int S##ext0_all(size_t n, T* a, T* r) { TY A(vv(a, CNT)); A.extend_with_zero(); std::copy(A.data(), A.data() + (CNT + n + ONE), r); return 0; } \
FN int S##ext_bad(size_t n, size_t c, T* a, T* b) { TY A(vv(a, CNT)); int k = 0; RUN(st, A.extend_with(vv(b, c))) if (A.shape() != std::make_pair(n, n)) k = 100; std::copy(A.data(), A.data() + CNT, a); return st + k; }
#define HC (n * (n + 1) / 2 + n - 1)
#define UC (n * (n + 1) / 2)
PK(hess_, HessenbergMat<T>, HC, 2) PK(upp_, DynUpperTriMat<T>, UC, 1)
FN int hess_col(size_t n, size_t i, size_t j, T* a, T* r) { const HessenbergMat<T> A(vv(a, HC)); auto c = A.get_col(j); r[0] = c[i]; return c.size() == std::min(n, j + 2) ? 0 : 100; }
FN int upp_default(T* r) { DynUpperTriMat<T> A; if (A.shape() != std::make_pair(size_t(0), size_t(0))) return 100; A.extend_with_zero(); if (A.shape() != std::make_pair(size_t(1), size_t(1))) return 101; r[0] = A(0, 0); return 0; }
// lower triangular, Hermitian
#define LO(S, MK, CNT) \
FN int S##get(SZ size_t i, size_t j, T* a, T* r) { const auto A = MK; if (A.shape() != std::make_pair(DIM, DIM)) return 100; r[0] = A(i, j); r[1] = A.at(i, j); r[2] = A.lower_data()[i >= j ? i * (i + 1) / 2 + j : j * (j + 1) / 2 + i]; return 0; } \
FN int S##mget(SZ size_t i, size_t j, T* a, T* r) { auto A = MK; r[0] = A(i, j); r[1] = A.mut_at(i, j); r[2] = A.lower_data()[i >= j ? i * (i + 1) / 2 + j : j * (j + 1) / 2 + i]; return 0; } \
FN int S##set(SZ size_t i, size_t j, T* s, T* a) { auto A = MK; A(i, j) = *s; std::copy(A.lower_data(), A.lower_data() + CNT, a); return 0; } \
FN int S##mut(SZ size_t i, size_t j, T* s, T* a) { auto A = MK; A.mut_at(i, j) = *s; std::copy(A.lower_data(), A.lower_data() + CNT, a); return 0; } \
FN int S##two(SZ size_t i, size_t j, size_t p, size_t q, T* s, T* a, T* r) { auto A = MK; const auto& B = A; r[0] = B(p, q); A(i, j) = *s; r[1] = B(p, q); return 0; }
#define SZ size_t n,
#define DIM n
LO(low_, DynLowerTriMat<T>(n, vv(a, UC)), UC) LO(her_, DynHermiteMat<T>(n, vv(a, UC)), UC)
FN int her_into(size_t n, size_t i, size_t j, T* a, T* r) { DynHermiteMat<T> H(n, vv(a, UC)); auto A = H.into_lower_mat(); if (A.shape() != std::make_pair(n, n)) return 100; r[0] = A(i, j); return 0; }
#undef SZ
#undef DIM
#define SZ
#define DIM size_t(3)
#define LM3 SizedLowerTriMat<T, 3>(aa<T, 6>(a))
#define HM3 SizedHermiteMat<T, 3>(aa<T, 6>(a))
LO(slow3_, LM3, 6) LO(sher3_, HM3, 6)
FN int sher3_into(size_t i, size_t j, T* a, T* r) { SizedHermiteMat<T, 3> H(aa<T, 6>(a)); auto A = H.into_lower_mat(); r[0] = A(i, j); return 0; }
