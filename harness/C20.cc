#include "h.hpp"
typedef double T;
template<class U> inline std::vector<U> vv(const U* p, size_t n) { return std::vector<U>(p, p + n); }
template<class U, size_t N> inline std::array<U, N> aa(const U* p) { std::array<U, N> a; std::copy(p, p + N, a.begin()); return a; }
// ARGS, MK: an object from the arrays; ARGS2, MK2: an object of another size; RD(X) reads position p, WR(X) writes position w; SHP compares with the shape of the source
// r: copy and source after copying, source and copy after a write to the copy, source and copy after a write to the source
#define ALL(X, Y, K) r[K] = RD(X); r[K + 1] = RD(Y);
#define KIND(S, ARGS, ARGS2, POS, MK, MK2, U) \
FN int S##_copy(ARGS POS, U* s, U* t, U* a, U* r) { auto A = MK; auto B(A); int k = SHP(B, A) ? 0 : 100; ALL(std::as_const(B), std::as_const(A), 0) WR(B) = *s; ALL(std::as_const(A), std::as_const(B), 2) WR(A) = *t; ALL(std::as_const(A), std::as_const(B), 4) if (!SHP(A, B)) k = 100; return k; } \
FN int S##_assign(ARGS ARGS2 POS, U* s, U* t, U* a, U* b, U* r) { auto A = MK; auto B = MK2; B = std::as_const(A); int k = SHP(B, A) ? 0 : 100; ALL(std::as_const(B), std::as_const(A), 0) WR(B) = *s; ALL(std::as_const(A), std::as_const(B), 2) WR(A) = *t; ALL(std::as_const(A), std::as_const(B), 4) if (!SHP(A, B)) k = 100; return k; } \
FN int S##_self(ARGS POS, U* a, U* r) { auto A = MK; A = *&A; r[0] = RD(std::as_const(A)); return EXP(A) ? 0 : 100; } \
FN int S##_move(ARGS POS, U* a, U* r) { auto A = MK; auto B(std::move(A)); r[0] = RD(std::as_const(B)); return EXP(B) ? 0 : 100; } \
FN int S##_massign(ARGS ARGS2 POS, U* a, U* b, U* r) { auto A = MK; auto B = MK2; B = std::move(A); r[0] = RD(std::as_const(B)); return EXP(B) ? 0 : 100; }
#define N1 size_t n,
#define N2 size_t c,
#define NM1 size_t n, size_t m,
#define NM2 size_t c, size_t e,
#define PV size_t p, size_t w
#define PM size_t p, size_t q, size_t w, size_t x
#define UC(k) (k * (k + 1) / 2)
#define HC(k) (k * (k + 1) / 2 + k - 1)
#define NONE
#define SHP(X, Y) ((X).size() == (Y).size())
#define EXP(X) ((X).size() == n)
#define RD(X) (X)[p]
#define WR(X) (X)[w]
KIND(dv_d, N1, N2, PV, dv(a, n), dv(b, c), double)
KIND(dv_z, N1, N2, PV, dv(a, n), dv(b, c), zd)
#undef EXP
#define EXP(X) ((X).size() == 5)
#define MK5 sv<U5, 5>(a)
#define MB5 sv<U5, 5>(b)
#define U5 double
KIND(sv5_d, NONE, NONE, PV, MK5, MB5, double)
#undef U5
#define U5 zd
KIND(sv5_z, NONE, NONE, PV, MK5, MB5, zd)
#undef U5
#undef SHP
#undef EXP
#undef RD
#undef WR
#define SHP(X, Y) ((X).shape() == (Y).shape())
#define RD(X) (X)(p, q)
#define WR(X) (X)(w, x)
#define EXP(X) ((X).shape() == std::make_pair(n, m))
KIND(dm_d, NM1, NM2, PM, dm(a, n, m), dm(b, c, e), double)
KIND(dm_z, NM1, NM2, PM, dm(a, n, m), dm(b, c, e), zd)
#undef EXP
#define EXP(X) ((X).shape() == std::make_pair(size_t(2), size_t(3)))
#define MKS23 sm<double, 2, 3>(a)
#define MBS23 sm<double, 2, 3>(b)
KIND(sm23_d, NONE, NONE, PM, MKS23, MBS23, double)
#undef EXP
#define EXP(X) ((X).shape() == std::make_pair(size_t(3), size_t(3)))
#define MKL3 SizedLowerTriMat<T, 3>(aa<T, 6>(a))
#define MBL3 SizedLowerTriMat<T, 3>(aa<T, 6>(b))
KIND(slow3_d, NONE, NONE, PM, MKL3, MBL3, double)
#define MKH3 SizedHermiteMat<T, 3>(aa<T, 6>(a))
#define MBH3 SizedHermiteMat<T, 3>(aa<T, 6>(b))
KIND(sher3_d, NONE, NONE, PM, MKH3, MBH3, double)
#define MKT3 SizedTriDiagMat<T, 3>(aa<T, 2>(a), aa<T, 3>(a + 2), aa<T, 2>(a + 5))
#define MBT3 SizedTriDiagMat<T, 3>(aa<T, 2>(b), aa<T, 3>(b + 2), aa<T, 2>(b + 5))
KIND(stri3_d, NONE, NONE, PM, MKT3, MBT3, double)
#undef EXP
#define EXP(X) ((X).shape() == std::make_pair(n, n))
#define MKT DynTriDiagMat<T>(vv(a, n - 1), vv(a + (n - 1), n), vv(a + (2 * n - 1), n - 1))
#define MBT DynTriDiagMat<T>(vv(b, c - 1), vv(b + (c - 1), c), vv(b + (2 * c - 1), c - 1))
KIND(tri_d, N1, N2, PM, MKT, MBT, double)
KIND(hess_d, N1, N2, PM, HessenbergMat<T>(vv(a, HC(n))), HessenbergMat<T>(vv(b, HC(c))), double)
KIND(upp_d, N1, N2, PM, DynUpperTriMat<T>(vv(a, UC(n))), DynUpperTriMat<T>(vv(b, UC(c))), double)
KIND(low_d, N1, N2, PM, DynLowerTriMat<T>(n, vv(a, UC(n))), DynLowerTriMat<T>(c, vv(b, UC(c))), double)
KIND(her_d, N1, N2, PM, DynHermiteMat<T>(n, vv(a, UC(n))), DynHermiteMat<T>(c, vv(b, UC(c))), double)

// sparse matrices: content by entry
#include "lalib/mat/sp_mat.hpp"
template<class U> inline void cpv(const std::vector<U>& v, U* p) { std::copy(v.begin(), v.end(), p); }
#define CSRM(A, U) SpMat<U> A(vv(a, e), vv(ptr, n + 1), vv(col, e))
#define CSRB(U) SpMat<U> B(vv(a3, e3), vv(ptr3, n3 + 1), vv(col3, e3))
#define CSRARGS(U) size_t n, size_t e, size_t i, size_t k, size_t* ptr, size_t* col, U* a, U* s, U* t, size_t* ptr2, size_t* col2, U* a2, U* r
#define CSROTHER(U) size_t n3, size_t e3, size_t* ptr3, size_t* col3, U* a3
// B is to equal A; then a write to B must leave A, and one to A must leave B
#define CSRTEST if (B.nnz() != e || B.values().size() != e || B.row_ptr().size() != n + 1 || B.col_indices().size() != e || A.nnz() != e || A.row_ptr().size() != n + 1) return 50; \
  cpv(B.values(), a2); cpv(B.row_ptr(), ptr2); cpv(B.col_indices(), col2); B.mut_at(i, col[k]) = *s; cpv(A.values(), a); cpv(A.row_ptr(), ptr); cpv(A.col_indices(), col); A.mut_at(i, col[k]) = *t; r[0] = B.values()[k]; r[1] = A.values()[k]; return 0;
#define CSRMOVED if (B.nnz() != e || B.values().size() != e || B.row_ptr().size() != n + 1 || B.col_indices().size() != e) return 50; cpv(B.values(), a2); cpv(B.row_ptr(), ptr2); cpv(B.col_indices(), col2); B.mut_at(i, col[k]) = *s; r[0] = B.values()[k]; r[1] = *t; return 0;
#define CSRK(S, U) \
FN int csr_##S##_copy(CSRARGS(U)) { CSRM(A, U); SpMat<U> B(A); CSRTEST } \
FN int csr_##S##_assign(CSRARGS(U), CSROTHER(U)) { CSRM(A, U); CSRB(U); B = A; CSRTEST } \
FN int csr_##S##_self(CSRARGS(U)) { CSRM(B, U); auto& C = B; B = C; CSRMOVED } \
FN int csr_##S##_move(CSRARGS(U)) { CSRM(A, U); SpMat<U> B(std::move(A)); CSRMOVED } \
FN int csr_##S##_massign(CSRARGS(U), CSROTHER(U)) { CSRM(A, U); CSRB(U); B = std::move(A); CSRMOVED }
CSRK(d, double)
CSRK(z, zd)
#define COOM(A, U) SpCooMat<U> A(vv(a, e), vv(row, e), vv(col, e))
#define COOB(U) SpCooMat<U> B(vv(a3, e3), vv(row3, e3), vv(col3, e3))
#define COOARGS(U) size_t e, size_t k, size_t h, size_t* row, size_t* col, U* a, U* s, U* t, U* r
#define COOOTHER(U) size_t e3, size_t* row3, size_t* col3, U* a3
#define COOTEST if (B.nnz() != e || A.nnz() != e) return 50; r[0] = B(row[k], col[k]); B.mut_at(row[h], col[h]) = *s; r[1] = A(row[k], col[k]); A.mut_at(row[h], col[h]) = *t; r[2] = B(row[k], col[k]); return 0;
#define COOMOVED if (B.nnz() != e) return 50; r[0] = B(row[k], col[k]); B.mut_at(row[h], col[h]) = *s; r[1] = *t; r[2] = B(row[k], col[k]); return 0;
#define COOK(S, U) \
FN int coo_##S##_copy(COOARGS(U)) { COOM(A, U); SpCooMat<U> B(A); COOTEST } \
FN int coo_##S##_assign(COOARGS(U), COOOTHER(U)) { COOM(A, U); COOB(U); B = A; COOTEST } \
FN int coo_##S##_self(COOARGS(U)) { COOM(B, U); auto& C = B; B = C; COOMOVED } \
FN int coo_##S##_move(COOARGS(U)) { COOM(A, U); SpCooMat<U> B(std::move(A)); COOMOVED } \
FN int coo_##S##_massign(COOARGS(U), COOOTHER(U)) { COOM(A, U); COOB(U); B = std::move(A); COOMOVED }
COOK(d, double)
COOK(z, zd)
