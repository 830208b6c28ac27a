#include "h.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
template<class U> inline std::vector<U> vv(const U* p, size_t n) { return std::vector<U>(p, p + n); }
// A: e entries a at (row, col); B: f entries b at (rowb, colb); element (i, j) of the result
#define COO(A, a, row, col, e) SpCooMat A(vv(a, e), vv(row, e), vv(col, e))
// every position held at most once, in order of row and column
template<class U> inline bool canonical(const SpCooMat<U>& A) {
    const size_t n = A.nnz();
    if (A.values().size() != n || A.row_indices().size() != n || A.col_indices().size() != n) return false;
    for (size_t k = 1; k < n; ++k) {
        const size_t r = A.row_indices()[k - 1], s = A.row_indices()[k];
        if (!(r < s || (r == s && A.col_indices()[k - 1] < A.col_indices()[k]))) return false;
    }
    return true;
}
template<class U> inline bool kept(const SpCooMat<U>& A, const SpCooMat<U>& B) { return A.values() == B.values() && A.row_indices() == B.row_indices() && A.col_indices() == B.col_indices(); }
#define SUM(S, U) \
FN int add_##S(size_t e, size_t f, size_t r, size_t c, size_t* row, size_t* col, U* a, size_t* rowb, size_t* colb, U* b, U* out) { \
    const COO(A, a, row, col, e); const COO(B, b, rowb, colb, f); const auto A0 = A; const auto B0 = B; const auto C = A + B; \
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) out[i * c + j] = C(i, j); \
    return !canonical(C) ? 50 : kept(A, A0) && kept(B, B0) ? 0 : 51; } \
FN int addto_##S(size_t e, size_t f, size_t r, size_t c, size_t* row, size_t* col, U* a, size_t* rowb, size_t* colb, U* b, U* out) { \
    COO(A, a, row, col, e); const COO(B, b, rowb, colb, f); const auto B0 = B; auto& C = (A += B); \
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) out[i * c + j] = A(i, j); \
    return !canonical(A) ? 50 : &C == &A && kept(B, B0) ? 0 : 51; } \
FN int twice_##S(size_t e, size_t f, size_t r, size_t c, size_t* row, size_t* col, U* a, size_t* rowb, size_t* colb, U* b, U* out) { \
    COO(A, a, row, col, e); const COO(B, b, rowb, colb, f); A += B; A += B; \
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) out[i * c + j] = A(i, j); \
    return canonical(A) ? 0 : 50; }
#define DIFF(S, U) \
FN int sub_##S(size_t e, size_t f, size_t r, size_t c, size_t* row, size_t* col, U* a, size_t* rowb, size_t* colb, U* b, U* out) { \
    const COO(A, a, row, col, e); const COO(B, b, rowb, colb, f); const auto A0 = A; const auto B0 = B; const auto C = A - B; \
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) out[i * c + j] = C(i, j); \
    return !canonical(C) ? 50 : kept(A, A0) && kept(B, B0) ? 0 : 51; }
SUM(d, double)
SUM(f, float)
SUM(z, std::complex<double>)
SUM(c, std::complex<float>)
DIFF(d, double)
DIFF(f, float)
