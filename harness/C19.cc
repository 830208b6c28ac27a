#include "h.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
#include "lalib/solver/gmres.hpp"
template<class U> inline std::vector<U> vv(const U* p, size_t n) { return std::vector<U>(p, p + n); }
// a: the matrix, dense (n x n), or its entries by rows (ptr, col); b, d: right-hand sides; t: the tolerance;
// x, y: the solutions; p: the factors of the preconditioner, as C17 specifies them
template<class U, class M> inline int use(const M& A, U tol, size_t n, const U* b, U* x, const U* d, U* y, U* p) {
    M A0(A), A1(A); const solver::Ilu<U, M> L(std::move(A0)); const solver::Gmres<U, M> G(std::move(A1), tol);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) p[i * n + j] = L.mat()(i, j);
    const auto B = dv(b, n), D = dv(d, n);
    const auto X = G.solve(B); const auto Y = G.solve(D);
    if (X.size() != n || Y.size() != n) return 50;
    put(X, x); put(Y, y);
    for (size_t i = 0; i < n; ++i) if (B[i] != b[i] || D[i] != d[i]) return 51;
    return 0;
}
#define GM(S, U) \
FN int dense_##S(size_t n, U* a, U* t, U* b, U* x, U* d, U* y, U* p) { RUN(st, st = use<U, DynMat<U>>(dm(a, n, n), *t, n, b, x, d, y, p)) return st; } \
FN int sparse_##S(size_t n, size_t e, size_t* ptr, size_t* col, U* v, U* a, U* t, U* b, U* x, U* d, U* y, U* p) { RUN(st, st = use<U, SpMat<U>>(SpMat<U>(vv(v, e), vv(ptr, n + 1), vv(col, e)), *t, n, b, x, d, y, p)) return st; }
GM(d, double)
GM(f, float)
