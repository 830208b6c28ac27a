#include "C10.cc"
#include "lalib/solver/ilu.hpp"
using solver::Ilu;
// for the verifier: from here on A is known by its dense view a (n x n), through the contracts of its accessors
#ifdef DV_IR
extern "C" void dv_view(const void* A, const void* a, size_t n) noexcept;
#else
inline void dv_view(const void*, const void*, size_t) noexcept {}
#endif
#define DI_(U) auto A = dm(a, n, n); Ilu<U, DynMat<U>> F(std::move(A)); const auto& G = F; put(G.mat(), l)
#define SI_(U) SpMat<U> A(vv(v, e), vv(ptr, n + 1), vv(col, e)); dv_view(&A, a, n); Ilu<U, SpMat<U>> F(std::move(A)); const auto& G = F; \
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) l[i * n + j] = G.mat()(i, j)
// a: the matrix; l: the factors; b: right-hand side; x: the solution; v, ptr, col: the entries of a sparse matrix by rows
#define IL(S, U) \
FN int dfac_##S(size_t n, U* a, U* l) { RUN(st, DI_(U)) return st; } \
FN int dvec_##S(size_t n, U* a, U* l, U* b, U* x) { RUN(st, DI_(U); const auto B = dv(b, n); auto X = G.solve(B); put(X, x); put(B, b); if (X.size() != n) return 50) return st; } \
FN int sfac_##S(size_t n, size_t e, size_t* ptr, size_t* col, U* v, U* a, U* l) { RUN(st, SI_(U)) return st; } \
FN int svec_##S(size_t n, size_t e, size_t* ptr, size_t* col, U* v, U* a, U* l, U* b, U* x) { RUN(st, SI_(U); const auto B = dv(b, n); auto X = G.solve(B); put(X, x); put(B, b); if (X.size() != n) return 50) return st; }
IL(d, double) IL(f, float)
