#include "h.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
using solver::DynModCholeskyFactorization;
typedef std::pair<size_t, size_t> P2;
#define MC_(U) DynModCholeskyFactorization<U> F(dm(a, n, n)); const auto& G = F; put(F.factor_mat(), l)
// a: the matrix; l: the factor; b: right-hand side(s); x: the solution
#define MCH(S, U) \
FN int fac_##S(size_t n, U* a, U* l) { RUN(st, MC_(U)) return st; } \
FN int vec_##S(size_t n, U* a, U* l, U* b, U* x) { RUN(st, MC_(U); auto B = dv(b, n); auto X = G.solve_linear(B); put(X, x); put(B, b); if (X.size() != n) return 50) return st; } \
FN int inp_##S(size_t n, U* a, U* l, U* b) { RUN(st, MC_(U); auto B = dv(b, n); bool e = &G.solve_linear_mut(B) == &B; put(B, b); if (!e) return 50) return st; } \
FN int mat_##S(size_t n, size_t m, U* a, U* l, U* b, U* x) { RUN(st, MC_(U); auto B = dm(b, n, m); auto X = G.solve_linear(B); put(X, x); put(B, b); if (X.shape() != P2(n, m)) return 50) return st; } \
FN int minp_##S(size_t n, size_t m, U* a, U* l, U* b) { RUN(st, MC_(U); auto B = dm(b, n, m); bool e = &G.solve_linear_mut(B) == &B; put(B, b); if (!e) return 50) return st; }
MCH(d, double) MCH(f, float)
