#include "h.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
using solver::DynCholeskyFactorization; using solver::DynTriCholeskyFactorization;
template<class U> inline std::vector<U> vv(const U* p, size_t n) { return std::vector<U>(p, p + n); }
#define CNT (n * (n + 1) / 2)
typedef std::pair<size_t, size_t> P2;
#define SQ_(U) DynCholeskyFactorization<U> F(dm(a, n, n)); const auto& G = F; put(F.factor_mat(), l)
#define TR_(U) DynTriCholeskyFactorization<U> F(DynHermiteMat<U>(n, vv(a, CNT))); const auto& G = F; std::copy(F.lower_mat().lower_data(), F.lower_mat().lower_data() + CNT, l)
// a: the matrix; l: the factor; b: right-hand side(s); x: the solution
#define CH(P, S, U, FACTOR) \
FN int P##fac_##S(size_t n, U* a, U* l) { RUN(st, FACTOR(U)) return st; } \
FN int P##vec_##S(size_t n, U* a, U* l, U* b, U* x) { RUN(st, FACTOR(U); auto B = dv(b, n); auto X = G.solve_linear(B); put(X, x); put(B, b); if (X.size() != n) return 50) return st; } \
FN int P##inp_##S(size_t n, U* a, U* l, U* b) { RUN(st, FACTOR(U); auto B = dv(b, n); bool e = &G.solve_linear_mut(B) == &B; put(B, b); if (!e) return 50) return st; } \
FN int P##mat_##S(size_t n, size_t m, U* a, U* l, U* b, U* x) { RUN(st, FACTOR(U); auto B = dm(b, n, m); auto X = G.solve_linear(B); put(X, x); put(B, b); if (X.shape() != P2(n, m)) return 50) return st; } \
FN int P##minp_##S(size_t n, size_t m, U* a, U* l, U* b) { RUN(st, FACTOR(U); auto B = dm(b, n, m); bool e = &G.solve_linear_mut(B) == &B; put(B, b); if (!e) return 50) return st; }
CH(, d, double, SQ_) CH(, f, float, SQ_) CH(t, d, double, TR_) CH(t, f, float, TR_)
