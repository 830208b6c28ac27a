#include "h.hpp"
#include "lalib/solver/tri_diag.hpp"
using solver::TriDiag;
template<class U> inline std::vector<U> vv(const U* p, size_t n) { return std::vector<U>(p, p + n); }
#define DL (n > 0 ? n - 1 : 0)
#define TD(U) DynTriDiagMat<U> A(vv(dl, DL), vv(d, n), vv(du, DL)); TriDiag<DynTriDiagMat<U>> S(A);
template<class U, size_t N> inline SizedTriDiagMat<U, N> st(const U* dl, const U* d, const U* du) { std::array<U, N - 1> l, u; std::array<U, N> c; std::copy(dl, dl + N - 1, l.begin()); std::copy(du, du + N - 1, u.begin()); std::copy(d, d + N, c.begin()); return SizedTriDiagMat<U, N>(l, c, u); }
// x: the first right-hand side; y: a second one solved with the same solver; the given matrix and right-hand sides are handed back
#define TS(S_, U) \
FN int vec_##S_(size_t n, U* dl, U* d, U* du, U* b, U* c, U* x, U* y) { TD(U) auto B = dv(b, n), C = dv(c, n); auto X = dv(x, n), Y = dv(y, n); int e = 0; RUN(st, S.solve_linear(B, X); e = &S.solve_linear(C, Y) == &Y ? 0 : 50) put(B, b); put(C, c); put(X, x); put(Y, y); \
  std::copy(A.data_dl(), A.data_dl() + DL, dl); std::copy(A.data_d(), A.data_d() + n, d); std::copy(A.data_du(), A.data_du() + DL, du); return X.size() == n && Y.size() == n && B.size() == n ? st + e : 100; } \
FN int inp_##S_(size_t n, U* dl, U* d, U* du, U* b) { TD(U) auto B = dv(b, n); RUN(st, S.solve_linear(B, B)) put(B, b); return B.size() == n ? st : 100; } \
FN int mat_##S_(size_t n, size_t m, U* dl, U* d, U* du, U* b, U* c, U* x, U* y) { TD(U) auto B = dm(b, n, m); auto C = dv(c, n); auto Y = dv(y, n); auto X = dm(x, n, m); int e = 0; RUN(st, e = &S.solve_linear(B, X) == &X ? 0 : 50; S.solve_linear(C, Y)) put(B, b); put(X, x); put(C, c); put(Y, y); \
  std::copy(A.data_dl(), A.data_dl() + DL, dl); std::copy(A.data_d(), A.data_d() + n, d); std::copy(A.data_du(), A.data_du() + DL, du); return X.shape() == std::pair<size_t, size_t>(n, m) ? st + e : 100; } \
FN int minp_##S_(size_t n, size_t m, U* dl, U* d, U* du, U* b) { TD(U) auto B = dm(b, n, m); RUN(st, S.solve_linear(B, B)) put(B, b); return B.shape() == std::pair<size_t, size_t>(n, m) ? st : 100; }
TS(d, double) TS(f, float)
#define TZ(S_, U, N) \
FN int svec_##S_##N(U* dl, U* d, U* du, U* b, U* c, U* x, U* y) { TriDiag<SizedTriDiagMat<U, N>> S(st<U, N>(dl, d, du)); auto B = sv<U, N>(b), C = sv<U, N>(c), X = sv<U, N>(x); auto Y = dv(y, N), D = dv(c, N); RUN(st, S.solve_linear(B, X); S.solve_linear(D, Y)) put(B, b); put(D, c); put(X, x); put(Y, y); return st; } \
FN int sinp_##S_##N(U* dl, U* d, U* du, U* b) { auto A = st<U, N>(dl, d, du); TriDiag<SizedTriDiagMat<U, N>> S(A); auto B = sv<U, N>(b); RUN(st, S.solve_linear(B, B)) put(B, b); return st; }
TZ(d, double, 1) TZ(d, double, 2) TZ(d, double, 3) TZ(f, float, 4)
#define TM(S_, U, N, M) \
FN int smat_##S_##N##_##M(U* dl, U* d, U* du, U* b, U* x) { TriDiag<SizedTriDiagMat<U, N>> S(st<U, N>(dl, d, du)); auto B = sm<U, N, M>(b), X = sm<U, N, M>(x); RUN(st, S.solve_linear(B, X)) put(B, b); put(X, x); return st; } \
FN int sminp_##S_##N##_##M(U* dl, U* d, U* du, U* b) { TriDiag<SizedTriDiagMat<U, N>> S(st<U, N>(dl, d, du)); auto B = sm<U, N, M>(b); RUN(st, S.solve_linear(B, B)) put(B, b); return st; }
TM(d, double, 1, 2) TM(d, double, 2, 3) TM(d, double, 4, 2) TM(f, float, 3, 3)
