#include "h.hpp"
template<class U> inline std::vector<U> vv(const U* p, size_t n) { return std::vector<U>(p, p + n); }
template<class U> inline SpMat<U> csr(size_t n, size_t e, const size_t* ptr, const size_t* col, const U* a) { return SpMat<U>(vv(a, e), vv(ptr, n + 1), vv(col, e)); }
#define MV(S, U) \
FN int mul_##S(size_t n, size_t e, size_t m, U* s, U* t, size_t* ptr, size_t* col, U* a, U* x, U* y) { const auto A = csr(n, e, ptr, col, a); const auto X = dv(x, m); auto Y = dv(y, n); auto& R = mul(*s, A, X, *t, Y); put(Y, y); \
  std::copy(A.values().begin(), A.values().end(), a); std::copy(A.col_indices().begin(), A.col_indices().end(), col); std::copy(A.row_ptr().begin(), A.row_ptr().end(), ptr); put(X, x); return &R == &Y ? 0 : 100; } \
FN int times_##S(size_t n, size_t e, size_t m, size_t* ptr, size_t* col, U* a, U* x, U* y) { const auto A = csr(n, e, ptr, col, a); const auto X = dv(x, m); const auto Y = A * X; if (Y.size() != n) return 100; put(Y, y); put(X, x); \
  std::copy(A.values().begin(), A.values().end(), a); std::copy(A.col_indices().begin(), A.col_indices().end(), col); std::copy(A.row_ptr().begin(), A.row_ptr().end(), ptr); return 0; }
MV(d, double) MV(f, float) MV(z, zd) MV(c, std::complex<float>)
