#include "h.hpp"
#include <ranges>
#include <span>
#include <deque>
template<class U> inline std::vector<U> vv(const U* p, size_t n) { return std::vector<U>(p, p + n); }
#define CNT (n * (n + 1) / 2)
// the right-hand side as a vector, a view of the first elements of a longer one, and a span
#define BS(S, U) \
FN int vec_##S(size_t n, U* a, U* y) { DynUpperTriMat<U> A(vv(a, CNT)); auto Y = vv(y, n); RUN(st, std::as_const(A).back_sub(Y)) std::copy(Y.begin(), Y.end(), y); std::copy(A.data(), A.data() + CNT, a); return Y.size() == n ? st : 100; } \
FN int take_##S(size_t n, size_t m, U* a, U* y) { DynUpperTriMat<U> A(vv(a, CNT)); auto Y = vv(y, m); RUN(st, std::as_const(A).back_sub(Y | std::views::take(n))) std::copy(Y.begin(), Y.end(), y); std::copy(A.data(), A.data() + CNT, a); return Y.size() == m ? st : 100; } \
FN int span_##S(size_t n, U* a, U* y) { DynUpperTriMat<U> A(vv(a, CNT)); RUN(st, std::as_const(A).back_sub(std::span<U>(y, n))) std::copy(A.data(), A.data() + CNT, a); return st; } \
FN int len_##S(size_t n, size_t m, U* a, U* y) { DynUpperTriMat<U> A(vv(a, CNT)); auto Y = vv(y, m); RUN(st, std::as_const(A).back_sub(Y)) std::copy(Y.begin(), Y.end(), y); std::copy(A.data(), A.data() + CNT, a); return Y.size() == m ? st : 100; }
BS(d, double) BS(f, float) BS(z, zd)
