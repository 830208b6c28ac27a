#include "h.hpp"
#define DYN(T, S) \
FN int dd_##S(size_t n, size_t m, T* al, T* be, T* a, T* x, T* y) { const auto A = dm(a, n, m); const auto X = dv(x, m); auto Y = dv(y, n); T p = *al, q = *be; DynVec<T>* r = nullptr; RUN(st, r = &mul(p, A, X, q, Y)) put(A, a); put(X, x); put(Y, y); if (Y.size() != n) return 100; return st + 10 * (r != &Y); } \
FN int dd_al_##S(size_t n, T* al, T* be, T* a, T* y) { const auto A = dm(a, n, n); auto Y = dv(y, n); T p = *al, q = *be; DynVec<T>* r = nullptr; RUN(st, r = &mul(p, A, Y, q, Y)) put(A, a); put(Y, y); if (Y.size() != n) return 100; return st + 10 * (r != &Y); } \
FN int opdd_##S(size_t n, size_t m, T* a, T* x, T* y) { const auto A = dm(a, n, m); const auto X = dv(x, m); DynVec<T> Y; RUN(st, Y = A * X) put(A, a); put(X, x); if (Y.size() != n) return 100; put(Y, y); return st; }
#define SIZ(T, S, N, M, U) \
FN int ss##U##_##S(T* al, T* be, T* a, T* x, T* y) { const auto A = sm<T, N, M>(a); const auto X = sv<T, M>(x); auto Y = sv<T, N>(y); T p = *al, q = *be; SizedVec<T, N>* r = nullptr; RUN(st, r = &mul(p, A, X, q, Y)) put(A, a); put(X, x); put(Y, y); return st + 10 * (r != &Y); } \
FN int sd##U##_##S(T* al, T* be, T* a, T* x, T* y) { const auto A = sm<T, N, M>(a); const auto X = dv<T>(x, M); auto Y = sv<T, N>(y); T p = *al, q = *be; SizedVec<T, N>* r = nullptr; RUN(st, r = &mul(p, A, X, q, Y)) put(A, a); put(X, x); put(Y, y); return st + 10 * (r != &Y); } \
FN int ds##U##_##S(size_t n, T* al, T* be, T* a, T* x, T* y) { const auto A = dm(a, n, M); const auto X = sv<T, M>(x); auto Y = dv(y, n); T p = *al, q = *be; DynVec<T>* r = nullptr; RUN(st, r = &mul(p, A, X, q, Y)) put(A, a); put(X, x); put(Y, y); if (Y.size() != n) return 100; return st + 10 * (r != &Y); } \
FN int opss##U##_##S(T* a, T* x, T* y) { const auto A = sm<T, N, M>(a); const auto X = sv<T, M>(x); auto Y = sv<T, N>(y); RUN(st, Y = A * X) put(A, a); put(X, x); put(Y, y); return st; } \
FN int opsd##U##_##S(T* a, T* x, T* y) { const auto A = sm<T, N, M>(a); const auto X = dv<T>(x, M); auto Y = sv<T, N>(y); RUN(st, Y = A * X) put(A, a); put(X, x); put(Y, y); return st; } \
FN int opds##U##_##S(size_t n, T* a, T* x, T* y) { const auto A = dm(a, n, M); const auto X = sv<T, M>(x); DynVec<T> Y; RUN(st, Y = A * X) put(A, a); put(X, x); if (Y.size() != n) return 100; put(Y, y); return st; }
#define SQ(T, S, N) \
FN int ss_al##N##_##S(T* al, T* be, T* a, T* y) { const auto A = sm<T, N, N>(a); auto Y = sv<T, N>(y); T p = *al, q = *be; SizedVec<T, N>* r = nullptr; RUN(st, r = &mul(p, A, Y, q, Y)) put(A, a); put(Y, y); return st + 10 * (r != &Y); }
DYN(double, d) DYN(float, f) DYN(int, i) DYN(zd, z)
SIZ(double, d, 2, 3, 23) SIZ(double, d, 3, 2, 32) SIZ(double, d, 1, 5, 15) SIZ(double, d, 17, 2, 172) SIZ(float, f, 3, 4, 34) SIZ(int, i, 2, 2, 22) SIZ(zd, z, 2, 3, 23)
SQ(double, d, 3) SQ(float, f, 2) SQ(int, i, 4) SQ(zd, z, 2)
