#include "h.hpp"
#define ARGS auto p = *al, q = *be;
#define DYN(T, S) \
FN int ddd_##S(size_t n, size_t m, size_t l, T* al, T* be, T* a, T* b, T* c) { const auto A = dm(a, n, l); const auto B = dm(b, l, m); auto C = dm(c, n, m); ARGS DynMat<T>* r = nullptr; RUN(st, r = &mul(p, A, B, q, C)) put(A, a); put(B, b); put(C, c); if (C.shape() != std::make_pair(n, m)) return 100; return st + 10 * (r != &C); } \
FN int ddd_ca_##S(size_t n, size_t l, T* al, T* be, T* b, T* c) { const auto B = dm(b, l, l); auto C = dm(c, n, l); ARGS DynMat<T>* r = nullptr; RUN(st, r = &mul(p, C, B, q, C)) put(B, b); put(C, c); if (C.shape() != std::make_pair(n, l)) return 100; return st + 10 * (r != &C); } \
FN int ddd_cb_##S(size_t m, size_t l, T* al, T* be, T* a, T* c) { const auto A = dm(a, l, l); auto C = dm(c, l, m); ARGS DynMat<T>* r = nullptr; RUN(st, r = &mul(p, A, C, q, C)) put(A, a); put(C, c); if (C.shape() != std::make_pair(l, m)) return 100; return st + 10 * (r != &C); } \
FN int ddd_cab_##S(size_t n, T* al, T* be, T* c) { auto C = dm(c, n, n); ARGS DynMat<T>* r = nullptr; RUN(st, r = &mul(p, C, C, q, C)) put(C, c); if (C.shape() != std::make_pair(n, n)) return 100; return st + 10 * (r != &C); } \
FN int opdd_##S(size_t n, size_t m, size_t l, T* a, T* b, T* c) { const auto A = dm(a, n, l); const auto B = dm(b, l, m); auto C = DynMat<T>::filled(T(0), 0, 0); RUN(st, C = A * B) put(A, a); put(B, b); if (C.shape() != std::make_pair(n, m)) return 100; put(C, c); return st; }
#define RS(X, Y) RUN(st, r = &mul(p, X, Y, q, C)) put(A, a); put(B, b); put(C, c);
#define SIZ(T, S, N, M, L, U) \
FN int sss##U##_##S(T* al, T* be, T* a, T* b, T* c) { const auto A = sm<T, N, L>(a); const auto B = sm<T, L, M>(b); auto C = sm<T, N, M>(c); ARGS SizedMat<T, N, M>* r = nullptr; RS(A, B) return st + 10 * (r != &C); } \
FN int dss##U##_##S(T* al, T* be, T* a, T* b, T* c) { const auto A = dm(a, N, L); const auto B = sm<T, L, M>(b); auto C = sm<T, N, M>(c); ARGS SizedMat<T, N, M>* r = nullptr; RS(A, B) return st + 10 * (r != &C); } \
FN int sds##U##_##S(T* al, T* be, T* a, T* b, T* c) { const auto A = sm<T, N, L>(a); const auto B = dm(b, L, M); auto C = sm<T, N, M>(c); ARGS SizedMat<T, N, M>* r = nullptr; RS(A, B) return st + 10 * (r != &C); } \
FN int dds##U##_##S(size_t l, T* al, T* be, T* a, T* b, T* c) { const auto A = dm(a, N, l); const auto B = dm(b, l, M); auto C = sm<T, N, M>(c); ARGS SizedMat<T, N, M>* r = nullptr; RS(A, B) return st + 10 * (r != &C); } \
FN int ssd##U##_##S(T* al, T* be, T* a, T* b, T* c) { const auto A = sm<T, N, L>(a); const auto B = sm<T, L, M>(b); auto C = dm(c, N, M); ARGS DynMat<T>* r = nullptr; RS(A, B) if (C.shape() != std::make_pair(size_t(N), size_t(M))) return 100; return st + 10 * (r != &C); } \
FN int dsd##U##_##S(size_t n, T* al, T* be, T* a, T* b, T* c) { const auto A = dm(a, n, L); const auto B = sm<T, L, M>(b); auto C = dm(c, n, M); ARGS DynMat<T>* r = nullptr; RS(A, B) if (C.shape() != std::make_pair(n, size_t(M))) return 100; return st + 10 * (r != &C); } \
FN int sdd##U##_##S(size_t m, T* al, T* be, T* a, T* b, T* c) { const auto A = sm<T, N, L>(a); const auto B = dm(b, L, m); auto C = dm(c, N, m); ARGS DynMat<T>* r = nullptr; RS(A, B) if (C.shape() != std::make_pair(size_t(N), m)) return 100; return st + 10 * (r != &C); } \
FN int opss##U##_##S(T* a, T* b, T* c) { const auto A = sm<T, N, L>(a); const auto B = sm<T, L, M>(b); auto C = sm<T, N, M>(c); RUN(st, C = A * B) put(A, a); put(B, b); put(C, c); return st; }
#define SQ(T, S, N) \
FN int ss##N##_ca_##S(T* al, T* be, T* b, T* c) { const auto B = sm<T, N, N>(b); auto C = sm<T, N, N>(c); ARGS SizedMat<T, N, N>* r = nullptr; RUN(st, r = &mul(p, C, B, q, C)) put(B, b); put(C, c); return st + 10 * (r != &C); } \
FN int ss##N##_cb_##S(T* al, T* be, T* a, T* c) { const auto A = sm<T, N, N>(a); auto C = sm<T, N, N>(c); ARGS SizedMat<T, N, N>* r = nullptr; RUN(st, r = &mul(p, A, C, q, C)) put(A, a); put(C, c); return st + 10 * (r != &C); } \
FN int ss##N##_cab_##S(T* al, T* be, T* c) { auto C = sm<T, N, N>(c); ARGS SizedMat<T, N, N>* r = nullptr; RUN(st, r = &mul(p, C, C, q, C)) put(C, c); return st + 10 * (r != &C); } \
FN int ds##N##_cb_##S(size_t m, T* al, T* be, T* a, T* c) { const auto A = sm<T, N, N>(a); auto C = dm(c, N, m); ARGS DynMat<T>* r = nullptr; RUN(st, r = &mul(p, A, C, q, C)) put(A, a); put(C, c); return st + 10 * (r != &C); } \
FN int ds##N##_ca_##S(size_t n, T* al, T* be, T* b, T* c) { const auto B = sm<T, N, N>(b); auto C = dm(c, n, N); ARGS DynMat<T>* r = nullptr; RUN(st, r = &mul(p, C, B, q, C)) put(B, b); put(C, c); return st + 10 * (r != &C); } \
FN int sd##N##_ca_##S(T* al, T* be, T* b, T* c) { const auto B = dm(b, N, N); auto C = sm<T, N, N>(c); ARGS SizedMat<T, N, N>* r = nullptr; RUN(st, r = &mul(p, C, B, q, C)) put(B, b); put(C, c); return st + 10 * (r != &C); } \
FN int sd##N##_cb_##S(T* al, T* be, T* a, T* c) { const auto A = dm(a, N, N); auto C = sm<T, N, N>(c); ARGS SizedMat<T, N, N>* r = nullptr; RUN(st, r = &mul(p, A, C, q, C)) put(A, a); put(C, c); return st + 10 * (r != &C); }
DYN(double, d) DYN(float, f) DYN(int, i) DYN(zd, z)
SIZ(double, d, 2, 3, 2, 232) SIZ(double, d, 3, 1, 2, 312) SIZ(float, f, 1, 2, 3, 123) SIZ(int, i, 2, 2, 1, 221) SIZ(zd, z, 2, 1, 2, 212)
SQ(double, d, 2) SQ(float, f, 2) SQ(zd, z, 2) SQ(int, i, 1)
