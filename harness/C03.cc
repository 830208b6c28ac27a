#include "h.hpp"
#define DYN(T, S) \
FN int neg_##S(size_t n, size_t k, T* a, T* r) { auto A = dv(a, n), R = dv(r, k); RUN(st, neg(A, R)) put(A, a); put(R, r); return st; } \
FN int add_##S(size_t n, size_t m, size_t k, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, m), R = dv(r, k); RUN(st, add(A, B, R)) put(A, a); put(B, b); put(R, r); return st; } \
FN int sub_##S(size_t n, size_t m, size_t k, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, m), R = dv(r, k); RUN(st, sub(A, B, R)) put(A, a); put(B, b); put(R, r); return st; } \
FN int add_al1_##S(size_t n, size_t m, T* a, T* b) { auto A = dv(a, n), B = dv(b, m); RUN(st, add(A, B, A)) put(A, a); put(B, b); return st; } \
FN int sub_al2_##S(size_t n, size_t m, T* a, T* b) { auto A = dv(a, n), B = dv(b, m); RUN(st, sub(A, B, B)) put(A, a); put(B, b); return st; } \
FN int opadd_##S(size_t n, size_t m, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, m); DynVec<T> R = dv(r, 2); RUN(st, R = A + B) put(A, a); put(B, b); if (st) put(R, r); return st; } \
FN int opsub_##S(size_t n, size_t m, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, m); DynVec<T> R = dv(r, 2); RUN(st, R = A - B) put(A, a); put(B, b); if (st) put(R, r); return st; } \
FN int axpy_##S(size_t n, size_t m, T* s, T* a, T* b) { auto A = dv(a, n), B = dv(b, m); T al = *s; RUN(st, axpy(al, A, B)) put(A, a); put(B, b); return st; } \
FN int dot_##S(size_t n, size_t m, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, m); RUN(st, *r = dot(A, B)) put(A, a); put(B, b); return st; } \
FN int mdot_##S(size_t n, size_t m, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, m); RUN(st, *r = A.dot(B)) put(A, a); put(B, b); return st; }
#define SIZ(T, S, N) \
FN int sdadd##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a), R = sv<T, N>(r); auto B = dv(b, m); RUN(st, add(A, B, R)) put(A, a); put(B, b); put(R, r); return st; } \
FN int dsadd##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a), R = sv<T, N>(r); auto B = dv(b, m); RUN(st, add(B, A, R)) put(A, a); put(B, b); put(R, r); return st; } \
FN int sdsub##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a), R = sv<T, N>(r); auto B = dv(b, m); RUN(st, sub(A, B, R)) put(A, a); put(B, b); put(R, r); return st; } \
FN int dssub##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a), R = sv<T, N>(r); auto B = dv(b, m); RUN(st, sub(B, A, R)) put(A, a); put(B, b); put(R, r); return st; } \
FN int sddot##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a); auto B = dv(b, m); RUN(st, *r = A.dot(B)) put(A, a); put(B, b); return st; } \
FN int dsdot##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a); auto B = dv(b, m); RUN(st, *r = B.dot(A)) put(A, a); put(B, b); return st; }
DYN(double, d) DYN(float, f) DYN(int, i) DYN(zd, z)
SIZ(double, d, 1) SIZ(double, d, 3) SIZ(double, d, 45) SIZ(float, f, 4) SIZ(int, i, 17) SIZ(zd, z, 3)
