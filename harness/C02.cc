#include "h.hpp"
// inner products and norms
#define DOT(T, S) \
FN int dot_##S(size_t n, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, n); RUN(st, *r = dot(A, B)) put(A, a); put(B, b); return st; } \
FN int dotself_##S(size_t n, T* a, T* r) { auto A = dv(a, n); RUN(st, *r = dot(A, A)) put(A, a); return st; } \
FN int mdot_##S(size_t n, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, n); RUN(st, *r = A.dot(B)) put(A, a); put(B, b); return st; }
#define NRM(T, S) \
FN int norm2_##S(size_t n, T* a, T* r) { auto A = dv(a, n); RUN(st, *r = A.norm2()) put(A, a); return st; }
#define SDOT(T, S, N) \
FN int sdot##N##_##S(T* a, T* b, T* r) { auto A = sv<T, N>(a), B = sv<T, N>(b); RUN(st, *r = dot(A, B)) put(A, a); put(B, b); return st; } \
FN int smdot##N##_##S(T* a, T* b, T* r) { auto A = sv<T, N>(a), B = sv<T, N>(b); RUN(st, *r = A.dot(B)) put(A, a); put(B, b); return st; } \
FN int sddot##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a); auto B = dv(b, m); RUN(st, *r = A.dot(B)) put(A, a); put(B, b); return st; } \
FN int dsdot##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a); auto B = dv(b, m); RUN(st, *r = B.dot(A)) put(A, a); put(B, b); return st; }
#define SNRM(T, S, N) \
FN int snorm2##N##_##S(T* a, T* r) { auto A = sv<T, N>(a); RUN(st, *r = A.norm2()) put(A, a); return st; }
DOT(double, d) DOT(float, f) DOT(int, i) DOT(zd, z) NRM(double, d) NRM(float, f)
SDOT(double, d, 1) SDOT(double, d, 4) SDOT(double, d, 33) SDOT(float, f, 5) SDOT(int, i, 17) SDOT(zd, z, 3)
SNRM(double, d, 1) SNRM(double, d, 4) SNRM(double, d, 33) SNRM(float, f, 5)
// cross products: the operands' kinds are named s (fixed size) and d (run-time size)
#define MK_s(T, N, p) sv<T, N>(p)
#define MK_d(T, N, p) dv(p, N)
#define CROSS2(T, S, X, Y) \
FN int cross2##X##Y##_##S(T* a, T* b, T* r) { auto A = MK_##X(T, 2, a); auto B = MK_##Y(T, 2, b); RUN(st, *r = cross(A, B)) put(A, a); put(B, b); return st; }
#define CROSSV(T, S, X, Y) \
FN int crossv##X##Y##_##S(T* a, T* b, T* r) { auto A = MK_##X(T, 3, a); auto B = MK_##Y(T, 3, b); auto R = MK_s(T, 3, r); RUN(st, R = cross(A, B)) put(A, a); put(B, b); put(R, r); return st; }
#define CROSS3(T, S, X, Y, Z) \
FN int cross3##X##Y##Z##_##S(T* a, T* b, T* r) { auto A = MK_##X(T, 3, a); auto B = MK_##Y(T, 3, b); auto R = MK_##Z(T, 3, r); decltype(R)* q = nullptr; RUN(st, q = &cross(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (q != &R); } \
FN int acc3##X##Y##Z##_##S(T* a, T* b, T* r) { auto A = MK_##X(T, 3, a); auto B = MK_##Y(T, 3, b); auto R = MK_##Z(T, 3, r); decltype(R)* q = nullptr; RUN(st, q = &cross_acc(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (q != &R); }
#define CROSSAL(T, S, X, Y) \
FN int crossal1##X##Y##_##S(T* a, T* b) { auto A = MK_##X(T, 3, a); auto B = MK_##Y(T, 3, b); decltype(A)* q = nullptr; RUN(st, q = &cross(A, B, A)) put(A, a); put(B, b); return st + 10 * (q != &A); } \
FN int crossal2##X##Y##_##S(T* a, T* b) { auto A = MK_##X(T, 3, a); auto B = MK_##Y(T, 3, b); decltype(B)* q = nullptr; RUN(st, q = &cross(A, B, B)) put(A, a); put(B, b); return st + 10 * (q != &B); } \
FN int accal1##X##Y##_##S(T* a, T* b) { auto A = MK_##X(T, 3, a); auto B = MK_##Y(T, 3, b); decltype(A)* q = nullptr; RUN(st, q = &cross_acc(A, B, A)) put(A, a); put(B, b); return st + 10 * (q != &A); } \
FN int accal2##X##Y##_##S(T* a, T* b) { auto A = MK_##X(T, 3, a); auto B = MK_##Y(T, 3, b); decltype(B)* q = nullptr; RUN(st, q = &cross_acc(A, B, B)) put(A, a); put(B, b); return st + 10 * (q != &B); }
#define ALL(T, S) CROSS2(T, S, s, s) CROSS2(T, S, s, d) CROSS2(T, S, d, s) \
CROSSV(T, S, s, s) CROSSV(T, S, s, d) CROSSV(T, S, d, s) \
CROSS3(T, S, s, s, s) CROSS3(T, S, s, s, d) CROSS3(T, S, s, d, s) CROSS3(T, S, s, d, d) CROSS3(T, S, d, s, s) CROSS3(T, S, d, s, d) CROSS3(T, S, d, d, s) CROSS3(T, S, d, d, d) \
CROSSAL(T, S, s, s) CROSSAL(T, S, s, d) CROSSAL(T, S, d, s) CROSSAL(T, S, d, d)
ALL(double, d) ALL(long, l) ALL(zd, z)
