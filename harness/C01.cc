#include "h.hpp"
#define DYN(T, S) \
FN int neg_##S(size_t n, T* a, T* r) { auto A = dv(a, n), R = dv(r, n); DynVec<T>* q = nullptr; RUN(st, q = &neg(A, R)) put(A, a); put(R, r); return st + 10 * (q != &R); } \
FN int neg_al_##S(size_t n, T* a) { auto A = dv(a, n); DynVec<T>* q = nullptr; RUN(st, q = &neg(A, A)) put(A, a); return st + 10 * (q != &A); } \
FN int opneg_##S(size_t n, T* a, T* r) { auto A = dv(a, n); DynVec<T> R; RUN(st, R = -A) put(A, a); if (R.size() != n) return 100; put(R, r); return st; } \
FN int add_##S(size_t n, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, n), R = dv(r, n); DynVec<T>* q = nullptr; RUN(st, q = &add(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (q != &R); } \
FN int add_al1_##S(size_t n, T* a, T* b) { auto A = dv(a, n), B = dv(b, n); DynVec<T>* q = nullptr; RUN(st, q = &add(A, B, A)) put(A, a); put(B, b); return st + 10 * (q != &A); } \
FN int add_al2_##S(size_t n, T* a, T* b) { auto A = dv(a, n), B = dv(b, n); DynVec<T>* q = nullptr; RUN(st, q = &add(A, B, B)) put(A, a); put(B, b); return st + 10 * (q != &B); } \
FN int add_al3_##S(size_t n, T* a) { auto A = dv(a, n); DynVec<T>* q = nullptr; RUN(st, q = &add(A, A, A)) put(A, a); return st + 10 * (q != &A); } \
FN int opadd_##S(size_t n, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, n); DynVec<T> R; RUN(st, R = A + B) put(A, a); put(B, b); if (R.size() != n) return 100; put(R, r); return st; } \
FN int sub_##S(size_t n, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, n), R = dv(r, n); DynVec<T>* q = nullptr; RUN(st, q = &sub(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (q != &R); } \
FN int sub_al1_##S(size_t n, T* a, T* b) { auto A = dv(a, n), B = dv(b, n); DynVec<T>* q = nullptr; RUN(st, q = &sub(A, B, A)) put(A, a); put(B, b); return st + 10 * (q != &A); } \
FN int sub_al2_##S(size_t n, T* a, T* b) { auto A = dv(a, n), B = dv(b, n); DynVec<T>* q = nullptr; RUN(st, q = &sub(A, B, B)) put(A, a); put(B, b); return st + 10 * (q != &B); } \
FN int sub_al3_##S(size_t n, T* a) { auto A = dv(a, n); DynVec<T>* q = nullptr; RUN(st, q = &sub(A, A, A)) put(A, a); return st + 10 * (q != &A); } \
FN int opsub_##S(size_t n, T* a, T* b, T* r) { auto A = dv(a, n), B = dv(b, n); DynVec<T> R; RUN(st, R = A - B) put(A, a); put(B, b); if (R.size() != n) return 100; put(R, r); return st; } \
FN int axpy_##S(size_t n, T* s, T* a, T* b) { auto A = dv(a, n), B = dv(b, n); T al = *s; DynVec<T>* q = nullptr; RUN(st, q = &axpy(al, A, B)) put(A, a); put(B, b); return st + 10 * (q != &B); } \
FN int axpy_al_##S(size_t n, T* s, T* a) { auto A = dv(a, n); T al = *s; DynVec<T>* q = nullptr; RUN(st, q = &axpy(al, A, A)) put(A, a); return st + 10 * (q != &A); } \
FN int scale_##S(size_t n, T* s, T* a) { auto A = dv(a, n); T al = *s; DynVec<T>* q = nullptr; RUN(st, q = &scale(al, A)) put(A, a); return st + 10 * (q != &A); } \
FN int scaled_##S(size_t n, T* s, T* a, T* r) { auto A = dv(a, n); T al = *s; DynVec<T> R; RUN(st, R = scaled(al, A)) put(A, a); if (R.size() != n) return 100; put(R, r); return st; } \
FN int mull_##S(size_t n, T* s, T* a, T* r) { auto A = dv(a, n); T al = *s; DynVec<T> R; RUN(st, R = al * A) put(A, a); if (R.size() != n) return 100; put(R, r); return st; } \
FN int mulr_##S(size_t n, T* s, T* a, T* r) { auto A = dv(a, n); T al = *s; DynVec<T> R; RUN(st, R = A * al) put(A, a); if (R.size() != n) return 100; put(R, r); return st; }
#define DIVD(T, S) \
FN int div_##S(size_t n, T* s, T* a, T* r) { auto A = dv(a, n); T al = *s; DynVec<T> R; RUN(st, R = A / al) put(A, a); if (R.size() != n) return 100; put(R, r); return st; }
#define SIZ(T, S, N) \
FN int s##N##neg_##S(T* a, T* r) { auto A = sv<T, N>(a), R = sv<T, N>(r); SizedVec<T, N>* q = nullptr; RUN(st, q = &neg(A, R)) put(A, a); put(R, r); return st + 10 * (q != &R); } \
FN int s##N##neg_al_##S(T* a) { auto A = sv<T, N>(a); SizedVec<T, N>* q = nullptr; RUN(st, q = &neg(A, A)) put(A, a); return st + 10 * (q != &A); } \
FN int s##N##opneg_##S(T* a, T* r) { auto A = sv<T, N>(a), R = A; RUN(st, R = -A) put(A, a); put(R, r); return st; } \
FN int s##N##add_##S(T* a, T* b, T* r) { auto A = sv<T, N>(a), B = sv<T, N>(b), R = sv<T, N>(r); SizedVec<T, N>* q = nullptr; RUN(st, q = &add(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (q != &R); } \
FN int s##N##add_al1_##S(T* a, T* b) { auto A = sv<T, N>(a), B = sv<T, N>(b); SizedVec<T, N>* q = nullptr; RUN(st, q = &add(A, B, A)) put(A, a); put(B, b); return st + 10 * (q != &A); } \
FN int s##N##add_al2_##S(T* a, T* b) { auto A = sv<T, N>(a), B = sv<T, N>(b); SizedVec<T, N>* q = nullptr; RUN(st, q = &add(A, B, B)) put(A, a); put(B, b); return st + 10 * (q != &B); } \
FN int s##N##opadd_##S(T* a, T* b, T* r) { auto A = sv<T, N>(a), B = sv<T, N>(b), R = A; RUN(st, R = A + B) put(A, a); put(B, b); put(R, r); return st; } \
FN int s##N##sub_##S(T* a, T* b, T* r) { auto A = sv<T, N>(a), B = sv<T, N>(b), R = sv<T, N>(r); SizedVec<T, N>* q = nullptr; RUN(st, q = &sub(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (q != &R); } \
FN int s##N##sub_al1_##S(T* a, T* b) { auto A = sv<T, N>(a), B = sv<T, N>(b); SizedVec<T, N>* q = nullptr; RUN(st, q = &sub(A, B, A)) put(A, a); put(B, b); return st + 10 * (q != &A); } \
FN int s##N##sub_al2_##S(T* a, T* b) { auto A = sv<T, N>(a), B = sv<T, N>(b); SizedVec<T, N>* q = nullptr; RUN(st, q = &sub(A, B, B)) put(A, a); put(B, b); return st + 10 * (q != &B); } \
FN int s##N##opsub_##S(T* a, T* b, T* r) { auto A = sv<T, N>(a), B = sv<T, N>(b), R = A; RUN(st, R = A - B) put(A, a); put(B, b); put(R, r); return st; } \
FN int s##N##axpy_##S(T* s, T* a, T* b) { auto A = sv<T, N>(a), B = sv<T, N>(b); T al = *s; SizedVec<T, N>* q = nullptr; RUN(st, q = &axpy(al, A, B)) put(A, a); put(B, b); return st + 10 * (q != &B); } \
FN int s##N##axpy_al_##S(T* s, T* a) { auto A = sv<T, N>(a); T al = *s; SizedVec<T, N>* q = nullptr; RUN(st, q = &axpy(al, A, A)) put(A, a); return st + 10 * (q != &A); } \
FN int s##N##scale_##S(T* s, T* a) { auto A = sv<T, N>(a); T al = *s; SizedVec<T, N>* q = nullptr; RUN(st, q = &scale(al, A)) put(A, a); return st + 10 * (q != &A); } \
FN int s##N##scaled_##S(T* s, T* a, T* r) { auto A = sv<T, N>(a), R = A; T al = *s; RUN(st, R = scaled(al, A)) put(A, a); put(R, r); return st; } \
FN int s##N##mull_##S(T* s, T* a, T* r) { auto A = sv<T, N>(a), R = A; T al = *s; RUN(st, R = al * A) put(A, a); put(R, r); return st; } \
FN int s##N##mulr_##S(T* s, T* a, T* r) { auto A = sv<T, N>(a), R = A; T al = *s; RUN(st, R = A * al) put(A, a); put(R, r); return st; } \
FN int sdadd_##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a), R = sv<T, N>(r); auto B = dv(b, m); SizedVec<T, N>* q = nullptr; RUN(st, q = &add(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (st == 0 && q != &R); } \
FN int sdadd_al_##N##_##S(size_t m, T* a, T* b) { auto A = sv<T, N>(a); auto B = dv(b, m); SizedVec<T, N>* q = nullptr; RUN(st, q = &add(A, B, A)) put(A, a); put(B, b); return st + 10 * (st == 0 && q != &A); } \
FN int dsadd_##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a), R = sv<T, N>(r); auto B = dv(b, m); SizedVec<T, N>* q = nullptr; RUN(st, q = &add(B, A, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (st == 0 && q != &R); } \
FN int sdsub_##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a), R = sv<T, N>(r); auto B = dv(b, m); SizedVec<T, N>* q = nullptr; RUN(st, q = &sub(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (st == 0 && q != &R); } \
FN int sdsub_al_##N##_##S(size_t m, T* a, T* b) { auto A = sv<T, N>(a); auto B = dv(b, m); SizedVec<T, N>* q = nullptr; RUN(st, q = &sub(A, B, A)) put(A, a); put(B, b); return st + 10 * (st == 0 && q != &A); } \
FN int dssub_##N##_##S(size_t m, T* a, T* b, T* r) { auto A = sv<T, N>(a), R = sv<T, N>(r); auto B = dv(b, m); SizedVec<T, N>* q = nullptr; RUN(st, q = &sub(B, A, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (st == 0 && q != &R); } 
#define DIVS(T, S, N) \
FN int s##N##div_##S(T* s, T* a, T* r) { auto A = sv<T, N>(a), R = A; T al = *s; RUN(st, R = A / al) put(A, a); put(R, r); return st; }
DYN(double, d) DYN(float, f) DYN(int, i) DYN(zd, z)
DIVD(double, d) DIVD(float, f) DIVD(zd, z)
SIZ(double, d, 3) SIZ(double, d, 15) SIZ(double, d, 16) SIZ(double, d, 45) SIZ(float, f, 4) SIZ(int, i, 17) SIZ(zd, z, 3)
DIVS(double, d, 3) DIVS(double, d, 45) DIVS(float, f, 4)
