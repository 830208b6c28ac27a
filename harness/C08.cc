#include "h.hpp"
#define SH(X) if (X.shape() != std::make_pair(size_t(n), size_t(m))) return 100;
#define DYN(T, S) \
FN int scale_##S(size_t n, size_t m, T* s, T* a) { auto A = dm(a, n, m); T al = *s; DynMat<T>* q = nullptr; RUN(st, q = &scale(al, A)) put(A, a); SH(A) return st + 10 * (q != &A); } \
FN int mull_##S(size_t n, size_t m, T* s, T* a, T* r) { const auto A = dm(a, n, m); T al = *s; auto R = DynMat<T>::filled(T(0), 0, 0); RUN(st, R = al * A) put(A, a); SH(R) put(R, r); return st; } \
OPS(T, S, add, +) OPS(T, S, sub, -)
#define OPS(T, S, OP, SY) \
FN int OP##_##S(size_t n, size_t m, T* a, T* b, T* r) { const auto A = dm(a, n, m), B = dm(b, n, m); auto R = dm(r, n, m); DynMat<T>* q = nullptr; RUN(st, q = &OP(A, B, R)) put(A, a); put(B, b); put(R, r); SH(R) return st + 10 * (q != &R); } \
FN int OP##_al1_##S(size_t n, size_t m, T* a, T* b) { const auto B = dm(b, n, m); auto A = dm(a, n, m); DynMat<T>* q = nullptr; RUN(st, q = &OP(A, B, A)) put(A, a); put(B, b); SH(A) return st + 10 * (q != &A); } \
FN int OP##_al2_##S(size_t n, size_t m, T* a, T* b) { const auto A = dm(a, n, m); auto B = dm(b, n, m); DynMat<T>* q = nullptr; RUN(st, q = &OP(A, B, B)) put(A, a); put(B, b); SH(B) return st + 10 * (q != &B); } \
FN int OP##_al3_##S(size_t n, size_t m, T* a) { auto A = dm(a, n, m); DynMat<T>* q = nullptr; RUN(st, q = &OP(A, A, A)) put(A, a); SH(A) return st + 10 * (q != &A); } \
FN int op##OP##_##S(size_t n, size_t m, T* a, T* b, T* r) { const auto A = dm(a, n, m), B = dm(b, n, m); auto R = DynMat<T>::filled(T(0), 0, 0); RUN(st, R = A SY B) put(A, a); put(B, b); SH(R) put(R, r); return st; } \
FN int op##OP##_self_##S(size_t n, size_t m, T* a, T* r) { const auto A = dm(a, n, m); auto R = DynMat<T>::filled(T(0), 0, 0); RUN(st, R = A SY A) put(A, a); SH(R) put(R, r); return st; }
#define NEGD(T, S) \
FN int opneg_##S(size_t n, size_t m, T* a, T* r) { const auto A = dm(a, n, m); auto R = DynMat<T>::filled(T(0), 0, 0); RUN(st, R = -A) put(A, a); SH(R) put(R, r); return st; }
#define SIZ(T, S, N, M) \
FN int s##N##M##scale_##S(T* s, T* a) { auto A = sm<T, N, M>(a); T al = *s; SizedMat<T, N, M>* q = nullptr; RUN(st, q = &scale(al, A)) put(A, a); return st + 10 * (q != &A); } \
FN int s##N##M##mull_##S(T* s, T* a, T* r) { const auto A = sm<T, N, M>(a); auto R = A; T al = *s; RUN(st, R = al * A) put(A, a); put(R, r); return st; } \
SOPS(T, S, N, M, add, +) SOPS(T, S, N, M, sub, -)
#define SOPS(T, S, N, M, OP, SY) \
FN int s##N##M##OP##_##S(T* a, T* b, T* r) { const auto A = sm<T, N, M>(a), B = sm<T, N, M>(b); auto R = sm<T, N, M>(r); SizedMat<T, N, M>* q = nullptr; RUN(st, q = &OP(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (q != &R); } \
FN int s##N##M##OP##_sd_##S(T* a, T* b, T* r) { const auto A = sm<T, N, M>(a); const auto B = dm(b, N, M); auto R = sm<T, N, M>(r); SizedMat<T, N, M>* q = nullptr; RUN(st, q = &OP(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (q != &R); } \
FN int s##N##M##OP##_ds_##S(T* a, T* b, T* r) { const auto A = dm(a, N, M); const auto B = sm<T, N, M>(b); auto R = sm<T, N, M>(r); SizedMat<T, N, M>* q = nullptr; RUN(st, q = &OP(A, B, R)) put(A, a); put(B, b); put(R, r); return st + 10 * (q != &R); } \
FN int s##N##M##OP##_al1_##S(T* a, T* b) { const auto B = sm<T, N, M>(b); auto A = sm<T, N, M>(a); SizedMat<T, N, M>* q = nullptr; RUN(st, q = &OP(A, B, A)) put(A, a); put(B, b); return st + 10 * (q != &A); } \
FN int s##N##M##OP##_al2_##S(T* a, T* b) { const auto A = sm<T, N, M>(a); auto B = sm<T, N, M>(b); SizedMat<T, N, M>* q = nullptr; RUN(st, q = &OP(A, B, B)) put(A, a); put(B, b); return st + 10 * (q != &B); } \
FN int s##N##M##OP##_al3_##S(T* a) { auto A = sm<T, N, M>(a); SizedMat<T, N, M>* q = nullptr; RUN(st, q = &OP(A, A, A)) put(A, a); return st + 10 * (q != &A); } \
FN int s##N##M##OP##_sd_al_##S(T* a, T* b) { auto A = sm<T, N, M>(a); const auto B = dm(b, N, M); SizedMat<T, N, M>* q = nullptr; RUN(st, q = &OP(A, B, A)) put(A, a); put(B, b); return st + 10 * (q != &A); } \
FN int s##N##M##OP##_ds_al_##S(T* a, T* b) { const auto A = dm(a, N, M); auto B = sm<T, N, M>(b); SizedMat<T, N, M>* q = nullptr; RUN(st, q = &OP(A, B, B)) put(A, a); put(B, b); return st + 10 * (q != &B); } \
FN int s##N##M##op##OP##_##S(T* a, T* b, T* r) { const auto A = sm<T, N, M>(a), B = sm<T, N, M>(b); auto R = sm<T, N, M>(r); RUN(st, R = A SY B) put(A, a); put(B, b); put(R, r); return st; }
#define NEGS(T, S, N, M) \
FN int s##N##M##opneg_##S(T* a, T* r) { const auto A = sm<T, N, M>(a); auto R = sm<T, N, M>(r); RUN(st, R = -A) put(A, a); put(R, r); return st; }
#define INV(T, S) \
FN int inv_out_##S(T* a, T* r, T* v) { const auto A = sm<T, 2, 2>(a); auto R = sm<T, 2, 2>(r), V = R; RUN(st, V = invert(A, R)) put(A, a); put(R, r); put(V, v); return st; } \
FN int inv_self_##S(T* a, T* v) { auto A = sm<T, 2, 2>(a), V = A; RUN(st, V = invert(A, A)) put(A, a); put(V, v); return st; } \
FN int inv_in_##S(T* a) { auto A = sm<T, 2, 2>(a); SizedMat<T, 2, 2>* q = nullptr; RUN(st, q = &invert(A)) put(A, a); return st + 10 * (q != &A); } \
FN int inv_ret_##S(T* a, T* v) { const auto A = sm<T, 2, 2>(a); auto V = A; RUN(st, V = inverted(A)) put(A, a); put(V, v); return st; }
typedef std::complex<float> zf;
DYN(double, d) DYN(float, f) DYN(int, i) DYN(zd, z) DYN(zf, c) NEGD(double, d) NEGD(float, f) NEGD(int, i)
SIZ(double, d, 2, 3) SIZ(double, d, 5, 4) SIZ(float, f, 1, 4) SIZ(zd, z, 2, 2) SIZ(zf, c, 1, 2) SIZ(int, i, 3, 2)
NEGS(double, d, 2, 3) NEGS(double, d, 5, 4) NEGS(float, f, 1, 4) NEGS(int, i, 3, 2)
INV(double, d) INV(float, f) INV(zd, z)
