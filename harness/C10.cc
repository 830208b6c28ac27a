#include "h.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
template<class U> inline std::vector<U> vv(const U* p, size_t n) { return std::vector<U>(p, p + n); }
template<class U> inline void cp(const std::vector<U>& v, U* p) { std::copy(v.begin(), v.end(), p); }
#define RUN4(st, ...) int st = 0; try { __VA_ARGS__; } catch (const std::out_of_range&) { st = 4; } catch (const std::runtime_error&) { st = 2; } catch (const std::exception&) { st = 5; } catch (...) { st = 3; }
// n rows, e entries a at columns col; the entries of row i are those from ptr[i] up to ptr[i+1]
#define CSR(U) SpMat<U> A(vv(a, e), vv(ptr, n + 1), vv(col, e))
#define SPC(S, U) \
FN int get_##S(size_t n, size_t e, size_t i, size_t k, size_t* ptr, size_t* col, U* a, U* out) { RUN4(st, const CSR(U); out[0] = A(i, col[k]); out[1] = A.at(i, col[k])) return st; } \
FN int getc_##S(size_t n, size_t e, size_t i, size_t k, size_t* ptr, size_t* col, U* a, U* out) { RUN4(st, const auto v = vv(a, e); const auto r = vv(ptr, n + 1); const auto c = vv(col, e); const SpMat<U> A(v, r, c); out[0] = A(i, col[k]); out[1] = A.at(i, col[k]); cp(v, a); cp(r, ptr); cp(c, col)) return st; } \
FN int none_##S(size_t n, size_t e, size_t i, size_t j, size_t* ptr, size_t* col, U* a, U* out) { RUN4(st, const CSR(U); out[0] = A(i, j); out[1] = A.at(i, j)) return st; } \
FN int set_##S(size_t n, size_t e, size_t i, size_t k, size_t* ptr, size_t* col, U* a, U* v) { RUN4(st, CSR(U); A.mut_at(i, col[k]) = *v; if (A.nnz() != e || A.values().size() != e || A.row_ptr().size() != n + 1 || A.col_indices().size() != e) return 50; cp(A.values(), a); cp(A.row_ptr(), ptr); cp(A.col_indices(), col)) return st; } \
FN int setno_##S(size_t n, size_t e, size_t i, size_t j, size_t* ptr, size_t* col, U* a, U* v) { RUN4(st, CSR(U); A.mut_at(i, j) = *v) return st; } \
FN int shape_##S(size_t n, size_t e, size_t b, size_t* ptr, size_t* col, U* a, size_t* out) { RUN4(st, const CSR(U); auto s = A.shape(); out[0] = s.first; out[1] = s.second; out[2] = A.nnz()) return st; } \
FN int bad_##S(size_t n, size_t e, size_t f, size_t* ptr, size_t* col, U* a) { RUN4(st, SpMat<U> A(vv(a, e), vv(ptr, n + 1), vv(col, f))) return st; } \
FN int badc_##S(size_t n, size_t e, size_t f, size_t* ptr, size_t* col, U* a) { RUN4(st, const auto v = vv(a, e); const auto r = vv(ptr, n + 1); const auto c = vv(col, f); SpMat<U> A(v, r, c)) return st; } \
FN int unit_##S(size_t n, size_t i, size_t j, U* out) { RUN4(st, const auto A = SpMat<U>::unit(n); out[0] = A(i, j); if (A.nnz() != n || A.shape().first != n || A.row_ptr().size() != n + 1) return 50) return st; }
// e entries a at (row, col), compressed by copying and by moving
#define COO(U) SpCooMat<U> C(vv(a, e), vv(row, e), vv(col, e))
#define CONV(S, U) \
FN int cget_##S(size_t e, size_t k, size_t* row, size_t* col, U* a, U* out) { RUN4(st, const COO(U); const SpMat<U> A(C); out[0] = A(row[k], col[k]); out[1] = C(row[k], col[k])) return st; } \
FN int mget_##S(size_t e, size_t k, size_t* row, size_t* col, U* a, U* out) { RUN4(st, COO(U); const SpMat<U> A(std::move(C)); out[0] = A(row[k], col[k])) return st; } \
FN int cnone_##S(size_t e, size_t i, size_t j, size_t h, size_t* row, size_t* col, U* a, U* out) { RUN4(st, const COO(U); const SpMat<U> A(C); out[0] = A(i, j)) return st; } \
FN int cset_##S(size_t e, size_t k, size_t h, size_t* row, size_t* col, U* a, U* v, U* out) { RUN4(st, const COO(U); SpMat<U> A(C); A.mut_at(row[k], col[k]) = *v; out[0] = A(row[h], col[h]); out[1] = C(row[h], col[h])) return st; } \
FN int cshape_##S(size_t e, size_t* row, size_t* col, U* a, size_t* out) { RUN4(st, const COO(U); const SpMat<U> A(C); auto s = A.shape(); auto t = C.shape(); out[0] = s.first; out[1] = s.second; out[2] = A.nnz(); out[3] = t.first; out[4] = t.second) return st; }
SPC(d, double)
SPC(f, float)
SPC(z, std::complex<double>)
SPC(c, std::complex<float>)
CONV(d, double)
CONV(f, float)
CONV(z, std::complex<double>)
CONV(c, std::complex<float>)
