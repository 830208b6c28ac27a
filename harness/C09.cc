#include "h.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
template<class U> inline std::vector<U> vv(const U* p, size_t n) { return std::vector<U>(p, p + n); }
template<class U> inline void cp(const std::vector<U>& v, U* p) { std::copy(v.begin(), v.end(), p); }
#define RUN4(st, ...) int st = 0; try { __VA_ARGS__; } catch (const std::out_of_range&) { st = 4; } catch (const std::runtime_error&) { st = 2; } catch (const std::exception&) { st = 5; } catch (...) { st = 3; }
// e entries a at (row, col)
#define COO(U) SpCooMat<U> A(vv(a, e), vv(row, e), vv(col, e))
#define SPC(S, U) \
FN int store_##S(size_t e, size_t* row, size_t* col, U* a) { RUN4(st, COO(U); if (A.nnz() != e || A.values().size() != e || A.row_indices().size() != e || A.col_indices().size() != e) return 50; cp(A.values(), a); cp(A.row_indices(), row); cp(A.col_indices(), col)) return st; } \
FN int get_##S(size_t e, size_t k, size_t* row, size_t* col, U* a, U* out) { RUN4(st, const COO(U); out[0] = A(row[k], col[k]); out[1] = A.at(row[k], col[k])) return st; } \
FN int getc_##S(size_t e, size_t k, size_t* row, size_t* col, U* a, U* out) { RUN4(st, const auto v = vv(a, e); const auto r = vv(row, e); const auto c = vv(col, e); const SpCooMat<U> A(v, r, c); out[0] = A(row[k], col[k]); out[1] = A.at(row[k], col[k]); cp(v, a); cp(r, row); cp(c, col)) return st; } \
FN int none_##S(size_t e, size_t i, size_t j, size_t* row, size_t* col, U* a, U* out) { RUN4(st, const COO(U); out[0] = A(i, j); out[1] = A.at(i, j)) return st; } \
FN int set_##S(size_t e, size_t k, size_t h, size_t* row, size_t* col, U* a, U* v, U* out) { RUN4(st, COO(U); A.mut_at(row[k], col[k]) = *v; out[0] = A(row[k], col[k]); out[1] = A(row[h], col[h]); if (A.nnz() != e) return 50) return st; } \
FN int setno_##S(size_t e, size_t i, size_t j, size_t* row, size_t* col, U* a, U* v) { RUN4(st, COO(U); A.mut_at(i, j) = *v) return st; } \
FN int shape_##S(size_t e, size_t b, size_t g, size_t* row, size_t* col, U* a, size_t* out) { RUN4(st, const COO(U); auto s = A.shape(); out[0] = s.first; out[1] = s.second; out[2] = A.nnz()) return st; } \
FN int bad_##S(size_t e, size_t f, size_t g, size_t* row, size_t* col, U* a) { RUN4(st, SpCooMat<U> A(vv(a, e), vv(row, f), vv(col, g))) return st; } \
FN int badc_##S(size_t e, size_t f, size_t g, size_t* row, size_t* col, U* a) { RUN4(st, const auto v = vv(a, e); const auto r = vv(row, f); const auto c = vv(col, g); SpCooMat<U> A(v, r, c)) return st; } \
FN int scale_##S(size_t e, size_t k, size_t* row, size_t* col, U* a, U* s, U* out) { RUN4(st, COO(U); auto& B = scale(*s, A); out[0] = B(row[k], col[k]); const auto C = *s * A; out[1] = C(row[k], col[k]); if (C.nnz() != e || &B != &A || B.nnz() != e) return 50) return st; }
#define NEG(S, U) \
FN int neg_##S(size_t e, size_t k, size_t* row, size_t* col, U* a, U* out) { RUN4(st, COO(U); auto B = -A; out[0] = B(row[k], col[k]); out[1] = A(row[k], col[k]); if (B.nnz() != e) return 50) return st; }
SPC(d, double)
SPC(f, float)
SPC(z, std::complex<double>)
SPC(c, std::complex<float>)
NEG(d, double)
NEG(f, float)
