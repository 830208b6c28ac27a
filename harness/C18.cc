#include "h.hpp"
// a vector of any length whose elements lie in a buffer shared with other vectors; a copy has its own elements
template<class T> struct FVec {
    using ElemType = T;
    T* p; size_t n; bool own;
    FVec(T* q, size_t k) : p(q), n(k), own(false) {}
    FVec(const FVec& o) : p(new T[o.n]), n(o.n), own(true) { std::copy(o.p, o.p + o.n, p); }
    ~FVec() { if (own) delete[] p; }
    size_t size() const { return n; }
    const T& operator[](size_t i) const { return p[i]; }
    T& operator[](size_t i) { return p[i]; }
    T* data() { return p; }
    const T* data() const { return p; }
    T dot(const FVec& o) const { return dot_core(p, o.p, n); }
    T norm2() const { return std::sqrt(dot(*this)); }
};
namespace lalib {
template<class T> inline T dot(const FVec<T>& a, const FVec<T>& b) { return dot_core(a.p, b.p, a.n); }
template<class T> inline FVec<T>& axpy(T s, const FVec<T>& a, FVec<T>& b) { axpy_core(s, a.p, b.p, a.n); return b; }
}
#include "lalib/ops/orthogonal.hpp"
// m vectors of length n, one after the other
template<class T> struct Rows {
    T* p; size_t m, n;
    struct It {
        using value_type = FVec<T>; using difference_type = std::ptrdiff_t; using iterator_concept = std::random_access_iterator_tag;
        const Rows* r; std::ptrdiff_t k;
        FVec<T>& operator*() const { return (*const_cast<Rows*>(r))[k]; }
        FVec<T>& operator[](std::ptrdiff_t d) const { return (*const_cast<Rows*>(r))[k + d]; }
        It& operator++() { ++k; return *this; } It operator++(int) { It i = *this; ++k; return i; }
        It& operator--() { --k; return *this; } It operator--(int) { It i = *this; --k; return i; }
        It& operator+=(std::ptrdiff_t d) { k += d; return *this; } It& operator-=(std::ptrdiff_t d) { k -= d; return *this; }
        friend It operator+(It i, std::ptrdiff_t d) { i.k += d; return i; } friend It operator+(std::ptrdiff_t d, It i) { i.k += d; return i; }
        friend It operator-(It i, std::ptrdiff_t d) { i.k -= d; return i; } friend std::ptrdiff_t operator-(It a, It b) { return a.k - b.k; }
        auto operator<=>(const It& o) const { return k <=> o.k; } bool operator==(const It& o) const { return k == o.k; }
    };
    It begin() const { return {this, 0}; } It end() const { return {this, (std::ptrdiff_t)m}; }
    size_t size() const { return m; }
    FVec<T>& operator[](size_t j) { return *new FVec<T>(p + j * n, n); }
};
// any number of vectors of any length
#define GSV(S, U) FN int view_##S(size_t m, size_t n, U* a) { RUN(st, Rows<U> V{a, m, n}; orth::cgs(V)) return st; }
GSV(d, double) GSV(f, float)
// any number of fixed-size vectors in a std::vector
#define GSS(S, U, N) FN int siz##N##_##S(size_t m, U* a) { RUN(st, std::vector<SizedVec<U, N>> V(m, sv<U, N>(a)); for (size_t j = 0; j < m; ++j) V[j] = sv<U, N>(a + j * N); orth::cgs(V); if (V.size() != m) return 50; for (size_t j = 0; j < m; ++j) put(V[j], a + j * N)) return st; }
GSS(d, double, 1) GSS(d, double, 2) GSS(d, double, 3) GSS(f, float, 3)
// a few run-time-size vectors of any length
#define GSD(S, U, M) FN int dyn##M##_##S(size_t n, U* a) { RUN(st, std::vector<DynVec<U>> V; V.reserve(M); for (size_t j = 0; j < M; ++j) V.push_back(dv(a + j * n, n)); orth::cgs(V); if (V.size() != M) return 50; for (size_t j = 0; j < M; ++j) put(V[j], a + j * n)) return st; }
GSD(d, double, 0) GSD(d, double, 1) GSD(d, double, 2) GSD(d, double, 3) GSD(f, float, 2)
