// Wrappers around lalib's public API with plain arrays in and out. The same text is verified (as LLVM IR)
// and executed (as a shared object) when a failing input is searched for and replayed.
#pragma once
#include <complex>
#include <cstddef>
#include <stdexcept>
#include <vector>
#include <algorithm>
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
using namespace lalib;
typedef std::complex<double> zd;
#define FN extern "C" __attribute__((used))
// 0: returned normally, 1: SizeMismatched, 2: another std::exception, 3: anything else
#define RUN(st, ...) int st = 0; try { __VA_ARGS__; } \
    catch (const lalib::vec_error::SizeMismatched&) { st = 1; } \
    catch (const std::exception&) { st = 2; } \
    catch (...) { st = 3; }
template<class T> inline DynVec<T> dv(const T* p, size_t n) { return DynVec<T>(std::vector<T>(p, p + n)); }
template<class T> inline void put(const DynVec<T>& v, T* p) { std::copy(v.data(), v.data() + v.size(), p); }
template<class T, size_t N> inline SizedVec<T, N> sv(const T* p) { std::array<T, N> a; std::copy(p, p + N, a.begin()); return SizedVec<T, N>(a); }
template<class T, size_t N> inline void put(const SizedVec<T, N>& v, T* p) { std::copy(v.data(), v.data() + N, p); }
template<class T> inline DynMat<T> dm(const T* p, size_t n, size_t m) { return DynMat<T>(n, m, std::vector<T>(p, p + n * m)); }
template<class T> inline void put(const DynMat<T>& a, T* p) { std::copy(a.data(), a.data() + a.shape().first * a.shape().second, p); }
template<class T, size_t N, size_t M> inline SizedMat<T, N, M> sm(const T* p) { std::array<T, N * M> a; std::copy(p, p + N * M, a.begin()); return SizedMat<T, N, M>(a); }
template<class T, size_t N, size_t M> inline void put(const SizedMat<T, N, M>& a, T* p) { std::copy(a.data(), a.data() + N * M, p); }
