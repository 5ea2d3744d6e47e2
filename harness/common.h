// Shared vocabulary of the harnesses.
#pragma once
#include <vector>
#include <cassert>
#include <cstdint>
#include <cmath>
#include <string>
#include <limits>
#include "fs.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/algorithm/policy/policies.h"
namespace fa = fern::algorithm;
typedef unsigned __int128 u128;
typedef __int128 i128;

// Grid shape: 0 dimensions (scalar), 1 (vector) or 2 (Array).
template<class T> struct G1 { typedef std::vector<T> type; static type make(size_t n) { return type(n); } };

// Recording no-data policies over a flat mask; the third-party side of the
// policy interface, kept in the harness so that every cell is observable.
struct In
{
    uint8_t const* m; size_t n; size_t cols;
    bool is_no_data() const { return m[0] != 0; }
    bool is_no_data(size_t i) const { assert(i < n); return m[i] != 0; }
    bool is_no_data(size_t i, size_t j) const { assert(i * cols + j < n); return m[i * cols + j] != 0; }
};
struct Out
{
    uint8_t* m; size_t n; size_t cols;
    void mark_as_no_data() { m[0] = 1; }
    void mark_as_no_data(size_t i) { assert(i < n); m[i] = 1; }
    void mark_as_no_data(size_t i, size_t j) { assert(i * cols + j < n); m[i * cols + j] = 1; }
};
template<size_t N> struct Mask
{
    uint8_t m[N] = {};
    size_t cols;
    explicit Mask(size_t c = N) : cols(c) {}
    void fill(char const* name) { for (auto& x : m) x = sym<bool>(name); }
    In in() const { return In{m, N, cols}; }
    Out out() { return Out{m, N, cols}; }
    uint8_t operator[](size_t i) const { return m[i]; }
};
template<class T> void fill_sym(std::vector<T>& v, char const* name) { for (auto& x : v) x = sym<T>(name); }
template<class T, size_t D> void fill_sym(fern::Array<T, D>& a, char const* name) { for (size_t i = 0; i < a.num_elements(); ++i) a.data()[i] = sym<T>(name); }
template<class T> void fill_sym(T& v, char const* name) { v = sym<T>(name); }
// flat access
template<class T> T at(std::vector<T> const& v, size_t i) { return v[i]; }
template<class T, size_t D> T at(fern::Array<T, D> const& v, size_t i) { return v.data()[i]; }
inline int8_t at(int8_t v, size_t) { return v; }
inline int16_t at(int16_t v, size_t) { return v; }
inline int32_t at(int32_t v, size_t) { return v; }
inline int64_t at(int64_t v, size_t) { return v; }
inline uint8_t at(uint8_t v, size_t) { return v; }
inline uint16_t at(uint16_t v, size_t) { return v; }
inline uint32_t at(uint32_t v, size_t) { return v; }
inline uint64_t at(uint64_t v, size_t) { return v; }
inline float at(float v, size_t) { return v; }
inline double at(double v, size_t) { return v; }
inline bool at(bool v, size_t) { return v; }
// the three ways to execute an algorithm
template<class F> void with_policy(int which, F f)
{
    if (which == 0) { fa::SequentialExecutionPolicy e; f(e); }
    else if (which == 1) { fa::ParallelExecutionPolicy e(2); f(e); }
    else if (which == 2) { fa::ExecutionPolicy e = fa::SequentialExecutionPolicy(); f(e); }
    else { fa::ExecutionPolicy e = fa::ParallelExecutionPolicy(2); f(e); }
}
// operations whose 1d implementation has no run-time selected variant
template<class F> void with_static_policy(int which, F f)
{
    if (which == 0) { fa::SequentialExecutionPolicy e; f(e); }
    else { fa::ParallelExecutionPolicy e(2); f(e); }
}
template<class R> struct OneD { static const bool value = false; };
template<class T> struct OneD<std::vector<T>> { static const bool value = true; };
template<class R, class F> void with_policy_for(int which, F f)
{
    if constexpr (OneD<R>::value) with_static_policy(which & 1, f); else with_policy(which, f);
}
template<class R> int choose_policy() { return static_cast<int>(fs_choose("policy", OneD<R>::value ? 2 : 4)); }
// containers by rank: 0 (scalar), 1 (X * Y cells), 2 (X rows of Y cells)
template<int D, class T, size_t X, size_t Y> struct Shaped;
template<class T, size_t X, size_t Y> struct Shaped<0, T, X, Y> { typedef T type; static T make() { return T(); } static constexpr size_t cells = 1, cols = 1; };
template<class T, size_t X, size_t Y> struct Shaped<1, T, X, Y> { typedef std::vector<T> type; static type make() { return type(X * Y); } static constexpr size_t cells = X * Y, cols = X * Y; };
template<class T, size_t X, size_t Y> struct Shaped<2, T, X, Y> { typedef fern::Array<T, 2> type; static type make() { return type(fern::extents[X][Y]); } static constexpr size_t cells = X * Y, cols = Y; };
template<int D> size_t ix(size_t i) { return D == 0 ? 0 : i; }
