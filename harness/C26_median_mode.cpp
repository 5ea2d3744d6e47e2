// BOUND: 1 to 4 values (8 bit; otherwise 2 or 3; thorough: 5 8 bit values, 4 int32 values) added to one accumulator or divided in any way over two accumulators that are merged; median: int8, uint8, int32, int64, double, and int32 with a double result; all values
// BOUND: mode and frequency table: 1 to 3 (thorough 4) values, each 0, -7 or one of 4 values; variance and standard deviation: up to 3 int8 values with an int32 result, and 1 or 2 doubles or floats
// ASSUME: floats: no NaN. Medians of doubles whose sum is not finite, and variances that the result type cannot represent, are outside the property
#include "common.h"
#include "fern/algorithm/accumulator/median.h"
#include "fern/algorithm/accumulator/mode.h"
#include "fern/algorithm/accumulator/variance.h"
#include "fern/algorithm/accumulator/standard_deviation.h"
namespace ac = fa::accumulator;
template<class T> using Wide = std::conditional_t<sizeof(T) <= 2, int32_t, std::conditional_t<sizeof(T) == 4, int64_t, i128>>;
template<class R> bool fits(Wide<R> v) { return both(v >= (Wide<R>)std::numeric_limits<R>::min(), v <= (Wide<R>)std::numeric_limits<R>::max()); }
// add values [b, e) to an accumulator; start: 0 default construct and add, 1 construct with the first and ask for the result after each value, 2 assign the first over earlier values whose result was asked for
template<class A> void ask(A& a) { observe("asked", a()); }
template<class T> void ask(ac::detail::FrequencyTable<T>& a) { observe("asked", a.mode()); }
template<class A, class T> A fill(T const* v, size_t b, size_t e, int start)
{
    if (b == e) return A();
    A a = start == 1 ? A(v[b]) : A();
    if (start == 0) a(v[b]); else if (start == 2) { for (size_t i = b; i < e; ++i) a(v[b]); a(v[e - 1]); ask(a); a = v[b]; }
    for (size_t i = b + 1; i < e; ++i) { a(v[i]); if (start == 1) ask(a); }
    return a;
}
// the values divided over two accumulators that are merged with | or |=
struct How { size_t cut, how; int start; };
inline How how(size_t n, int starts = 3) { How h; h.cut = fs_choose("cut", n + 1); h.how = h.cut == n ? fs_choose("merge", 3) : 1 + fs_choose("merge", 2); /* possibly with an empty one */ h.start = static_cast<int>(fs_choose("start", starts)); return h; }
template<class A, class T> A gather(T const* v, size_t n, How h)
{
    A a = fill<A>(v, 0, h.cut, h.start);
    if (h.how == 0) return a;
    A b = fill<A>(v, h.cut, n, (h.start + 1) % 3);
    if (h.how == 1) { A c = a | b; return c; }
    a |= b; return a;
}
template<class T> void no_nan(T const* v, size_t n) { if constexpr (std::is_floating_point<T>::value) for (size_t i = 0; i < n; ++i) fs_assume(!std::isnan(v[i])); }
template<class T, class R, size_t N> void median()
{
    fs_merge(0); T v[N]; for (auto& x : v) x = sym<T>("v"); no_nan(v, N); size_t n = 1 + fs_choose("n", N);
    auto a = gather<ac::Median<T, R>>(v, n, how(n)); R r = a();
    // the order is known on this path: sort the values the same way
    T w[N]; for (size_t i = 0; i < n; ++i) { size_t j = i; T x = v[i]; while (j > 0 && x < w[j - 1]) { w[j] = w[j - 1]; --j; } w[j] = x; }
    T lo = w[(n - 1) / 2], hi = w[n / 2];
    if (n % 2) fs_assert(r == static_cast<R>(lo), "the median of an odd number of values is the middle one");
    else if constexpr (std::is_integral<T>::value) {
        typedef Wide<T> W; W s = (W)lo + (W)hi;
        if constexpr (std::is_floating_point<R>::value) fs_assert(r == (static_cast<R>(lo) + static_cast<R>(hi)) / 2, "the median of an even number of values is the mean of the middle two");
        else { W q = r; fs_assert(either(both(s >= 0, both(q * 2 <= s, s < q * 2 + 2)), both(s <= 0, both(q * 2 >= s, s > q * 2 - 2))), "the median of an even number of integers is the mean of the middle two, truncated towards zero"); }
    } else { R s = static_cast<R>(lo) + static_cast<R>(hi); fs_assert(either(!std::isfinite(s), r == s / 2), "the median of an even number of values is the mean of the middle two"); }
    fs_assert(either(r == a(), r != r), "asking again gives the same median");
    observe("r", r); fs_reach("end");
}
#define M(n, T, R, N) UNIT(median_##n) { median<T, R, N>(); }
M(i8, int8_t, int8_t, 4) M(i32, int32_t, int32_t, 3) UNIT_THOROUGH(median4_i32) { median<int32_t, int32_t, 4>(); } UNIT_THOROUGH(median5_i8) { median<int8_t, int8_t, 5>(); } M(i64, int64_t, int64_t, 3) M(i32_f64, int32_t, double, 2) M(f64, double, double, 2) M(u8, uint8_t, uint8_t, 4)
template<class T, size_t N> void mode()
{
    T x = static_cast<T>(fs_concretize(sym<uint8_t>("x") % 4) * 11 - 22), v[N]; size_t n = 1 + fs_choose("n", N); for (size_t i = 0; i < n; ++i) { size_t w = fs_choose("which", 3); v[i] = w == 0 ? x : w == 1 ? T(0) : T(-7); }
    size_t most = 0, distinct = 0, top = 0; for (size_t i = 0; i < n; ++i) { size_t k = 0, before = 0; for (size_t j = 0; j < n; ++j) { k += v[j] == v[i]; before += j < i && v[j] == v[i]; } if (k > most) { most = k; } distinct += before == 0; }
    How h = how(n); auto a = gather<ac::Mode<T>>(v, n, h); T r = a(); for (size_t j = 0; j < n; ++j) top += v[j] == r;
    fs_assert(top == most, "no value occurs more often than the mode");
    auto f = gather<ac::detail::FrequencyTable<T>>(v, n, h);
    fs_assert(f.size() == distinct, "the frequency table has one entry per distinct value"); T m = f.mode(); size_t mt = 0; for (size_t j = 0; j < n; ++j) mt += v[j] == m;
    fs_assert(mt == most, "the mode of the frequency table"); fs_assert(!f.empty(), "the table is not empty");
    ac::detail::FrequencyTable<T> e; fs_assert(both(e.empty(), e.size() == 0), "a new table is empty");
    fs_reach("end");
}
UNIT(mode_i32) { mode<int32_t, 3>(); } UNIT_THOROUGH(mode5_i32) { mode<int32_t, 4>(); } UNIT(mode_f64) { mode<double, 2>(); }
template<class T, class R, size_t N> void variance()
{
    fs_merge(0); T v[N]; for (auto& x : v) x = sym<T>("v"); size_t n = 1 + fs_choose("n", N); How h = how(n);
    // the mean: see C25
    R mean = gather<ac::Mean<T, R>>(v, n, h)(), d = 0; for (size_t i = 0; i < n; ++i) d += (mean - static_cast<R>(v[i])) * (mean - static_cast<R>(v[i])); d /= static_cast<R>(n);
    auto a = gather<ac::Variance<T, R>>(v, n, h); R r = a(); fs_assert(either(r == d, both(r != r, d != d)), "variance: mean squared distance to the mean"); observe("r", r);
    if constexpr (std::is_floating_point<R>::value) { auto b = gather<ac::StandardDeviation<T, R>>(v, n, h); R q = b(), w = std::sqrt(d); fs_assert(either(q == w, both(q != q, w != w)), "standard deviation: square root of the variance"); }
    fs_reach("end");
}
UNIT(variance_i8) { variance<int8_t, int32_t, 3>(); } UNIT(variance_f64) { variance<double, double, 2>(); } UNIT(variance_f32) { variance<float, float, 2>(); } UNIT(variance_i8_f64) { variance<int8_t, double, 2>(); }
