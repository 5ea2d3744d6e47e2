// BOUND: 1 to 4 values (8 bit; otherwise 2 or 3; thorough: 2 more) added to one accumulator or divided in any way over two accumulators that are merged, either accumulator default constructed, constructed with or assigned its first value; all values
// BOUND: count, sum, min, max, range and mean for argument and result types int8, uint8, int32, int64, min, max and range also for float and double; sum and mean of doubles for 2 values (thorough 3); checked sums of 4 values, checked counts up to 255
// ASSUME: floats: no NaN. Results that the result type cannot represent (sum, range) are outside the property, except through the checked versions of sum and count, which have to report them
#include "common.h"
#include "fern/algorithm/accumulator/count.h"
#include "fern/algorithm/accumulator/sum.h"
#include "fern/algorithm/accumulator/mean.h"
#include "fern/algorithm/accumulator/min.h"
#include "fern/algorithm/accumulator/max.h"
#include "fern/algorithm/accumulator/range.h"
#include "fern/algorithm/algebra/elementary/add.h"
namespace ac = fa::accumulator;
template<class T> using Wide = std::conditional_t<sizeof(T) <= 2, int32_t, std::conditional_t<sizeof(T) == 4, int64_t, i128>>;
template<class R> bool fits(Wide<R> v) { return both(v >= (Wide<R>)std::numeric_limits<R>::min(), v <= (Wide<R>)std::numeric_limits<R>::max()); }
// add values [b, e) to an accumulator; start: 0 default construct and add, 1 construct with the first, 2 assign the first over an earlier value
template<class A, class T> A fill(T const* v, size_t b, size_t e, int start)
{
    if (b == e) return A();
    A a = start == 1 ? A(v[b]) : A();
    if (start == 0) a(v[b]); else if (start == 2) { a(v[b]); a(v[e - 1]); a = v[b]; }
    for (size_t i = b + 1; i < e; ++i) a(v[i]);
    return a;
}
// the values divided over two accumulators that are merged with | or |=
struct How { size_t cut, how; int start; };
inline How how(size_t n, int starts = 3) { How h; h.cut = fs_choose("cut", n + 1); h.how = h.cut == n ? 0 : 1 + fs_choose("merge", 2); h.start = static_cast<int>(fs_choose("start", starts)); return h; }
template<class A, class T> A gather(T const* v, size_t n, How h)
{
    A a = fill<A>(v, 0, h.cut, h.start);
    if (h.how == 0) return a;
    A b = fill<A>(v, h.cut, n, (h.start + 1) % 3);
    if (h.how == 1) { A c = a | b; return c; }
    a |= b; return a;
}
template<class T> void no_nan(T const* v, size_t n) { if constexpr (std::is_floating_point<T>::value) for (size_t i = 0; i < n; ++i) fs_assume(!std::isnan(v[i])); }
template<class T, class R, size_t N> void extremes()
{
    fs_merge(1); T v[N]; for (auto& x : v) x = sym<T>("v"); no_nan(v, N); size_t n = 1 + fs_choose("n", N);
    T lo = v[0], hi = v[0]; for (size_t i = 1; i < n; ++i) { lo = v[i] < lo ? v[i] : lo; hi = hi < v[i] ? v[i] : hi; }
    int what = static_cast<int>(fs_choose("what", 3));
    if (what == 0) { auto a = gather<ac::Min<T, R>>(v, n, how(n)); fs_assert(a() == static_cast<R>(lo), "minimum of the values added and merged"); }
    else if (what == 1) { auto a = gather<ac::Max<T, R>>(v, n, how(n)); fs_assert(a() == static_cast<R>(hi), "maximum of the values added and merged"); }
    else {
        auto a = gather<ac::Range<T, R>>(v, n, how(n)); R r = a(); observe("r", static_cast<R>(r));
        if constexpr (std::is_integral<T>::value && std::is_integral<R>::value) { typedef Wide<R> W; typedef Wide<T> WT; W d = static_cast<W>(static_cast<WT>(hi) - static_cast<WT>(lo)); if (sizeof(W) >= sizeof(WT)) fs_assert(implies(fits<R>(d), (W)r == d), "range of the values added and merged"); }
        else { R d = static_cast<R>(hi) - static_cast<R>(lo); fs_assert(either(std::isnan(d), r == d), "range of the values added and merged"); }
    }
    fs_reach("end");
}
template<class T, class R, size_t N> void totals()
{
    T v[N]; for (auto& x : v) x = sym<T>("v"); size_t n = 1 + fs_choose("n", N); int what = static_cast<int>(fs_choose("what", 3));
    typedef Wide<R> W; W sum = 0; for (size_t i = 0; i < n; ++i) sum += v[i];
    if (what == 0) { auto a = gather<ac::Count<T, R>>(v, n, how(n)); fs_assert(a() == static_cast<R>(n), "number of values added and merged"); }
    else if (what == 1) { auto a = gather<ac::Sum<T, R>>(v, n, how(n)); R r = a(); fs_assert(implies(fits<R>(sum), (W)r == sum), "sum of the values added and merged"); observe("sum", r); }
    else {
        fs_assume(fits<R>(sum)); auto a = gather<ac::Mean<T, R>>(v, n, how(n)); W q = a(), k = static_cast<W>(n);
        if (n == 1) fs_assert(q == sum, "mean of one value");
        else fs_assert(either(both(sum >= 0, both(q * k <= sum, sum < (q + 1) * k)), both(sum <= 0, both(q * k >= sum, sum > (q - 1) * k))), "mean of the values added and merged, truncated towards zero");
    }
    fs_reach("end");
}
// the versions with a range check: false is returned exactly when the value is not right anymore
template<class T, class R> void checked()
{
    typedef Wide<R> W; T v[4]; for (auto& x : v) x = sym<T>("v"); size_t cut = fs_choose("cut", 4); ac::Sum<T, R> a, b; W sa = 0, sb = 0; bool ok = true;
    for (size_t i = 0; i < cut; ++i) { bool in = a.template operator()<fa::add::OutOfRangePolicy>(v[i]); sa += v[i]; fs_assert(implies(ok, in == fits<R>(sa)), "adding tells whether the sum is within range"); ok = both(ok, in); }
    for (size_t i = cut; i < 4; ++i) { bool in = b.template operator()<fa::add::OutOfRangePolicy>(v[i]); sb += v[i]; ok = both(ok, in); }
    fs_assume(ok);
    bool in = a.template operator|=<fa::add::OutOfRangePolicy>(b);
    fs_assert(in == fits<R>(sa + sb), "merging sums tells whether the sum is within range");
    fs_assert(implies(in, (W)a() == sa + sb), "the sum of merged sums"); observe("s", a());
    fs_reach("end");
}
template<class R> void checked_count()
{
    typedef Wide<R> W; size_t na = 1 + fs_choose("na", 3) * 63, nb = fs_choose("nb", 3) * 64;
    ac::Count<R, R> a, b; R v = sym<R>("v"); bool ok = true;
    for (size_t i = 0; i < na; ++i) { ok = a.template operator()<fa::add::OutOfRangePolicy>(v); fs_assert(ok == fits<R>((W)(i + 1)), "counting tells whether the count is within range"); if (!ok) return; }
    for (size_t i = 0; i < nb; ++i) { ok = b.template operator()<fa::add::OutOfRangePolicy>(v); if (!ok) return; }
    bool in = a.template operator|=<fa::add::OutOfRangePolicy>(b);
    fs_assert(in == fits<R>((W)(na + nb)), "merging counts tells whether the count is within range");
    if (in) fs_assert((W)a() == (W)(na + nb), "the count of merged counts");
    fs_reach("end");
}
#define E(n, T, R, N) UNIT(extremes_##n) { extremes<T, R, N>(); } UNIT_THOROUGH(extremes6_##n) { extremes<T, R, N + 2>(); }
E(i8, int8_t, int8_t, 4) E(u8_i32, uint8_t, int32_t, 4) E(i32, int32_t, int32_t, 3) E(i8_i64, int8_t, int64_t, 3) E(i64, int64_t, int64_t, 3) E(f64, double, double, 2) E(f32, float, float, 3)
#define S(n, T, R, N) UNIT(totals_##n) { totals<T, R, N>(); } UNIT_THOROUGH(totals6_##n) { totals<T, R, N + 2>(); }
S(i8, int8_t, int8_t, 4) S(u8_i32, uint8_t, int32_t, 4) S(i32, int32_t, int32_t, 3) S(i8_i64, int8_t, int64_t, 3) S(i64, int64_t, int64_t, 2)
UNIT(checked_i8) { checked<int8_t, int8_t>(); } UNIT(checked_i32) { checked<int32_t, int32_t>(); } UNIT(checked_i8_i32) { checked<int8_t, int32_t>(); } UNIT(checked_u8) { checked<uint8_t, uint8_t>(); } UNIT(checked_i64) { checked<int64_t, int64_t>(); }
UNIT(checked_count_i8) { checked_count<int8_t>(); } UNIT(checked_count_u8) { checked_count<uint8_t>(); } UNIT(checked_count_i32) { checked_count<int32_t>(); }
// floats: the IEEE left fold; the sum of a second accumulator is added as a whole
template<size_t N> void totals_float()
{
    fs_merge(0); double v[N]; for (auto& x : v) x = sym<double>("v"); size_t cut = fs_choose("cut", N + 1); int what = static_cast<int>(fs_choose("what", 2)), how = static_cast<int>(fs_choose("how", 2));
    auto go = [&](auto a, auto b) { for (size_t i = 0; i < cut; ++i) a(v[i]); for (size_t i = cut; i < N; ++i) b(v[i]); if (how == 0) a |= b; else a = a | b; return a(); };
    double sa = 0, sb = 0; for (size_t i = 0; i < cut; ++i) sa += v[i]; for (size_t i = cut; i < N; ++i) sb += v[i]; double s = sa + sb;
    double r = what == 0 ? go(ac::Sum<double>(), ac::Sum<double>()) : go(ac::Mean<double>(), ac::Mean<double>()), want = what == 0 ? s : s / N;
    fs_assert(either(r == want, std::isnan(want)), "sum (mean) of floats"); observe("r", r); fs_reach("end");
}
UNIT(totals_f64) { totals_float<2>(); } UNIT_THOROUGH(totals3_f64) { totals_float<3>(); }
// the mean of integers with a floating point result is not truncated
UNIT(mean_i8_f64)
{
    fs_merge(0); int8_t v[3]; for (auto& x : v) x = sym<int8_t>("v"); How h = how(3);
    double r = gather<ac::Mean<int8_t, double>>(v, 3, h)(), s = gather<ac::Sum<int8_t, double>>(v, 3, h)();
    fs_assert(same(r, s / 3.0), "mean of integers as a float"); fs_reach("end");
}
