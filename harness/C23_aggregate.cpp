// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: scalars, 1d collections of 0, 1, 3 and 5 cells and 2d collections of 1x3, 2x2, 3x2 and 4x1 cells, and 2d collections without cells (0x3, 3x0); thorough: 7 and 5x2 cells; all values, masks and prior results
// BOUND: value types int8, uint8, int32, int64 and uint32, float and double (sums and means of floats: up to 2 cells with data per thread, thorough 3); sequential, parallel (2 threads, one schedule; C04 varies schedules) and run-time selected execution policies
// BOUND: the mean of an 8 bit collection of 256 cells with 3 symbolic values
// ASSUME: minimum and maximum of floats: no NaN
// ASSUME: sums: a representable result has to be unmarked when the sums of all runs of consecutive cells are representable; otherwise it is either right or marked
#include "common.h"
#include <type_traits>
#include "fern/algorithm/statistic/sum.h"
#include "fern/algorithm/statistic/mean.h"
#include "fern/algorithm/statistic/unary_min.h"
#include "fern/algorithm/statistic/unary_max.h"
template<class V> using Wide = std::conditional_t<sizeof(V) == 1, int32_t, std::conditional_t<sizeof(V) == 4, int64_t, i128>>; // exact sums
template<class T> bool fits(Wide<T> v) { return both(v >= (Wide<T>)std::numeric_limits<T>::min(), v <= (Wide<T>)std::numeric_limits<T>::max()); }
// what: 0 sum, 1 mean
template<class V, int D, size_t X, size_t Y> void total(int what, int which)
{
    typedef Shaped<D, V, X, Y> S; constexpr size_t N = S::cells; fs_merge(0);
    auto a = S::make(); fill_sym(a, "a"); V r = sym<V>("r"), r0 = r;
    Mask<(N ? N : 1)> ma(S::cols); ma.fill("mask"); fa::InputNoDataPolicies<In> ip{ma.in()};
    uint8_t out = 0; Out op{&out, 1, 1};
    with_policy(which, [&](auto& e) {
        if (what == 0) fa::statistic::sum<fa::sum::OutOfRangePolicy>(ip, op, e, a, r);
        else fa::statistic::mean<fa::mean::OutOfRangePolicy>(ip, op, e, a, r);
    });
    for (size_t i = 0; i < N; ++i) ma.m[i] = static_cast<uint8_t>(fs_concretize(ma.m[i])); // one path per mask
    bool any = false; size_t n = 0; for (size_t i = 0; i < N; ++i) { any = either(any, !ma[i]); n += ma[i] ? 0 : 1; }
    if constexpr (std::is_integral<V>::value) {
        typedef Wide<V> W_;
        W_ sum = 0; bool runs = true; // every sum of consecutive cells is representable
        for (size_t k = 0; k < N; ++k) { W_ run = 0; for (size_t i = k; i < N; ++i) { run += ma[i] ? (W_)0 : (W_)at(a, i); runs = both(runs, fits<V>(run)); } if (k == 0) sum = run; }
        fs_assert(implies(!any, both(out == 1, r == r0)), "without any data the result is no-data and keeps its value");
        fs_assert(implies(both(any, !fits<V>(sum)), out == 1), "a sum that is not representable is marked as no-data");
        if (what == 0) fs_assert(implies(both(any, runs), out == 0), "a sum of which every partial sum is representable is not marked as no-data");
        if (what == 0) fs_assert(implies(out == 0, (W_)r == sum), "the result is the exact sum of the cells with data");
        else {
            // r is sum / n truncated towards zero
            for (size_t k = 1; k <= N; ++k) { // 64 bit: avoid symbolic division
                W_ q = r; bool ok = either(either(both(sum >= 0, both(q * (W_)k <= sum, sum < (q + 1) * (W_)k)), both(sum <= 0, both(q * (W_)k >= sum, sum > (q - 1) * (W_)k))), false);
                fs_assert(implies(both(out == 0, n == k), ok), "the result is the mean of the cells with data, truncated towards zero");
            }
        }
    } else {
        V sum = 0; for (size_t i = 0; i < N; ++i) { V x = at(a, i); if (which & 1) x = V(0) + x; /* a thread of its own */ sum = ma[i] ? sum : sum + x; }
        V want = sum; if (what == 1) { want = 0; for (size_t k = 1; k <= N; ++k) want = n == k ? sum / static_cast<V>(k) : want; }
        bool fin = std::isfinite(sum) ;
        fs_assert(implies(!any, both(out == 1, same(r, r0))), "without any data the result is no-data and keeps its value");
        fs_assert(implies(any, (out == 0) == fin), "exactly a sum that is not finite is marked as no-data");
        fs_assert(implies(out == 0, r == want), "the result is the IEEE sum (or mean) of the cells with data");
    }
    observe("out", out);
    V p = sym<V>("p"); fa::InputNoDataPolicies<fa::SkipNoData> sp{{}}; uint8_t o2 = 0; Out op2{&o2, 1, 1};
    with_policy(which & 1, [&](auto& e) { if (what == 0) { fa::statistic::sum(e, a, p); } else if (N) { fa::statistic::mean(e, a, p); } });
    if constexpr (std::is_integral<V>::value) if (N && what == 0) { uint64_t s = 0; for (size_t i = 0; i < N; ++i) s += static_cast<uint64_t>(at(a, i)); fs_assert(p == static_cast<V>(s), "the sum without policies"); }
    fs_reach("end");
}
// what: 0 min, 1 max
template<class V, int D, size_t X, size_t Y> void extreme(int what, int which)
{
    typedef Shaped<D, V, X, Y> S; constexpr size_t N = S::cells; fs_merge(1);
    auto a = S::make(); fill_sym(a, "a"); V r = sym<V>("r"), r0 = r;
    Mask<(N ? N : 1)> ma(S::cols); ma.fill("mask"); fa::InputNoDataPolicies<In> ip{ma.in()};
    if constexpr (std::is_floating_point<V>::value) for (size_t i = 0; i < N; ++i) fs_assume(!std::isnan(at(a, i)));
    uint8_t out = 0; Out op{&out, 1, 1};
    with_policy(which, [&](auto& e) { if (what == 0) fa::statistic::unary_min(ip, op, e, a, r); else fa::statistic::unary_max(ip, op, e, a, r); });
    bool any = false, found = false, bound = true;
    for (size_t i = 0; i < N; ++i) {
        V x = at(a, i); bool d = !ma[i]; any = either(any, d);
        found = either(found, both(d, x == r)); bound = both(bound, implies(d, what == 0 ? r <= x : r >= x));
    }
    fs_assert(out == (any ? 0 : 1), "the result is no-data exactly when no cell has data");
    fs_assert(implies(any, both(found, bound)), "the result is the smallest (largest) of the cells with data");
    fs_assert(implies(!any, same(r, r0)), "without any data the result keeps its value"); observe("out", out);
    if (N) {
        V p = sym<V>("p"); with_policy(which & 1, [&](auto& e) { if (what == 0) fa::statistic::unary_min(e, a, p); else fa::statistic::unary_max(e, a, p); });
        bool f = false, b = true; for (size_t i = 0; i < N; ++i) { f = either(f, at(a, i) == p); b = both(b, what == 0 ? p <= at(a, i) : p >= at(a, i)); }
        fs_assert(both(f, b), "the extreme value without policies");
    }
    fs_reach("end");
}
#define P4 static_cast<int>(fs_choose("policy", 4))
#define W static_cast<int>(fs_choose("what", 2))
#define P2 3 * static_cast<int>(fs_choose("policy", 2))
#define BOTH(n, V, D, X, Y) UNIT(total_##n) { total<V, D, X, Y>(W, P4); } UNIT(extreme_##n) { extreme<V, D, X, Y>(W, P4); }
#define BOTH_T(n, V, D, X, Y) UNIT_THOROUGH(total_##n) { total<V, D, X, Y>(W, P4); } UNIT_THOROUGH(extreme_##n) { extreme<V, D, X, Y>(W, P4); }
BOTH(d0_i32, int32_t, 0, 1, 1) BOTH(d0_f64, double, 0, 1, 1) BOTH(d1_0, int32_t, 1, 0, 0) BOTH(d1_1, uint8_t, 1, 1, 1) BOTH(d1_3_i64, int64_t, 1, 3, 1) BOTH(d1_5_i8, int8_t, 1, 5, 1)
BOTH(d2_13, int32_t, 2, 1, 3) UNIT(sum_d2_22) { total<uint32_t, 2, 2, 2>(0, P4); } UNIT(mean_d2_22) { total<uint32_t, 2, 2, 2>(1, P2); } UNIT(extreme_d2_22) { extreme<uint32_t, 2, 2, 2>(W, P4); } UNIT(sum_d2_32_s) { total<int8_t, 2, 3, 2>(0, 0); } UNIT(sum_d2_32_p) { total<int8_t, 2, 3, 2>(0, 3); } UNIT_THOROUGH(mean_d2_32) { total<int8_t, 2, 3, 2>(1, P2); } UNIT(extreme_d2_32) { extreme<int8_t, 2, 3, 2>(W, P4); } BOTH(d2_41, uint8_t, 2, 4, 1) BOTH(d2_03, int32_t, 2, 0, 3) BOTH(d2_30, int32_t, 2, 3, 0)
BOTH(d1_2_f64, double, 1, 2, 1) BOTH(d2_21_f32, float, 2, 2, 1)
UNIT(extreme_f32) { extreme<float, 2, 2, 2>(W, P4); }
BOTH_T(d1_7, int8_t, 1, 7, 1) BOTH_T(d2_52, int8_t, 2, 5, 2) BOTH_T(d2_32_i32, int32_t, 2, 3, 2)
UNIT_THOROUGH(total_d1_3_f32) { total<float, 1, 3, 1>(W, 2 * static_cast<int>(fs_choose("policy", 2))); }
UNIT_THOROUGH(extreme_f64) { extreme<double, 1, 5, 1>(W, P4); }
template<class V> void many(size_t n, int which)
{
    std::vector<V> a(n, V(0)); V s[3]; size_t p[3] = {0, n / 2, n - 1};
    i128 t = 0; for (int i = 0; i < 3; ++i) { s[i] = sym<V>("a"); fs_assume(both(s[i] <= 40, s[i] + 40 >= 0)); a[p[i]] = s[i]; t += s[i]; }
    V r = 99; uint8_t out = 0; Out op{&out, 1, 1}; fa::InputNoDataPolicies<fa::SkipNoData> ip{{}};
    with_policy(which, [&](auto& e) { fa::statistic::mean<fa::mean::OutOfRangePolicy>(ip, op, e, a, r); });
    fs_assert(both(out == 0, r == 0), "the mean of many small values"); // |t| < n
    fs_reach("end");
}
UNIT(many_i8_256) { many<int8_t>(256, P4); } UNIT(many_i8_200) { many<int8_t>(200, P4); } UNIT(many_u8_256) { many<uint8_t>(256, P4); }
