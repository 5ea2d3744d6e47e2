// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: scalars of every arithmetic type but bool (8 integer, 2 floating point) under a chosen execution policy; collections: argument ranks 0/1, 1/0, 1/1 (4 cells), 0/2, 2/0, 2/2 (2x2 and 2x3 cells) of int8, uint64 and double under all four execution policies (2 threads, one schedule; C04 varies schedules); all cell values, both no-data masks and prior results
// ASSUME: no value with data is NaN
#include "common.h"
#include "fern/algorithm/statistic/binary_min.h"
#include "fern/algorithm/statistic/binary_max.h"
template<class T> void no_nan(T v) { if constexpr (std::is_floating_point<T>::value) fs_assume(v == v); (void)v; }
template<class T, int DA, int DB, size_t X, size_t Y> void run(int which)
{
    fs_merge(1);
    constexpr int DR = DA > DB ? DA : DB;
    typedef Shaped<DA, T, X, Y> SA; typedef Shaped<DB, T, X, Y> SB; typedef Shaped<DR, T, X, Y> SR;
    typename SA::type a = SA::make(); typename SB::type b = SB::make(); typename SR::type lo = SR::make(), hi = SR::make(), lo2 = SR::make(), hi2 = SR::make();
    fill_sym(a, "a"); fill_sym(b, "b"); fill_sym(lo, "lo"); fill_sym(hi, "hi");
    for (size_t i = 0; i < SA::cells; ++i) no_nan<T>(at(a, i));
    for (size_t i = 0; i < SB::cells; ++i) no_nan<T>(at(b, i));
    auto lo0(lo); auto hi0(hi);
    Mask<SA::cells> ma(SA::cols); Mask<SB::cells> mb(SB::cols); Mask<SR::cells> ol(SR::cols), oh(SR::cols); ma.fill("mask_a"); mb.fill("mask_b"); ol.fill("marked"); Mask<SR::cells> ol0(ol);
    fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out ml = ol.out(), mh = oh.out();
    with_policy(which, [&](auto& e) {
        fa::statistic::binary_min(ip, ml, e, a, b, lo); fa::statistic::binary_max(ip, mh, e, a, b, hi);
        fa::statistic::binary_min(e, a, b, lo2); fa::statistic::binary_max(e, a, b, hi2);
    });
    for (size_t i = 0; i < SR::cells; ++i) {
        T x = at(a, ix<DA>(i)), y = at(b, ix<DB>(i)), l = at(lo, i), h = at(hi, i);
        bool nd = either(ma[ix<DA>(i)] != 0, mb[ix<DB>(i)] != 0);
        fs_assert(implies(!nd, both(either(l == x, l == y), both(l <= x, l <= y))), "the minimum is one of the two values and larger than neither");
        fs_assert(implies(!nd, both(either(h == x, h == y), both(h >= x, h >= y))), "the maximum is one of the two values and smaller than neither");
        fs_assert(implies(nd, both(same(l, at(lo0, i)), same(h, at(hi0, i)))), "a cell without both values keeps its previous value");
        fs_assert(both((ol[i] != 0) == either(nd, ol0[i] != 0), (oh[i] != 0) == nd), "a cell is marked as no-data exactly when one of the values is");
        fs_assert(both(both(either(at(lo2, i) == x, at(lo2, i) == y), both(at(lo2, i) <= x, at(lo2, i) <= y)), both(either(at(hi2, i) == x, at(hi2, i) == y), both(at(hi2, i) >= x, at(hi2, i) >= y))), "without no-data policies every cell holds its minimum and maximum");
        observe("l", l); observe("h", h);
    }
    fs_reach("end");
}
#define S(n, T) UNIT(s_##n) { run<T, 0, 0, 1, 1>(static_cast<int>(fs_choose("policy", 4))); }
S(i8, int8_t) S(i16, int16_t) S(i32, int32_t) S(i64, int64_t) S(u8, uint8_t) S(u16, uint16_t) S(u32, uint32_t) S(u64, uint64_t) S(f32, float) S(f64, double)
#define C(n, T, DA, DB, X, Y) UNIT(c##DA##DB##_##n) { run<T, DA, DB, X, Y>(static_cast<int>(fs_choose("policy", 4))); }
C(i8, int8_t, 0, 1, 2, 2) C(u64, uint64_t, 1, 0, 2, 2) C(f64, double, 1, 1, 2, 2) C(i8, int8_t, 1, 1, 2, 2)
C(f64, double, 0, 2, 2, 2) C(i8, int8_t, 2, 0, 2, 2) C(u64, uint64_t, 2, 2, 2, 3) C(f64, double, 2, 2, 2, 2)
UNIT_THOROUGH(c22_big) { run<int32_t, 2, 2, 4, 3>(static_cast<int>(fs_choose("policy", 4))); }
UNIT_THOROUGH(c11_big) { run<float, 1, 1, 7, 1>(static_cast<int>(fs_choose("policy", 4))); }
