// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: 1d collections of 0, 1, 3, 4 and 6 cells and 2d collections of 2x2, 3x2, 4x1 and 1x3 cells (thorough: 9 and 5x2); all values, masks and prior result contents; value types int32, uint8 and double
// BOUND: sequential, parallel (2 and 3 threads, one schedule; C04 varies schedules) and run-time selected execution policies
// ASSUME: result of compressing as large as the value (documented)
#include "common.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/decompress.h"
template<class F> void with_policy5(int which, F f)
{
    if (which < 4) with_policy(which, f); else { fa::ParallelExecutionPolicy e(3); f(e); }
}
template<class V, int D, size_t X, size_t Y> void compress(int which)
{
    typedef Shaped<D, V, X, Y> S; constexpr size_t N = S::cells; fs_merge(1);
    auto a = S::make(); fill_sym(a, "a"); std::vector<V> c(N); fill_sym(c, "c");
    Mask<(N ? N : 1)> ma(S::cols); ma.fill("mask"); fa::InputNoDataPolicies<In> ip{ma.in()};
    size_t count = static_cast<size_t>(sym<uint64_t>("count"));
    with_policy5(which, [&](auto& e) { fa::core::compress(ip, e, a, c, count); });
    size_t expected = 0; for (size_t i = 0; i < N; ++i) expected += ma[i] ? 0 : 1;
    fs_assert(count == expected, "compress counts the cells that are not no-data");
    for (size_t k = 0; k < N; ++k) for (size_t i = k; i < N; ++i) {
        // cell i is the k-th with data
        size_t before = 0; for (size_t j = 0; j < i; ++j) before += ma[j] ? 0 : 1;
        fs_assert(implies(both(!ma[i], before == k), same(at(c, k), at(a, i))), "compressing keeps the values with data, in order");
    }
    // the way back
    auto r = S::make(); fill_sym(r, "r"); auto r0(r); Mask<(N ? N : 1)> om(S::cols); Out op = om.out();
    with_policy(which & 3, [&](auto& e) { fa::core::decompress(ip, op, e, c, r); });
    for (size_t i = 0; i < N; ++i) {
        V av = at(a, i), prior = at(r0, i);
        fs_assert(same(at(r, i), ma[i] ? prior : av), "decompressing a compressed collection restores every value and leaves other cells alone");
        fs_assert(om[i] == ma[i], "decompressing marks exactly the cells that were no-data"); observe("m", om[i]);
    }
    uint16_t count1 = 77; with_policy5(which, [&](auto& e) { fa::core::compress(e, a, c, count1); });
    fs_assert(count1 == N, "without no-data all cells are counted");
    for (size_t i = 0; i < N; ++i) fs_assert(same(at(c, i), at(a, i)), "without no-data compressing copies every cell");
    auto p = S::make(); with_policy(which & 3, [&](auto& e) { fa::core::decompress(e, c, p); });
    for (size_t i = 0; i < N; ++i) fs_assert(same(at(p, i), at(a, i)), "without no-data decompressing copies every cell");
    fs_reach("end");
}
#define P5 static_cast<int>(fs_choose("policy", 5))
UNIT(d1_0) { compress<int32_t, 1, 0, 0>(P5); } UNIT(d1_1) { compress<int32_t, 1, 1, 1>(P5); } UNIT(d1_3) { compress<uint8_t, 1, 3, 1>(P5); } UNIT(d1_4) { compress<int32_t, 1, 2, 2>(P5); } UNIT(d1_6) { compress<double, 1, 3, 2>(P5); }
UNIT(d2_22) { compress<int32_t, 2, 2, 2>(P5); } UNIT(d2_32) { compress<int32_t, 2, 3, 2>(P5); } UNIT(d2_41) { compress<double, 2, 4, 1>(P5); } UNIT(d2_13) { compress<uint8_t, 2, 1, 3>(P5); }
UNIT_THOROUGH(d1_9) { compress<int32_t, 1, 3, 3>(P5); } UNIT_THOROUGH(d2_52) { compress<int32_t, 2, 5, 2>(P5); } UNIT_THOROUGH(d2_43) { compress<int32_t, 2, 4, 3>(P5); }
