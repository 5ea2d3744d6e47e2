// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: 1d collections of 1 to 4 cells and none, 2d collections of 2x2, 3x2 and 1x3 cells (thorough: 7, 5x3); all values, masks and prior contents; all 32 and 64 bit offsets; with and without fill value
// BOUND: sequential, parallel (2 threads, one schedule; C04 varies schedules) and run-time selected execution policies
#include "common.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/algorithm/core/offset.h"
// every offset: one by one within the size of the collection, all larger ones at once
template<class O> O choose_offset(char const* name, size_t size)
{
    O o = sym<O>(name), n = static_cast<O>(size);
    switch (fs_choose("offset_kind", 3)) {
    case 0: fs_assume(both(o >= -n, o <= n)); o = static_cast<O>(fs_concretize(static_cast<uint64_t>(o))); break;
    case 1: fs_assume(o > n); break;
    default: fs_assume(o < -n);
    }
    return o;
}
template<class O, int D, size_t X, size_t Y> void offset(int which)
{
    typedef Shaped<D, int16_t, X, Y> S; constexpr size_t N = S::cells; fs_merge(1);
    auto a = S::make(); auto r = S::make(); fill_sym(a, "a"); fill_sym(r, "r"); auto r0(r), rf(r), rp(r), rpf(r); int16_t fill = sym<int16_t>("fill");
    Mask<(N ? N : 1)> ma(S::cols), om(S::cols), of(S::cols); ma.fill("mask_a"); fa::InputNoDataPolicies<In> ip{ma.in()}; Out op = om.out(), opf = of.out();
    constexpr size_t W = D == 2 ? Y : X * Y, H = N ? N / W : 0;
    fern::Point<O, D> o; std::get<0>(o) = choose_offset<O>("offset_0", D == 2 ? H : W); if constexpr (D == 2) std::get<1>(o) = choose_offset<O>("offset_1", W);
    with_policy(which, [&](auto& e) { fa::core::offset(ip, op, e, a, o, r); fa::core::offset(ip, opf, e, a, o, fill, rf); fa::core::offset(e, a, o, rp); fa::core::offset(e, a, o, fill, rpf); });
    i128 dj = static_cast<i128>(std::get<D - 1>(o)), di = D == 2 ? static_cast<i128>(std::get<0>(o)) : 0;
    for (size_t i = 0; i < H; ++i) for (size_t j = 0; j < W; ++j) {
        size_t k = i * W + j; int16_t prior = at(r0, k);
        int16_t v = 0; bool src = false, nd = false;
        for (size_t x = 0; x < H; ++x) for (size_t y = 0; y < W; ++y) {
            bool here = both(static_cast<i128>(x) + di == static_cast<i128>(i), static_cast<i128>(y) + dj == static_cast<i128>(j));
            int16_t av = at(a, x * W + y); v = here ? av : v; src = either(src, here); nd = either(nd, both(here, ma[x * W + y] != 0));
        }
        fs_assert((om[k] != 0) == either(!src, nd), "a cell without a source cell, or with one that is no-data, is marked as no-data");
        fs_assert(at(r, k) == (both(src, !nd) ? v : prior), "a cell gets the value of the cell it is offset from");
        fs_assert((of[k] != 0) == nd, "with a fill value: a cell is marked exactly when its source cell is no-data");
        fs_assert(at(rf, k) == (src ? (nd ? prior : v) : fill), "with a fill value: cells without source cell get the fill value");
        fs_assert(at(rp, k) == (src ? v : prior), "without no-data: a cell gets the value of the cell it is offset from");
        fs_assert(at(rpf, k) == (src ? v : fill), "without no-data, with a fill value: cells without source cell get the fill value");
        observe("m", om[k]);
    }
    fs_reach("end");
}
#define P4 static_cast<int>(fs_choose("policy", 4))
UNIT(d1_0) { offset<int32_t, 1, 0, 1>(P4); } UNIT(d1_1) { offset<int64_t, 1, 1, 1>(P4); } UNIT(d1_3) { offset<int32_t, 1, 3, 1>(P4); } UNIT(d1_4) { offset<int64_t, 1, 2, 2>(P4); }
UNIT(d2_22) { offset<int32_t, 2, 2, 2>(P4); } UNIT(d2_32) { offset<int32_t, 2, 3, 2>(P4); } UNIT(d2_13) { offset<int64_t, 2, 1, 3>(P4); }
UNIT_THOROUGH(d1_7) { offset<int32_t, 1, 7, 1>(P4); } UNIT_THOROUGH(d2_53) { offset<int32_t, 2, 5, 3>(P4); }
