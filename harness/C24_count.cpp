// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: scalars, 1d collections of 0, 1, 3 and 5 cells and 2d collections of 1x3, 2x2, 3x2 and 4x1 cells, and without cells (0x3, 3x0); thorough: 7 and 4x3 cells; all values, masks and prior results
// BOUND: value types uint8, int32, int64, float and double, result types uint64, int32 and uint8; sequential, parallel (2 threads, one schedule; C04 varies schedules) and run-time selected execution policies
#include "common.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/algorithm/statistic/count.h"
template<class V, class R, int D, size_t X, size_t Y> void count(int which)
{
    typedef Shaped<D, V, X, Y> S; constexpr size_t N = S::cells; fs_merge(1);
    auto a = S::make(); fill_sym(a, "a"); V v = sym<V>("v"); R r = sym<R>("r"), r0 = r;
    Mask<(N ? N : 1)> ma(S::cols); ma.fill("mask"); fa::InputNoDataPolicies<In, fa::SkipNoData> ip{ma.in(), {}};
    uint8_t out = 0; Out op{&out, 1, 1};
    with_policy(which, [&](auto& e) { fa::statistic::count(ip, op, e, a, v, r); });
    bool any = false; R n = 0, all = 0;
    for (size_t i = 0; i < N; ++i) { bool eq = at(a, i) == v; any = either(any, !ma[i]); n += static_cast<R>(both(!ma[i], eq)); all += static_cast<R>(eq); }
    fs_assert(out == (any ? 0 : 1), "the count is no-data exactly when no cell has data");
    fs_assert(implies(any, r == n), "the result is the number of cells with data that equal the value");
    if (D == 0 || which == 0) fs_assert(implies(!any, r == r0), "without any data the result keeps its value");
    observe("out", out);
    R p = 77; with_policy(which, [&](auto& e) { fa::statistic::count(e, a, v, p); });
    if (N) fs_assert(p == all, "without no-data all cells count"); else fs_assert(p == 77, "without cells the result keeps its value");
    fs_reach("end");
}
#define P4 static_cast<int>(fs_choose("policy", 4))
UNIT(d0_i32) { count<int32_t, uint64_t, 0, 1, 1>(P4); } UNIT(d0_f64) { count<double, int32_t, 0, 1, 1>(P4); }
UNIT(d1_0) { count<int32_t, uint64_t, 1, 0, 0>(P4); } UNIT(d1_1) { count<uint8_t, uint8_t, 1, 1, 1>(P4); } UNIT(d1_3) { count<int64_t, uint64_t, 1, 3, 1>(P4); } UNIT(d1_5) { count<int32_t, int32_t, 1, 5, 1>(P4); } UNIT(d1_4_f64) { count<double, uint64_t, 1, 4, 1>(P4); }
UNIT(d2_13) { count<int32_t, uint64_t, 2, 1, 3>(P4); } UNIT(d2_22) { count<float, uint64_t, 2, 2, 2>(P4); } UNIT(d2_32) { count<int32_t, uint64_t, 2, 3, 2>(P4); } UNIT(d2_41) { count<uint8_t, int32_t, 2, 4, 1>(P4); } UNIT(d2_03) { count<int32_t, uint64_t, 2, 0, 3>(P4); } UNIT(d2_30) { count<int32_t, uint64_t, 2, 3, 0>(P4); }
UNIT_THOROUGH(d1_7) { count<int32_t, uint64_t, 1, 7, 1>(P4); } UNIT_THOROUGH(d2_43) { count<int32_t, uint64_t, 2, 4, 3>(P4); }
// the library's own masked values and policies
template<size_t X, size_t Y> void masked(int which)
{
    fs_merge(1); fern::MaskedArray<int32_t, 2> a(fern::extents[X][Y]); fern::MaskedScalar<uint64_t> r(sym<uint64_t>("r")); uint64_t r0 = r.value(); int32_t v = sym<int32_t>("v");
    uint64_t n = 0; bool any = false;
    for (size_t i = 0; i < X * Y; ++i) { a.data()[i] = sym<int32_t>("a"); bool m = sym<bool>("mask"); a.mask().data()[i] = m; any = either(any, !m); n += both(!m, a.data()[i] == v); }
    typedef fa::InputNoDataPolicies<fa::DetectNoDataByValue<fern::Mask<2>>, fa::SkipNoData> IP; fa::MarkNoDataByValue<bool> op(r.mask(), true);
    with_policy(which, [&](auto& e) { fa::statistic::count(IP{{a.mask(), true}, {}}, op, e, a, v, r); });
    fs_assert(r.mask() == !any, "the count of a masked array is masked exactly when no cell has data");
    fs_assert(implies(any, r.value() == n), "the count of a masked array is the number of unmasked cells that equal the value");
    if (which == 0) fs_assert(implies(!any, r.value() == r0), "without any data the result keeps its value");
    observe("m", r.mask()); fs_reach("end");
}
UNIT(masked_22) { masked<2, 2>(P4); } UNIT(masked_32) { masked<3, 2>(P4); }
