// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: masked rasters of 1 to 4 rows and 2 to 4 columns (gradient in x; thorough: 5) and of 2 to 4 rows and 1 to 4 columns (gradient in y; thorough: 5 rows), double and float
// BOUND: all cell values, cell sizes, prior results and masks
// BOUND: sequential, parallel (2 threads, one schedule) and run-time selected execution policies; library no-data policies, and the overload without no-data
// ASSUME: the raster has at least two cells in the direction of the gradient (asserted by the code)
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "common.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "fern/algorithm/algebra/vector/gradient.h"
template<size_t X, size_t Y, class V, bool InX, bool NoData> void check(int which)
{
    fs_merge(2); constexpr size_t N = X * Y; double cw = sym<double>("width"), ch = sym<double>("height");
    typename fern::MaskedRaster<V, 2>::Transformation t{{0, cw, 0, ch}}; fern::MaskedRaster<V, 2> a(fern::extents[X][Y], t), d(fern::extents[X][Y], t);
    V v[N], d0[N]; bool m[N], d1[N]; for (size_t i = 0; i < N; ++i) { a.data()[i] = v[i] = sym<V>("a"); d.data()[i] = d0[i] = sym<V>("r"); m[i] = NoData ? !fs_split(!sym<bool>("mask")) : false; d1[i] = sym<bool>("marked"); a.mask().data()[i] = m[i]; d.mask().data()[i] = d1[i]; }
    typedef fa::InputNoDataPolicies<fa::DetectNoDataByValue<fern::Mask<2>>> I; typedef fa::MarkNoDataByValue<fern::Mask<2>> O; O op(d.mask(), true);
    with_policy(which, [&](auto& e) {
        if constexpr (NoData) { if constexpr (InX) fa::algebra::gradient_x(I{{a.mask(), true}}, op, e, a, d); else fa::algebra::gradient_y(I{{a.mask(), true}}, op, e, a, d); }
        else if constexpr (InX) fa::algebra::gradient_x(e, a, d); else fa::algebra::gradient_y(e, a, d); });
    for (size_t r = 0; r < X; ++r) for (size_t c = 0; c < Y; ++c) {
        size_t i = r * Y + c, step = InX ? 1 : Y; bool nd = d.mask().data()[i]; V g = d.data()[i]; double size = InX ? cw : ch;
        bool before = (InX ? c > 0 : r > 0), after = (InX ? c + 1 < Y : r + 1 < X); if (before) before = !m[i - step]; if (after) after = !m[i + step];
        fs_assert(nd == (m[i] ? true : d1[i]), "exactly a no-data cell is marked as no-data");
        if (m[i]) { fs_assert(same(g, d0[i]), "a no-data cell keeps its value"); continue; }
        V w = before && after ? static_cast<V>((v[i + step] - v[i - step]) / (size + size)) : before ? static_cast<V>((v[i] - v[i - step]) / size) : after ? static_cast<V>((v[i + step] - v[i]) / size) : V(0);
        fs_assert(same(g, w), "difference of the neighbours with data, or of the cell itself and the one neighbour with data, divided by their distance");
        observe("m", nd);
    }
    fs_reach("end");
}
#define P4 static_cast<int>(fs_choose("policy", 4))
#define P2 3 * static_cast<int>(fs_choose("policy", 2))
UNIT(x_12) { check<1, 2, double, true, true>(P4); }
UNIT(x_22) { check<2, 2, double, true, true>(P4); }
UNIT(x_23) { check<2, 3, float, true, true>(P4); }
UNIT(x_33) { check<3, 3, double, true, true>(P2); }
UNIT(x_24) { check<2, 4, double, true, true>(P2); }
UNIT(x_42) { check<4, 2, double, true, true>(1); }
UNIT(y_21) { check<2, 1, double, false, true>(P4); }
UNIT(y_22) { check<2, 2, float, false, true>(P4); }
UNIT(y_32) { check<3, 2, double, false, true>(P4); }
UNIT(y_33) { check<3, 3, double, false, true>(P2); }
UNIT(y_42) { check<4, 2, double, false, true>(P2); }
UNIT(y_24) { check<2, 4, double, false, true>(1); }
UNIT(all) { switch (fs_choose("kind", 4)) { case 0: check<3, 3, double, true, false>(P4); break; case 1: check<2, 4, float, true, false>(P4); break; case 2: check<3, 3, float, false, false>(P4); break; default: check<4, 2, double, false, false>(P4); } }
UNIT(x_34) { check<3, 4, double, true, true>(3); }
UNIT(y_43) { check<4, 3, double, false, true>(3); }
UNIT_THOROUGH(x_35) { check<3, 5, double, true, true>(3); }
UNIT_THOROUGH(x_44) { check<4, 4, float, true, true>(1); }
UNIT_THOROUGH(y_44) { check<4, 4, float, false, true>(1); }
UNIT_THOROUGH(y_53) { check<5, 3, double, false, true>(3); }
