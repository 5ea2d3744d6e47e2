// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: masked rasters of 2x2 to 4x3 cells of 64 bit floating point numbers (the only type these algorithms compile for)
// BOUND: all cell values, cell sizes whose product is not zero, fractions and prior results; all masks of rasters of up to 9 cells and of 6 cells of larger ones; overflow is considered in every cell, one at a time
// BOUND: sequential, parallel (2 threads, one schedule) and run-time selected execution policies; library no-data policies, and the overloads without no-data
// ASSUME: the raster has at least 2 rows and columns (asserted by the code); values are summed in the order the code sums them; overloads without no-data: no intermediate result overflows
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "common.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "fern/algorithm/algebra/vector/laplacian.h"
#include "fern/algorithm/algebra/vector/lax.h"
template<size_t X, size_t Y, class V, bool Lax, bool NoData> void check(int which, unsigned masked)
{
    fs_merge(2); constexpr size_t N = X * Y; size_t cell = fs_choose("cell", NoData ? N : 1); double cw = sym<double>("width"), ch = sym<double>("height"); V f = sym<V>("fraction");
    if (!Lax) fs_require(cw * ch != 0);
    typename fern::MaskedRaster<V, 2>::Transformation t{{0, cw, 0, ch}}; fern::MaskedRaster<V, 2> a(fern::extents[X][Y], t), d(fern::extents[X][Y], t);
    V v[N], q[N]; bool m[N], ok[N]; for (size_t i = 0; i < N; ++i) { a.data()[i] = v[i] = sym<V>("a"); d.data()[i] = sym<V>("r"); m[i] = NoData && (masked >> i & 1) ? !fs_split(!sym<bool>("mask")) : false; a.mask().data()[i] = m[i]; }
    V const k[3][3] = {{2, 3, 2}, {3, 0, 3}, {2, 3, 2}};
    for (long i = 0; i < (long)N; ++i) if (!m[i]) {
        long r = i / Y, c = i % Y; double s = 0, n = 0; ok[i] = false;
        for (long y = r - 1; y <= r + 1; ++y) for (long x = c - 1; x <= c + 1; ++x) if (y >= 0 && x >= 0 && y < (long)X && x < (long)Y && (y != r || x != c) && !m[y * Y + x]) { V w = k[y - r + 1][x - c + 1]; s += v[y * Y + x] * w; n += w; }
        if (n == 0) continue;
        auto check1 = [&](bool b) { if (i == (long)cell && NoData) return fs_split(b); fs_require(b); return true; };
        if (!check1(std::isfinite(static_cast<V>(s)))) continue;
        if (Lax) {
            V p1 = f * static_cast<V>(s / n); if (!check1(std::isfinite(p1))) continue;
            V p2 = (1.0 - f) * v[i]; if (!check1(std::isfinite(p2))) continue;
            q[i] = p2 + p1;
        } else {
            V p = static_cast<V>(n) * v[i]; if (!check1(std::isfinite(p))) continue;
            V e = static_cast<V>(s) - p; if (!check1(std::isfinite(e))) continue;
            q[i] = e / (cw * ch);
        }
        ok[i] = check1(std::isfinite(q[i]));
    }
    typedef fa::InputNoDataPolicies<fa::DetectNoDataByValue<fern::Mask<2>>> I; typedef fa::MarkNoDataByValue<fern::Mask<2>> O; O op(d.mask(), true);
    with_policy(which, [&](auto& e) {
        if constexpr (Lax) { if constexpr (NoData) fa::algebra::lax(I{{a.mask(), true}}, op, e, a, f, d); else fa::algebra::lax(e, a, f, d); }
        else if constexpr (NoData) fa::algebra::laplacian<fa::laplacian::OutOfRangePolicy>(I{{a.mask(), true}}, op, e, a, d); else fa::algebra::laplacian(e, a, d); });
    for (size_t i = 0; i < N; ++i) {
        bool nd = d.mask().data()[i]; observe("m", nd);
        if (m[i]) { fs_assert(nd, "a no-data cell is no-data in the result"); continue; }
        if (ok[i]) fs_assert(same(d.data()[i], q[i]), "the weighted sum of the neighbours with data against the cell itself");
        fs_assert(nd == !ok[i], "exactly a cell without neighbours with data, or whose calculation overflows, is marked as no-data");
    }
    fs_reach("end");
}
#define P4 static_cast<int>(fs_choose("policy", 4))
#define P2 3 * static_cast<int>(fs_choose("policy", 2))
UNIT(laplacian_22) { check<2, 2, double, false, true>(P4, 15); }
UNIT(laplacian_23) { check<2, 3, double, false, true>(P2, 63); }
UNIT(laplacian_32) { check<3, 2, double, false, true>(P2, 63); }
UNIT(laplacian_33) { check<3, 3, double, false, true>(0, 0x1ff); }
UNIT(laplacian_43) { check<4, 3, double, false, true>(3, 0x897); }
UNIT(lax_22) { check<2, 2, double, true, true>(P4, 15); }
UNIT(lax_23) { check<2, 3, double, true, true>(P2, 63); }
UNIT(lax_32) { check<3, 2, double, true, true>(P2, 63); }
UNIT(lax_33) { check<3, 3, double, true, true>(0, 0x1ff); }
UNIT(lax_34) { check<3, 4, double, true, true>(3, 0x897); }
UNIT(all) { switch (fs_choose("kind", 4)) { case 0: check<3, 3, double, false, false>(P4, 0); break; case 1: check<2, 4, double, false, false>(P4, 0); break; case 2: check<3, 3, double, true, false>(P4, 0); break; default: check<4, 2, double, true, false>(P4, 0); } }
UNIT_THOROUGH(laplacian_44) { check<4, 4, double, false, true>(3, 0xc937); }
UNIT_THOROUGH(lax_44) { check<4, 4, double, true, true>(3, 0xc937); }
