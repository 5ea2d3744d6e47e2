// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: masked rasters of 2x2 to 4x3 cells (thorough: 4x4), double and float
// BOUND: all cell values and prior results, all cell sizes that are not zero, all masks of rasters of up to 6 cells and of 4 or 5 cells of larger ones; overflow is considered in every cell, one at a time (all at a time for 2x2)
// BOUND: sequential, parallel (2 threads, one schedule) and run-time selected execution policies
// ASSUME: the raster has at least 2 rows and columns (asserted by the code); values are combined in the order the code combines them (values outside of the image first)
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "common.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "fern/algorithm/space/focal/slope.h"
#define P4 static_cast<int>(fs_choose("policy", 4))
#define P2 3 * static_cast<int>(fs_choose("policy", 2))
template<class V> V square(V x) { volatile V two = 2; return std::pow(x, static_cast<V>(two)); }
// average of the cells with data around a cell, inside or outside of the raster
template<class V, size_t X, size_t Y> bool around(V const* a, bool const* m, long r, long c, bool self, V& out)
{
    double s = 0; size_t n = 0;
    for (long i = r - 1; i <= r + 1; ++i) for (long j = c - 1; j <= c + 1; ++j) {
        if (i < 0 || j < 0 || i >= (long)X || j >= (long)Y || (!self && i == r && j == c)) continue;
        if (m[i * Y + j]) continue;
        s += a[i * Y + j]; ++n;
    }
    if (n) out = s / static_cast<V>(n);
    return n != 0;
}
// weighted sum of the values around a cell
template<class V, size_t X, size_t Y> V weigh(V const* a, bool const* m, long r, long c, V const (&w)[3][3])
{
    double s = 0; V v;
    for (long i = -1; i <= 1; ++i) for (long j = -1; j <= 1; ++j) {
        long y = r + i, x = c + j; if (y >= 0 && x >= 0 && y < (long)X && x < (long)Y) continue;
        if (w[i + 1][j + 1] != 0 && around<V, X, Y>(a, m, y, x, true, v)) s += v * w[i + 1][j + 1];
    }
    for (long i = -1; i <= 1; ++i) for (long j = -1; j <= 1; ++j) {
        long y = r + i, x = c + j; if (y < 0 || x < 0 || y >= (long)X || x >= (long)Y || w[i + 1][j + 1] == 0) continue;
        if (!m[y * Y + x]) s += a[y * Y + x] * w[i + 1][j + 1];
        else if (around<V, X, Y>(a, m, y, x, false, v)) s += v * w[i + 1][j + 1];
    }
    return s;
}
// Horn's kernels
template<class V> struct Horn { static constexpr V x[3][3] = {{1, 0, -1}, {2, 0, -2}, {1, 0, -1}}, y[3][3] = {{-1, -2, -1}, {0, 0, 0}, {1, 2, 1}}; };
#define WX Horn<V>::x
#define WY Horn<V>::y
// which: policy; masked: cells that may be no-data; first, last: cells for which overflow is considered
template<size_t X, size_t Y, class V> void check(int which, unsigned masked, size_t first, size_t last)
{
    fs_merge(2); constexpr size_t N = X * Y; double cw = sym<double>("width"), ch = sym<double>("height");
    fs_require(both(static_cast<V>(8 * cw) != 0, static_cast<V>(8 * ch) != 0));
    typename fern::MaskedRaster<V, 2>::Transformation t{{0, cw, 0, ch}}; fern::MaskedRaster<V, 2> a(fern::extents[X][Y], t), d(fern::extents[X][Y], t);
    V v[N], d0[N], q[N]; bool m[N], ok[N]; for (size_t i = 0; i < N; ++i) { a.data()[i] = v[i] = sym<V>("a"); d.data()[i] = d0[i] = sym<V>("r"); m[i] = (masked >> i & 1) ? !fs_split(!sym<bool>("mask")) : false; a.mask().data()[i] = m[i]; }
    for (size_t i = 0; i < N; ++i) if (!m[i]) {
        V sx = weigh<V, X, Y>(v, m, i / Y, i % Y, WX), sy = weigh<V, X, Y>(v, m, i / Y, i % Y, WY), dx = sx / static_cast<V>(8 * cw), dy = sy / static_cast<V>(8 * ch), px = square(dx), py = square(dy);
        q[i] = px + py; bool f[] = {std::isfinite(sx), std::isfinite(dx), std::isfinite(sy), std::isfinite(dy), std::isfinite(px), std::isfinite(py), std::isfinite(q[i])};
        ok[i] = true; for (bool b : f) { if (i < first || i > last) fs_require(b); else ok[i] = ok[i] && fs_split(b); }
    }
    typedef fa::InputNoDataPolicies<fa::DetectNoDataByValue<fern::Mask<2>>> I; typedef fa::MarkNoDataByValue<fern::Mask<2>> O; O op(d.mask(), true);
    with_policy(which, [&](auto& e) { fa::space::slope<fa::unary::DiscardRangeErrors>(I{{a.mask(), true}}, op, e, a, d); });
    for (size_t i = 0; i < N; ++i) {
        bool nd = d.mask().data()[i]; observe("m", nd);
        if (m[i]) { fs_assert(nd, "a no-data cell is no-data in the result"); continue; }
        fs_assert(nd == !ok[i], "exactly a slope that cannot be calculated without overflow is marked as no-data");
        if (ok[i]) fs_assert(same(d.data()[i], static_cast<V>(std::sqrt(q[i]))), "the slope: square root of the sum of the squares of the gradients in both directions");
    }
    fs_reach("end");
}
template<size_t X, size_t Y, class V> void one(int which, unsigned masked) { size_t cell = fs_choose("cell", X * Y); check<X, Y, V>(which, masked, cell, cell); }
UNIT(slope_22) { check<2, 2, double>(0, 15, 0, 3); }
UNIT(slope_22_f32) { one<2, 2, float>(P4, 15); }
UNIT(slope_23) { one<2, 3, double>(P2, 0x3f); }
UNIT(slope_32) { one<3, 2, float>(P2, 0x3f); }
UNIT(slope_33) { one<3, 3, double>(P2, 0x1b1); }
UNIT(slope_33_side) { one<3, 3, double>(0, 0x12e); }
UNIT(slope_34) { one<3, 4, double>(3, 0x861); }
UNIT(slope_43) { one<4, 3, double>(0, 0x861); }
// the defaults: everything has a value, no overflow
template<size_t X, size_t Y, class V> void defaults(int which)
{
    fs_merge(2); constexpr size_t N = X * Y; double cw = sym<double>("width"), ch = sym<double>("height"); fs_require(both(static_cast<V>(8 * cw) != 0, static_cast<V>(8 * ch) != 0));
    typename fern::MaskedRaster<V, 2>::Transformation t{{0, cw, 0, ch}}; fern::MaskedRaster<V, 2> a(fern::extents[X][Y], t), d(fern::extents[X][Y], t); V v[N], q[N]; bool m[N] = {};
    for (size_t i = 0; i < N; ++i) { a.data()[i] = v[i] = sym<V>("a"); d.data()[i] = sym<V>("r"); }
    for (size_t i = 0; i < N; ++i) {
        V sx = weigh<V, X, Y>(v, m, i / Y, i % Y, WX), sy = weigh<V, X, Y>(v, m, i / Y, i % Y, WY), dx = sx / static_cast<V>(8 * cw), dy = sy / static_cast<V>(8 * ch), px = square(dx), py = square(dy); q[i] = px + py;
        fs_require(both(both(both(std::isfinite(sx), std::isfinite(sy)), both(std::isfinite(dx), std::isfinite(dy))), both(both(std::isfinite(px), std::isfinite(py)), std::isfinite(q[i]))));
    }
    with_policy(which, [&](auto& e) { fa::space::slope(e, a, d); });
    for (size_t i = 0; i < N; ++i) { fs_assert(!d.mask().data()[i], "nothing is marked as no-data"); fs_assert(same(d.data()[i], static_cast<V>(std::sqrt(q[i]))), "the slope"); }
    fs_reach("end");
}
UNIT(defaults) { defaults<2, 3, double>(P4); }
UNIT_THOROUGH(slope_33_all) { one<3, 3, double>(P2, 0x1ff); }
UNIT_THOROUGH(slope_44) { one<4, 4, double>(P2, 0x8c21); }
