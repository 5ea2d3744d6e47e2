// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: kernels of radius 1 on images of 2x2 to 4x4 cells and of radius 2 on images of 4x4, 4x5 and 5x5 cells (thorough: 6x5); double and float images, kernels with double, float, int32 and bool weights
// BOUND: all cell values and prior results; all masks of images up to 3x3, all masks of 6 chosen cells of larger images; all combinations of the alternative, normalize, out of image and focus policies (replace focus only with skip or focal average alternatives); all weights of a 3x3 double kernel and of a 3x3 bool kernel, fixed weights otherwise
// BOUND: sequential, parallel (2 threads, one schedule) and run-time selected execution policies
// ASSUME: the image is at least twice the radius of the kernel in both directions (asserted by the code); values are summed in the order the code sums them (values outside of the image first): the result is compared with the IEEE evaluation in that order
#include "common.h"
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/policies.h"
#include "fern/algorithm/convolution/neighborhood.h"
#include "fern/algorithm/convolution/neighborhood/kernel.h"
#include "fern/algorithm/convolution/neighborhood/kernel_traits.h"
namespace cv = fa::convolve;
template<class A> struct IsReplace { static const bool value = false; };
template<> struct IsReplace<cv::ReplaceNoDataByFocalAverage> { static const bool value = true; };
template<> struct IsReplace<cv::ReplaceOutOfImageByFocalAverage> { static const bool value = true; };
template<> struct IsReplace<cv::DivideByWeights> { static const bool value = true; };
// average of the cells with data around a cell, inside or outside of the image
template<class V, size_t X, size_t Y, class M> bool around(fern::Array<V, 2> const& a, M const& m, long r, long c, bool self, V& out)
{
    double s = 0; size_t n = 0;
    for (long i = r - 1; i <= r + 1; ++i) for (long j = c - 1; j <= c + 1; ++j) {
        if (i < 0 || j < 0 || i >= (long)X || j >= (long)Y || (!self && i == r && j == c)) continue;
        if (m[i * Y + j]) continue;
        s += a.data()[i * Y + j]; ++n;
    }
    if (n) out = s / static_cast<V>(n);
    return n != 0;
}
template<class SV, class SW, class V, class W> void add(V v, W w, SV& s, SW& n) { if constexpr (std::is_same<W, bool>::value) { if (w) { s += v; n += 1; } } else { s += v * w; n += w; } }
template<class Alt, class Norm, class Ooi, class Focus, size_t X, size_t Y, class V, class K, class W> void check(int which, long R, K const& kernel, W const* w, unsigned masked)
{
    constexpr size_t N = X * Y; fern::Array<V, 2> a(fern::extents[X][Y]), d(fern::extents[X][Y]), d0(fern::extents[X][Y]); fill_sym(a, "a"); fill_sym(d, "r"); for (size_t i = 0; i < N; ++i) d0.data()[i] = d.data()[i];
    Mask<N> ma(Y), mo(Y); for (size_t i = 0; i < N; ++i) if (masked >> i & 1) ma.m[i] = static_cast<uint8_t>(fs_concretize(sym<bool>("mask")));
    fa::InputNoDataPolicies<In> ip{ma.in()}; Out op = mo.out();
    with_policy(which, [&](auto& e) { fa::convolution::convolve<Alt, Norm, Ooi, Focus, cv::OutOfRangePolicy>(ip, op, e, a, kernel, d); });
    long S = 2 * R + 1;
    for (long r = 0; r < (long)X; ++r) for (long c = 0; c < (long)Y; ++c) {
        size_t i = r * Y + c; bool seen = false; double s = 0; fa::accumulate_type<W> n = 0; V v;
        if (Focus::keep_no_data && ma[i]) { fs_assert(both(mo[i] == 1, same(d.data()[i], d0.data()[i])), "a no-data focus element is no-data in the result"); continue; }
        for (long kr = 0; kr < S; ++kr) for (long kc = 0; kc < S; ++kc) {
            long y = r + kr - R, x = c + kc - R; if (y >= 0 && x >= 0 && y < (long)X && x < (long)Y) continue;
            if (w[kr * S + kc] != W(0) && IsReplace<Ooi>::value && around<V, X, Y>(a, ma, y, x, true, v)) { add(v, w[kr * S + kc], s, n); seen = true; }
        }
        for (long kr = 0; kr < S; ++kr) for (long kc = 0; kc < S; ++kc) {
            long y = r + kr - R, x = c + kc - R; if (y < 0 || x < 0 || y >= (long)X || x >= (long)Y || !(w[kr * S + kc] != W(0))) continue;
            size_t j = y * Y + x;
            if (!ma[j]) { add(a.data()[j], w[kr * S + kc], s, n); seen = true; }
            else if (IsReplace<Alt>::value && around<V, X, Y>(a, ma, y, x, false, v)) { add(v, w[kr * S + kc], s, n); seen = true; }
        }
        if (!seen) { fs_assert(both(mo[i] == 1, same(d.data()[i], d0.data()[i])), "without any value the result is no-data"); continue; }
        bool fin = std::isfinite(static_cast<V>(s)); V q = static_cast<V>(IsReplace<Norm>::value ? s / n : s);
        fs_assert(mo[i] == (fin ? 0 : 1), "exactly a sum that is not finite is marked as no-data");
        fs_assert(same(d.data()[i], fin ? q : d0.data()[i]), "the weighted (average of the) values within the kernel; a cell that is no-data keeps its value");
        observe("m", mo[i]);
    }
    fs_reach("end");
}
template<class T> struct Weights { T w[25]; };
// weights: 0 all one, 1 pyramid, 2 with zeros, 3 all symbolic
template<class W> Weights<W> weights(long R, int kind)
{
    Weights<W> r; long S = 2 * R + 1;
    for (long i = 0; i < S; ++i) for (long j = 0; j < S; ++j) {
        long di = i < R ? i : S - 1 - i, dj = j < R ? j : S - 1 - j; W v;
        if (kind == 0) v = W(1); else if (kind == 1) v = W((1 + di) * (1 + dj) + i); else if (kind == 2) v = W((i + j) % 2 == 0 ? 0 : 1 + i); else { v = sym<W>("w"); if constexpr (!std::is_same<W, bool>::value) (void)fs_concretize(v != W(0)); if constexpr (std::is_same<W, bool>::value) v = fs_concretize(v) != 0; }
        r.w[i * S + j] = v;
    }
    return r;
}
template<class A, class N, class O, class F, size_t X, size_t Y, class V, class W, size_t R> void run(int which, int kind, unsigned masked, bool square)
{
    fs_merge(2); auto w = weights<W>(R, kind); fern::Kernel<W> k(R, W(0)); for (size_t i = 0; i < (2 * R + 1) * (2 * R + 1); ++i) k.weight(i) = w.w[i];
    if constexpr (R == 1) if (square) { fern::Square<W, 1> s({{w.w[0], w.w[1], w.w[2]}, {w.w[3], w.w[4], w.w[5]}, {w.w[6], w.w[7], w.w[8]}}); check<A, N, O, F, X, Y, V>(which, R, s, w.w, masked); return; }
    if constexpr (R == 2) if (square) { auto& q = w.w; fern::Square<W, 2> s({{q[0], q[1], q[2], q[3], q[4]}, {q[5], q[6], q[7], q[8], q[9]}, {q[10], q[11], q[12], q[13], q[14]}, {q[15], q[16], q[17], q[18], q[19]}, {q[20], q[21], q[22], q[23], q[24]}}); check<A, N, O, F, X, Y, V>(which, R, s, w.w, masked); return; }
    check<A, N, O, F, X, Y, V>(which, R, k, w.w, masked);
}
typedef cv::SkipNoData AS; typedef cv::ReplaceNoDataByFocalAverage AR; typedef cv::DivideByWeights ND; typedef cv::DontDivideByWeights NN; typedef cv::SkipOutOfImage OS; typedef cv::ReplaceOutOfImageByFocalAverage OR; typedef cv::KeepNoDataFocusElement FK; typedef cv::ReplaceNoDataFocusElement FR;
#define P4 static_cast<int>(fs_choose("policy", 4))
#define P2 3 * static_cast<int>(fs_choose("policy", 2))
UNIT(skip_33) { run<AS, ND, OS, FK, 3, 3, double, double, 1>(P2, 1, 0x1ff, true); }
UNIT(skip_33_zero) { run<AS, NN, OS, FK, 3, 3, double, int32_t, 1>(P2, 2, 0x1ff, false); }
UNIT(skip_33_bool) { run<AS, ND, OS, FK, 3, 3, float, bool, 1>(P2, 2, 0x1ff, true); }
UNIT(skip_33_replace) { run<AS, ND, OS, FR, 3, 3, double, double, 1>(0, 1, 0x1ff, true); }
UNIT(average_33) { run<AR, ND, OR, FK, 3, 3, double, double, 1>(P2, 1, 0x1ff, true); }
UNIT(average_33_zero) { run<AR, NN, OR, FK, 3, 3, double, int32_t, 1>(0, 2, 0x1ff, false); }
UNIT(average_33_bool) { run<AR, ND, OR, FK, 3, 3, double, bool, 1>(0, 2, 0x1ff, true); }
UNIT(average_33_replace) { run<AR, ND, OR, FR, 3, 3, double, double, 1>(0, 0, 0x1ff, true); }
UNIT(average_22) { run<AR, ND, OR, FK, 2, 2, double, double, 1>(P4, 1, 15, true); }
UNIT(average_23) { run<AR, NN, OR, FR, 2, 3, double, double, 1>(0, 1, 63, true); }
UNIT(average_32) { run<AR, NN, OR, FR, 3, 2, double, double, 1>(0, 1, 63, true); }
UNIT(average_44) { run<AR, ND, OR, FR, 4, 4, double, double, 1>(P2, 1, 0xcc01, true); }
UNIT(average_44_f32) { run<AR, ND, OR, FK, 4, 4, float, float, 1>(P4, 1, 0x3300, true); }
UNIT(skip_44_2) { run<AS, ND, OS, FK, 4, 4, double, double, 2>(P2, 1, 0x1834, true); }
UNIT(average_44_2) { run<AR, ND, OR, FR, 4, 4, double, double, 2>(0, 1, 0x1834, true); }
UNIT(average_45_2) { run<AR, NN, OR, FK, 4, 5, double, double, 2>(0, 1, 0x1834, true); }
UNIT(average_55_2) { run<AR, ND, OR, FR, 5, 5, double, double, 2>(P2, 1, 0x1042, true); }
UNIT(skip_55_2_bool) { run<AS, ND, OS, FR, 5, 5, double, bool, 2>(P2, 2, 0x1c62, false); }
UNIT(weights_33) { run<AS, ND, OS, FK, 3, 3, double, double, 1>(0, 3, 0, true); }
UNIT(weights_33_bool) { run<AR, NN, OR, FR, 3, 3, double, bool, 1>(0, 3, 0, true); }
// the defaults: skip no-data and values outside of the image, divide by the weights, everything has a value
template<class V, class W> void defaults()
{
    fs_merge(2); auto w = weights<W>(1, 2); fern::Square<W, 1> k({{w.w[0], w.w[1], w.w[2]}, {w.w[3], w.w[4], w.w[5]}, {w.w[6], w.w[7], w.w[8]}});
    fern::Array<V, 2> a(fern::extents[3][3]), d(fern::extents[3][3]); fill_sym(a, "a");
    with_policy(P2, [&](auto& e) { fa::convolution::convolve(e, a, k, d); });
    for (long r = 0; r < 3; ++r) for (long c = 0; c < 3; ++c) {
        double s = 0; fa::accumulate_type<W> n = 0;
        for (long i = -1; i <= 1; ++i) for (long j = -1; j <= 1; ++j) if (r + i >= 0 && r + i < 3 && c + j >= 0 && c + j < 3 && w.w[(i + 1) * 3 + j + 1] != W(0)) add(a.data()[(r + i) * 3 + c + j], w.w[(i + 1) * 3 + j + 1], s, n);
        fs_assert(same(d.data()[r * 3 + c], static_cast<V>(s / n)), "the weighted average of the values within the kernel");
    }
    fs_reach("end");
}
UNIT(defaults) { switch (fs_choose("types", 3)) { case 0: defaults<double, double>(); break; case 1: defaults<float, bool>(); break; default: defaults<double, int32_t>(); } }
UNIT_THOROUGH(weights_33_bool_masked) { run<AR, NN, OR, FR, 3, 3, double, bool, 1>(0, 3, 0x11, true); }
UNIT_THOROUGH(average_65_2) { run<AR, ND, OR, FR, 6, 5, double, double, 2>(P2, 1, 0x1c4c62, true); }
UNIT_THOROUGH(weights_44) { run<AR, ND, OR, FK, 4, 4, double, double, 1>(0, 3, 0x20, true); }
