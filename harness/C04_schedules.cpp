// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: pools of 2 threads (3 index ranges) working on vectors of 3 cells and arrays of 3x1 to 3x2 cells; every interleaving of the synchronisation operations of the calling thread and the workers with at most 1 (quick) or 2 (thorough) preemptions; symbolic values, prior results and, where said so by the unit, masks
// BOUND: two callers sharing one pool, and one caller using a pool twice
// ASSUME: threads, mutexes and condition variables as modelled by the executor (POSIX semantics, sequentially consistent interleavings plus happens-before race detection); no data race means that every other interleaving is equivalent to one explored
// OPT: samples=2
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "common.h"
#include <thread>
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/algorithm/core.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/absolute.h"
#include "fern/algorithm/algebra/elementary/less.h"
#include "fern/algorithm/algebra/boole/defined.h"
#include "fern/algorithm/algebra/vector/gradient.h"
#include "fern/algorithm/statistic/count.h"
#include "fern/algorithm/statistic/sum.h"
#include "fern/algorithm/statistic/mean.h"
#include "fern/algorithm/statistic/unary_max.h"
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/neighborhood/square.h"
template<class T> struct Many { typedef std::vector<T> type; };
template<class R> size_t cells(R const& r) { return fern::size(r); }
// Run the operation in parallel, under every schedule, and sequentially; values and masks must be the same.
template<class R, class F> void compare(int p, R const& prior, F run)
{
    size_t n = 1; if constexpr (!std::is_arithmetic<R>::value) n = fern::size(prior); R s(prior), r(prior); std::vector<uint8_t> ms(n), mp(n);
    fa::SequentialExecutionPolicy se; run(se, s, ms.data());
    fs_explore(p, 0); { fa::ParallelExecutionPolicy pe(2); run(pe, r, mp.data()); }
    bool v = true, m = true; for (size_t i = 0; i < n; ++i) { v = both(v, same(at(r, i), at(s, i))); m = both(m, mp[i] == ms[i]); }
    fs_assert(v, "parallel execution gives the values that sequential execution gives, under every schedule"); fs_assert(m, "parallel execution marks the cells that sequential execution marks, under every schedule"); fs_reach("end");
}
template<class A> A filled(A a, char const* n) { fill_sym(a, n); return a; }
fern::Array<int32_t, 2> grid(size_t x, size_t y, char const* n) { return filled(fern::Array<int32_t, 2>(fern::extents[x][y]), n); }
template<size_t N> struct Marks { uint8_t m[N]; Marks(char const* n, int symbolic = N) { for (size_t i = 0; i < N; ++i) m[i] = static_cast<int>(i) < symbolic ? fs_split(sym<bool>(n)) : 0; } In in(size_t cols) const { return In{m, N, cols}; } };
typedef std::vector<int32_t> V;
template<class T> using U1 = fa::unary::DiscardDomainErrors<T>;
static void unary(int p) { V a = filled(V(3), "a"), r = filled(V(3), "r"); Marks<3> m("mask", 2); compare(p, r, [&](auto& e, V& x, uint8_t* o) { Out op{o, 3, 3}; fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(fa::InputNoDataPolicies<In>{m.in(3)}, op, e, a, x); }); }
UNIT(unary_local) { unary(1); }
UNIT_THOROUGH(unary_local2) { unary(2); }
static void binary(int p) { auto a = grid(3, 1, "a"), b = grid(3, 1, "b"), r = grid(3, 1, "r"); compare(p, r, [&](auto& e, auto& x, uint8_t* o) { Out op{o, 3, 1}; fa::algebra::add<fa::add::OutOfRangePolicy>(fa::InputNoDataPolicies<fa::SkipNoData, fa::SkipNoData>{{}, {}}, op, e, a, b, x); }); }
UNIT(binary_local) { binary(1); }
UNIT_THOROUGH(binary_local2) { binary(2); }
UNIT(comparison) { V a = filled(V(3), "a"), r = filled(V(3), "r"); int32_t b = sym<int32_t>("b"); compare(1, r, [&](auto& e, V& x, uint8_t*) { fa::algebra::less(e, a, b, x); }); }
UNIT(fill) { auto r = grid(3, 2, "r"); int32_t v = sym<int32_t>("v"); compare(1, r, [&](auto& e, auto& x, uint8_t*) { fa::core::fill(e, v, x); }); }
UNIT(cover) { auto a = grid(3, 1, "a"), b = grid(3, 1, "b"), r = grid(3, 1, "r"); Marks<3> m("mask", 1); compare(1, r, [&](auto& e, auto& x, uint8_t* o) { Out op{o, 3, 1}; fa::core::cover(fa::InputNoDataPolicies<In, fa::SkipNoData>{m.in(1), {}}, op, e, a, b, x); }); }
UNIT(if_else) { V c{1, 0, 1}, a = filled(V(3), "a"), b = filled(V(3), "b"), r = filled(V(3), "r"); compare(1, r, [&](auto& e, V& x, uint8_t*) { fa::core::if_(e, c, a, b, x); }); }
UNIT(defined) { std::vector<uint8_t> r(3); Marks<3> m("mask", 2); compare(1, r, [&](auto& e, auto& x, uint8_t*) { fa::algebra::defined(fa::InputNoDataPolicies<In>{m.in(3)}, e, x); }); }
UNIT(offset) { auto a = grid(3, 2, "a"), r = grid(3, 2, "r"); fern::Point<int, 2> o(1, -1); compare(1, r, [&](auto& e, auto& x, uint8_t*) { fa::core::offset(e, a, o, x); }); }
static void sum(int p) { auto a = grid(3, 1, "a"); for (size_t i = 0; i < 3; ++i) fs_require(a.data()[i] > -100000 && a.data()[i] < 100000); Marks<3> m("mask", 2); compare(p, sym<int32_t>("r"), [&](auto& e, int32_t& x, uint8_t* o) { Out op{o, 1, 1}; fa::statistic::sum<fa::sum::OutOfRangePolicy>(fa::InputNoDataPolicies<In>{m.in(1)}, op, e, a, x); }); }
UNIT(sum) { sum(1); }
UNIT_THOROUGH(sum2) { sum(2); }
UNIT(count) { V a = filled(V(3), "a"); int32_t v = sym<int32_t>("v"); compare(1, sym<int32_t>("r"), [&](auto& e, int32_t& x, uint8_t*) { fa::statistic::count(e, a, v, x); }); }
UNIT(maximum) { V a = filled(V(3), "a"); Marks<3> m("mask", 2); compare(1, sym<int32_t>("r"), [&](auto& e, int32_t& x, uint8_t* o) { Out op{o, 1, 1}; fa::statistic::unary_max(fa::InputNoDataPolicies<In>{m.in(3)}, op, e, a, x); }); }
UNIT(gradient) {
    double size = sym<double>("size"); fern::MaskedRaster<double, 2>::Transformation t{{0, size, 0, size}}; fern::MaskedRaster<double, 2> a(fern::extents[3][2], t); for (size_t i = 0; i < 6; ++i) { a.data()[i] = sym<double>("a"); a.mask().data()[i] = i == 3; }
    fern::MaskedRaster<double, 2> s(fern::extents[3][2], t), r(fern::extents[3][2], t); typedef fa::InputNoDataPolicies<fa::DetectNoDataByValue<fern::Mask<2>>> I; typedef fa::MarkNoDataByValue<fern::Mask<2>> O;
    { fa::SequentialExecutionPolicy e; O o(s.mask(), true); fa::algebra::gradient_x(I{{a.mask(), true}}, o, e, a, s); }
    fs_explore(1, 0); { fa::ParallelExecutionPolicy e(2); O o(r.mask(), true); fa::algebra::gradient_x(I{{a.mask(), true}}, o, e, a, r); }
    bool v = true, m = true; for (size_t i = 0; i < 6; ++i) { v = both(v, same(r.data()[i], s.data()[i])); m = both(m, r.mask().data()[i] == s.mask().data()[i]); }
    fs_assert(v, "parallel execution gives the values that sequential execution gives, under every schedule"); fs_assert(m, "parallel execution marks the cells that sequential execution marks, under every schedule"); fs_reach("end");
}
UNIT(convolve) {
    fern::Array<double, 2> a(fern::extents[3][3]), r(fern::extents[3][3]); for (size_t i = 0; i < 9; ++i) { a.data()[i] = sym<double>("a"); fs_require(std::isfinite(a.data()[i])); } fern::Square<double, 1> k{{1, 2, 1}, {0, 1, 0}, {1, 1, 1}};
    compare(1, r, [&](auto& e, auto& x, uint8_t*) { fa::convolution::convolve(e, a, k, x); });
}
// One pool, used twice: the second operation works on the results of the first.
UNIT(twice) {
    V a = filled(V(3), "a"), r(3), r2(3); fs_explore(1, 0); { fa::ParallelExecutionPolicy e(2); fa::algebra::absolute(e, a, r); fa::algebra::less(e, r, 5, r2); }
    bool ok = true; for (int i = 0; i < 3; ++i) ok = both(ok, both(r[i] == (a[i] < 0 ? -a[i] : a[i]), r2[i] == ((a[i] < 0 ? -a[i] : a[i]) < 5))); fs_assert(ok, "operations after each other see each other's results"); fs_reach("end");
}
// Two threads run their operations with the same execution policy.
UNIT(shared_pool) {
    V a = filled(V(2), "a"), r(2), q(2); fs_explore(1, 0); { fa::ParallelExecutionPolicy e(1); fa::ParallelExecutionPolicy f(e); std::thread t([&]() { fa::algebra::less(f, a, 5, q); }); fa::algebra::less(e, a, 9, r); t.join(); }
    bool ok = true; for (int i = 0; i < 2; ++i) ok = both(ok, both(r[i] == (a[i] < 9), q[i] == (a[i] < 5))); fs_assert(ok, "concurrent operations that share a pool do not disturb each other"); fs_reach("end");
}
// The other parallel implementations: every operation and rank has code of its own to divide the work.
UNIT(unary_local_2d) { auto a = grid(3, 2, "a"), r = grid(3, 2, "r"); Marks<6> m("mask", 1); compare(1, r, [&](auto& e, auto& x, uint8_t* o) { Out op{o, 6, 2}; fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(fa::InputNoDataPolicies<In>{m.in(2)}, op, e, a, x); }); }
UNIT(binary_local_1d) { V a = filled(V(3), "a"), b = filled(V(3), "b"), r = filled(V(3), "r"); Marks<3> m("mask", 1); compare(1, r, [&](auto& e, V& x, uint8_t* o) { Out op{o, 3, 3}; fa::algebra::add<fa::add::OutOfRangePolicy>(fa::InputNoDataPolicies<fa::SkipNoData, In>{{}, m.in(3)}, op, e, a, b, x); }); }
UNIT(binary_local_scalar) { auto b = grid(3, 1, "b"), r = grid(3, 1, "r"); int32_t a = sym<int32_t>("a"); compare(1, r, [&](auto& e, auto& x, uint8_t* o) { Out op{o, 3, 1}; fa::algebra::add<fa::add::OutOfRangePolicy>(fa::InputNoDataPolicies<fa::SkipNoData, fa::SkipNoData>{{}, {}}, op, e, a, b, x); }); }
UNIT(fill_1d) { V r = filled(V(3), "r"); int32_t v = sym<int32_t>("v"); compare(1, r, [&](auto& e, V& x, uint8_t*) { fa::core::fill(e, v, x); }); }
UNIT(cover_scalar) { auto a = grid(3, 1, "a"), r = grid(3, 1, "r"); int32_t b = sym<int32_t>("b"); Marks<3> m("mask", 2); compare(1, r, [&](auto& e, auto& x, uint8_t* o) { Out op{o, 3, 1}; fa::core::cover(fa::InputNoDataPolicies<In, fa::SkipNoData>{m.in(1), {}}, op, e, a, b, x); }); }
UNIT(if_else_2d) { auto c = grid(3, 1, "c"), a = grid(3, 1, "a"), b = grid(3, 1, "b"), r = grid(3, 1, "r"); for (int i = 0; i < 3; ++i) c.data()[i] = i & 1; compare(1, r, [&](auto& e, auto& x, uint8_t*) { fa::core::if_(e, c, a, b, x); }); }
UNIT(if_then) { auto c = grid(3, 1, "c"), a = grid(3, 1, "a"), r = grid(3, 1, "r"); for (int i = 0; i < 3; ++i) c.data()[i] = i & 1; compare(1, r, [&](auto& e, auto& x, uint8_t* o) { Out op{o, 3, 1}; fa::core::if_(fa::InputNoDataPolicies<fa::SkipNoData, fa::SkipNoData>{{}, {}}, op, e, c, a, x); }); }
UNIT(if_else_1d) { V c{1, 0, 1}, b = filled(V(3), "b"), r = filled(V(3), "r"); int32_t a = sym<int32_t>("a"); compare(1, r, [&](auto& e, V& x, uint8_t*) { fa::core::if_(e, c, a, b, x); }); }
UNIT(clamp_1d) { V a = filled(V(3), "a"), l(3, 2), u(3, 7), r = filled(V(3), "r"); fs_require(a[0] < 2); fs_require(a[1] > 7); fs_require(a[2] == 5); compare(1, r, [&](auto& e, V& x, uint8_t*) { fa::core::clamp(e, a, l, u, x); }); }
UNIT(clamp_2d) { auto a = grid(3, 1, "a"), r = grid(3, 1, "r"); fs_require(a.data()[0] < 2); fs_require(a.data()[1] > 7); fs_require(a.data()[2] == 5); compare(1, r, [&](auto& e, auto& x, uint8_t*) { auto u = a; for (int i = 0; i < 3; ++i) u.data()[i] = 7; fa::core::clamp(e, a, 2, u, x); }); }
UNIT(merge_no_data) { auto a = grid(3, 1, "a"), r = grid(3, 1, "r"); Marks<3> m("mask", 2); compare(1, r, [&](auto& e, auto& x, uint8_t* o) { Out op{o, 3, 1}; fa::core::merge_no_data(fa::InputNoDataPolicies<In>{m.in(1)}, op, e, a, x); }); }
UNIT(unite_no_data) { auto a = grid(3, 1, "a"), b = grid(3, 1, "b"), r = grid(3, 1, "r"); Marks<3> m("mask", 1), k("mask", 2); compare(1, r, [&](auto& e, auto& x, uint8_t* o) { Out op{o, 3, 1}; fa::core::unite_no_data(fa::InputNoDataPolicies<In, In>{m.in(1), k.in(1)}, op, e, a, b, x); }); }
UNIT(intersect_no_data) { auto a = grid(3, 1, "a"), b = grid(3, 1, "b"), r = grid(3, 1, "r"); Marks<3> m("mask", 2), k("mask", 2); compare(1, r, [&](auto& e, auto& x, uint8_t* o) { Out op{o, 3, 1}; fa::core::intersect_no_data(fa::InputNoDataPolicies<In, In>{m.in(1), k.in(1)}, op, e, a, b, x); }); }
template<class A> static void compress(A const& a)
{
    Marks<3> m("mask", 2); V r(3), q(3); size_t c = 0, d = 0; fa::InputNoDataPolicies<In> ip{m.in(3 / a.shape()[0])}; { fa::SequentialExecutionPolicy e; fa::core::compress(ip, e, a, r, c); }
    fs_explore(1, 0); { fa::ParallelExecutionPolicy e(2); fa::core::compress(ip, e, a, q, d); }
    fs_assert(c == d, "the same number of values, under every schedule"); bool ok = true; for (size_t i = 0; i < c; ++i) ok = both(ok, r[i] == q[i]); fs_assert(ok, "the same values, in the same order, under every schedule"); fs_reach("end");
}
UNIT(compress_2d) { compress(grid(3, 1, "a")); }
UNIT(compress_1d) { compress(filled(fern::Array<int32_t, 1>(fern::extents[3]), "a")); }
UNIT(mean) { V a = filled(V(3), "a"); for (size_t i = 0; i < 3; ++i) fs_require(a[i] > -100000 && a[i] < 100000); Marks<3> m("mask", 1); compare(1, sym<int32_t>("r"), [&](auto& e, int32_t& x, uint8_t* o) { Out op{o, 3, 3}; fa::statistic::mean<fa::mean::OutOfRangePolicy>(fa::InputNoDataPolicies<In>{m.in(3)}, op, e, a, x); }); }
UNIT(count_2d) { auto a = grid(3, 1, "a"); int32_t v = sym<int32_t>("v"); compare(1, sym<int32_t>("r"), [&](auto& e, int32_t& x, uint8_t*) { fa::statistic::count(e, a, v, x); }); }
UNIT(maximum_2d) { auto a = grid(3, 1, "a"); Marks<3> m("mask", 2); compare(1, sym<int32_t>("r"), [&](auto& e, int32_t& x, uint8_t* o) { Out op{o, 1, 1}; fa::statistic::unary_max(fa::InputNoDataPolicies<In>{m.in(1)}, op, e, a, x); }); }
