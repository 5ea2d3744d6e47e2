// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: results of 0d, 1d (0 to 4 cells) and 2d (2x2, 3x2) shape, n-ary folds of 3 and 4 arguments; all cell values, masks, prior result contents and copy ranges and positions symbolic
// BOUND: sequential, parallel (2 threads, one schedule; C04 varies schedules) and run-time selected execution policies
// ASSUME: copy: source and destination have the same number of cells and the copied range fits both (the function asserts the first)
#include "common.h"
#include "fern/algorithm/core/nullary_local_operation.h"
#include "fern/algorithm/core/n_ary_local_operation.h"
#include "fern/algorithm/core/unary_disaggregate_operation.h"
#include "fern/algorithm/core/fill.h"
#include "fern/algorithm/core/copy.h"
#include "fern/algorithm/algebra/boole/defined.h"
#include "fern/core/data_customization_point/point.h"
struct NOp { template<class R> void operator()(R& r) const { r = static_cast<R>(r * 3 + 1); } };
template<size_t N, class R> void nullary(int which, R& r, size_t cols)
{
    fs_merge(1); fill_sym(r, "r"); R r0(r); Mask<N> im(cols), om(cols); im.fill("mask");
    fa::InputNoDataPolicies<In> ip{im.in()}; Out op = om.out();
    with_policy_for<R>(which, [&](auto& e) { fa::nullary_local_operation<NOp>(ip, op, e, r); });
    for (size_t i = 0; i < N; ++i) {
        int32_t x = at(r0, i);
        fs_assert(om[i] == im[i], "nullary operation: exactly the no-data cells are marked");
        fs_assert(at(r, i) == (im[i] ? x : x * 3 + 1), "nullary operation: each cell with data is computed once, no-data cells keep their value");
        observe("r", at(r, i)); observe("m", om[i]);
    }
    fs_reach("end");
}
UNIT(nullary_0d) { int32_t r; nullary<1>(static_cast<int>(fs_choose("policy", 4)), r, 1); }
UNIT(nullary_1d) { std::vector<int32_t> r(4); nullary<4>(static_cast<int>(fs_choose("policy", 2)), r, 4); }
UNIT(nullary_1d_odd) { std::vector<int32_t> r(3); nullary<3>(static_cast<int>(fs_choose("policy", 2)), r, 3); }
UNIT(nullary_2d) { fern::Array<int32_t, 2> r(fern::extents[2][2]); nullary<4>(static_cast<int>(fs_choose("policy", 4)), r, 2); }
UNIT(nullary_2d_odd) { fern::Array<int32_t, 2> r(fern::extents[3][2]); nullary<6>(static_cast<int>(fs_choose("policy", 4)), r, 2); }
template<size_t N, class R> void def(int which, R& r, size_t cols)
{
    fs_merge(1); fill_sym(r, "r"); Mask<N> im(cols); im.fill("mask");
    fa::InputNoDataPolicies<In> ip{im.in()};
    with_policy_for<R>(which, [&](auto& e) { fa::algebra::defined(ip, e, r); });
    for (size_t i = 0; i < N; ++i) { fs_assert(at(r, i) == (im[i] ? 0 : 1), "defined is one for cells with data and zero for no-data cells"); observe("r", at(r, i)); }
    fs_reach("end");
}
UNIT(defined_0d) { int32_t r; def<1>(static_cast<int>(fs_choose("policy", 4)), r, 1); }
UNIT(defined_1d) { std::vector<int32_t> r(3); def<3>(static_cast<int>(fs_choose("policy", 2)), r, 3); }
UNIT(defined_2d) { fern::Array<int32_t, 2> r(fern::extents[3][2]); def<6>(static_cast<int>(fs_choose("policy", 4)), r, 2); }
UNIT(defined_default) {
    int w = static_cast<int>(fs_choose("policy", 2)); std::vector<int32_t> r(3); fill_sym(r, "r");
    with_policy_for<std::vector<int32_t>>(w, [&](auto& e) { fa::algebra::defined(e, r); });
    for (size_t i = 0; i < 3; ++i) fs_assert(r[i] == 1, "without no-data every cell is defined");
    fs_reach("end");
}
template<size_t N, class R> void fill_(int which, R& r, size_t cols)
{
    fs_merge(1); fill_sym(r, "r"); R r0(r); Mask<1> im; im.fill("mask"); Mask<N> om(cols);
    int32_t v = sym<int32_t>("v");
    fa::InputNoDataPolicies<In> ip{im.in()}; Out op = om.out();
    with_policy_for<R>(which, [&](auto& e) { fa::core::fill(ip, op, e, v, r); });
    for (size_t i = 0; i < N; ++i) {
        fs_assert(om[i] == im[0], "fill: all cells are marked when the value is no-data, none otherwise");
        fs_assert(at(r, i) == (im[0] ? at(r0, i) : v), "fill: every cell gets the value, or keeps its own when the value is no-data");
        observe("r", at(r, i)); observe("m", om[i]);
    }
    with_policy_for<R>(which, [&](auto& e) { fa::core::fill(e, v, r); });
    for (size_t i = 0; i < N; ++i) fs_assert(at(r, i) == v, "fill without no-data: every cell gets the value");
    fs_reach("end");
}
UNIT(fill_0d) { int32_t r; fill_<1>(static_cast<int>(fs_choose("policy", 4)), r, 1); }
UNIT(fill_1d) { std::vector<int32_t> r(4); fill_<4>(static_cast<int>(fs_choose("policy", 2)), r, 4); }
UNIT(fill_1d_odd) { std::vector<int32_t> r(3); fill_<3>(static_cast<int>(fs_choose("policy", 2)), r, 3); }
UNIT(fill_2d) { fern::Array<int32_t, 2> r(fern::extents[3][2]); fill_<6>(static_cast<int>(fs_choose("policy", 4)), r, 2); }
// disaggregation with an operation and policies of its own
template<class V> struct DOp { template<class R> void operator()(V const& v, R& r) const { r = static_cast<R>(v * 3 + 5); } };
template<class V> struct DDom { static bool within_domain(V const& v) { return (v & 3) != 1; } };
template<class V, class R> struct DRng { static bool within_range(V const& v, R const& r) { return either((r & 4) == 0, v > 64); } };
template<size_t N, class R> void disaggregate(int which, R& r, size_t cols)
{
    fs_merge(1); fill_sym(r, "r"); R r0(r); Mask<1> im; im.fill("mask"); Mask<N> om(cols);
    int32_t v = sym<int32_t>("v");
    fa::InputNoDataPolicies<In> ip{im.in()}; Out op = om.out();
    with_policy_for<R>(which, [&](auto& e) { fa::unary_disaggregate_operation<DOp, DDom, DRng>(ip, op, e, v, r); });
    int32_t expected = v * 3 + 5;
    bool computed = both(!im[0], (v & 3) != 1), marked = either(!computed, !either((expected & 4) == 0, v > 64));
    for (size_t i = 0; i < N; ++i) {
        fs_assert(om[i] == marked, "disaggregation: every cell is marked as the single value demands");
        fs_assert(at(r, i) == (computed ? expected : at(r0, i)), "disaggregation: every cell holds the operation's value of the single value");
        observe("r", at(r, i)); observe("m", om[i]);
    }
    fs_reach("end");
}
UNIT(disaggregate_0d) { int32_t r; disaggregate<1>(static_cast<int>(fs_choose("policy", 4)), r, 1); }
UNIT(disaggregate_1d) { std::vector<int32_t> r(3); disaggregate<3>(static_cast<int>(fs_choose("policy", 2)), r, 3); }
UNIT(disaggregate_2d) { fern::Array<int32_t, 2> r(fern::extents[3][2]); disaggregate<6>(static_cast<int>(fs_choose("policy", 4)), r, 2); }
// copy of an index range to a position
template<size_t N> void copy_(int which)
{
    std::vector<int32_t> s(N), d(N); fill_sym(s, "s"); fill_sym(d, "d"); std::vector<int32_t> d0(d);
    Mask<N> im, om; im.fill("mask");
    size_t b = fs_choose("begin", N + 1), e = b + fs_choose("length", N + 1 - b), p = fs_choose("position", N + 1 - (e - b));
    fs_merge(1);
    fa::IndexRanges<1> range{fa::IndexRange(b, e)}; fern::Point<size_t, 1> position(p);
    fa::InputNoDataPolicies<In> ip{im.in()}; Out op = om.out();
    with_policy(which, [&](auto& x) { fa::core::copy(ip, op, x, s, range, d, position); });
    for (size_t i = 0; i < N; ++i) {
        if (i >= p && i < p + (e - b)) {
            size_t j = b + i - p;
            fs_assert(om[i] == im[j], "copy: destination cell is marked exactly when its source cell is no-data");
            fs_assert(d[i] == (im[j] ? d0[i] : s[j]), "copy: destination cell gets its source cell's value unless that is no-data");
        } else { fs_assert(om[i] == 0, "copy: cells outside the destination range are not marked"); fs_assert(d[i] == d0[i], "copy: cells outside the destination range keep their value"); }
        observe("d", d[i]); observe("m", om[i]);
    }
    fs_reach("end");
}
UNIT(copy_seq) { copy_<4>(0); }
UNIT(copy_par) { copy_<4>(1); }
UNIT(copy_vseq) { copy_<3>(2); }
UNIT(copy_vpar) { copy_<3>(3); }
// n-ary: left fold of the binary operation over the arguments
template<class A, class B> struct Op { template<class R> void operator()(A const& a, B const& b, R& r) const { r = static_cast<R>(a * 3 + b * 5); } };
template<class A, class B> struct Dom { static bool within_domain(A const&, B const&) { return true; } };
template<class A, class B, class R> struct Rng { static bool within_range(A const&, B const&, R const&) { return true; } };
template<size_t N, class V> void n_ary(int which, V& a, V& b, V& c, V& d, V& r)
{
    fill_sym(a, "a"); fill_sym(b, "b"); fill_sym(c, "c"); fill_sym(d, "d"); fill_sym(r, "r");
    Mask<N> om; Out op = om.out(); fa::InputNoDataPolicies<fa::SkipNoData, fa::SkipNoData> ip{{}, {}};
    auto f = [](int32_t x, int32_t y) { return x * 3 + y * 5; };
    with_policy(which, [&](auto& e) { fa::n_ary_local_operation<Op, Dom, Rng>(ip, op, e, r, a, b); });
    for (size_t i = 0; i < N; ++i) fs_assert(at(r, i) == f(at(a, i), at(b, i)), "n-ary operation on two arguments");
    with_policy(which, [&](auto& e) { fa::n_ary_local_operation<Op, Dom, Rng>(ip, op, e, r, a, b, c); });
    for (size_t i = 0; i < N; ++i) fs_assert(at(r, i) == f(f(at(a, i), at(b, i)), at(c, i)), "n-ary operation on three arguments is the left fold");
    for (size_t i = 0; i < N; ++i) { fs_assert(om[i] == 0, "n-ary operation marks nothing"); observe("r", at(r, i)); }
    fs_reach("end");
}
UNIT(n_ary_1d) { std::vector<int32_t> a(3), b(3), c(3), d(3), r(3); n_ary<3>(static_cast<int>(fs_choose("policy", 4)), a, b, c, d, r); }
UNIT(n_ary_2d) { fern::Array<int32_t, 2> a(fern::extents[2][2]), b(fern::extents[2][2]), c(fern::extents[2][2]), d(fern::extents[2][2]), r(fern::extents[2][2]); n_ary<4>(static_cast<int>(fs_choose("policy", 4)), a, b, c, d, r); }
