// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: 0d values, 1d arrays of up to 4 cells and 2d arrays of 2x2 and 3x2 cells; all cell values, no-data masks and prior contents of the result symbolic
// BOUND: executed through the sequential, the parallel (2 threads, one schedule; C04 varies schedules) and the run-time selected policies
#include "common.h"
#include "fern/algorithm/core/unary_local_operation.h"
// The operation and its policies are partial functions of the cell value that
// are far from the identity, so that a wrong element or a missed check shows.
template<class V> struct Op { template<class R> void operator()(V const& v, R& r) const { r = static_cast<R>(v * 3 + 5); } };
template<class V> struct Dom { static bool within_domain(V const& v) { return (v & 3) != 1; } };
template<class V, class R> struct Rng { static bool within_range(V const& v, R const& r) { return (r & 4) == 0 || v > 64; } };
template<class V, class R, size_t N> void check(V const& v, R const& r, R const& r0, Mask<N> const& im, Mask<N> const& om)
{
    for (size_t i = 0; i < N; ++i) {
        int32_t x = at(v, i); int64_t expected = static_cast<int64_t>(x * 3 + 5);
        bool computed = both(!im[i], (x & 3) != 1);
        bool marked = either(!computed, !either((expected & 4) == 0, x > 64));
        fs_assert(om[i] == marked, "a result cell is marked as no-data exactly when the input is no-data, out of domain or the result is out of range");
        fs_assert(implies(computed, at(r, i) == expected), "computed cell holds the operation's value");
        fs_assert(implies(!computed, at(r, i) == at(r0, i)), "cell that is not computed keeps its value");
        observe("r", at(r, i)); observe("m", om[i]);
    }
    fs_reach("end");
}
template<size_t N, class V, class R> void run(int which, V& v, R& r, size_t cols)
{
    fs_merge(1);
    fill_sym(v, "v"); fill_sym(r, "r");
    R r0(r); Mask<N> im(cols), om(cols); im.fill("mask");
    fa::InputNoDataPolicies<In> ip{im.in()}; Out op = om.out();
    with_policy(which, [&](auto& e) { fa::unary_local_operation<Op, Dom, Rng>(ip, op, e, v, r); });
    check<V, R, N>(v, r, r0, im, om);
}
template<size_t N> void run1(int which) { std::vector<int32_t> v(N); std::vector<int64_t> r(N); run<N>(which, v, r, N); }
template<size_t A, size_t B> void run2(int which) { fern::Array<int32_t, 2> v(A, B); fern::Array<int64_t, 2> r(A, B); run<A * B>(which, v, r, B); }
void run0(int which) { int32_t v; int64_t r; run<1>(which, v, r, 1); }
UNIT(d0) { run0(static_cast<int>(fs_choose("policy", 4))); }
UNIT(d1_seq) { run1<4>(0); }
UNIT(d1_par) { run1<4>(1); }
UNIT(d1_par3) { run1<3>(1); }
UNIT(d1_var_seq) { run1<3>(2); }
UNIT(d1_var_par) { run1<3>(3); }
UNIT(d2_seq) { run2<3, 2>(0); }
UNIT(d2_par) { run2<3, 2>(1); }
UNIT(d2_var_seq) { run2<2, 2>(2); }
UNIT(d2_var_par) { run2<2, 2>(3); }
UNIT(d2_wide) { run2<2, 3>(static_cast<int>(fs_choose("policy", 4))); }
UNIT(empty) {
    int w = static_cast<int>(fs_choose("policy", 4));
    std::vector<int32_t> v; std::vector<int64_t> r; Mask<1> im, om;
    fa::InputNoDataPolicies<In> ip{im.in()}; Out op = om.out();
    with_policy(w, [&](auto& e) { fa::unary_local_operation<Op, Dom, Rng>(ip, op, e, v, r); });
    fs_assert(om[0] == 0, "empty input marks nothing");
    fs_reach("end");
}
UNIT_THOROUGH(d1_seq8) { run1<8>(0); }
UNIT_THOROUGH(d1_par8) { run1<8>(1); }
UNIT_THOROUGH(d2_big) { run2<5, 3>(static_cast<int>(fs_choose("policy", 4))); }
