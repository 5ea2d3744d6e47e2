// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: 0d, and 2d collections of 3x2 and 2x3 cells (thorough: 5x3); all input and prior output masks; cell values are left alone
// BOUND: sequential, parallel (2 threads, one schedule; C04 varies schedules) and run-time selected execution policies
#include "common.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/intersect_no_data.h"
#include "fern/algorithm/core/unite_no_data.h"
template<int D, size_t X, size_t Y> void masks(int which)
{
    fs_merge(1); typedef Shaped<D, int32_t, X, Y> S; typedef Shaped<D, double, X, Y> T; constexpr size_t N = S::cells;
    auto a = S::make(); auto b = T::make(); auto r = S::make(); fill_sym(a, "a"); fill_sym(b, "b"); fill_sym(r, "r"); auto r0(r); auto a0(a); auto b0(b);
    Mask<N> ma(S::cols), mb(S::cols), om(S::cols), oi(S::cols), ou(S::cols), o0(S::cols); ma.fill("mask_a"); mb.fill("mask_b"); o0.fill("mask_r");
    for (size_t i = 0; i < N; ++i) om.m[i] = oi.m[i] = ou.m[i] = o0[i];
    fa::InputNoDataPolicies<In> ip1{ma.in()}; fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out pm = om.out(), pi = oi.out(), pu = ou.out();
    with_policy(which, [&](auto& e) { fa::core::merge_no_data(ip1, pm, e, a, r); fa::core::intersect_no_data(ip, pi, e, a, b, r); fa::core::unite_no_data(ip, pu, e, a, b, r); });
    for (size_t i = 0; i < N; ++i) {
        fs_assert((om[i] != 0) == either(o0[i] != 0, ma[i] != 0), "merging marks exactly the cells that are no-data in the value, and keeps other marks");
        fs_assert((oi[i] != 0) == either(o0[i] != 0, both(ma[i] != 0, mb[i] != 0)), "intersecting marks exactly the cells that are no-data in both values");
        fs_assert((ou[i] != 0) == either(o0[i] != 0, either(ma[i] != 0, mb[i] != 0)), "uniting marks exactly the cells that are no-data in one of the values");
        observe("m", om[i]); observe("i", oi[i]); observe("u", ou[i]);
    }
    with_policy(which, [&](auto& e) { fa::core::merge_no_data(e, a, r); fa::core::intersect_no_data(e, a, b, r); fa::core::unite_no_data(e, a, b, r); });
    for (size_t i = 0; i < N; ++i) fs_assert(both(both(same(at(r, i), at(r0, i)), same(at(a, i), at(a0, i))), same(at(b, i), at(b0, i))), "combining no-data changes no values");
    fs_reach("end");
}
#define P4 static_cast<int>(fs_choose("policy", 4))
UNIT(d0) { masks<0, 1, 1>(P4); } UNIT(d2_32) { masks<2, 3, 2>(P4); } UNIT(d2_23) { masks<2, 2, 3>(P4); } UNIT_THOROUGH(d2_53) { masks<2, 5, 3>(P4); }
