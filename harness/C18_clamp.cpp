// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: ranks (value/lower/upper) 0/0/0, 1/1/1, 1/1/0, 1/0/1, 2/2/2, 2/2/0, 2/0/2; collections of 3 cells and of 3x2 cells (thorough: 15 and 5x3); all values, value masks and prior result contents; value types int32, uint8, int64, float and double
// BOUND: sequential, parallel (2 threads, one schedule; C04 varies schedules) and run-time selected execution policies
// ASSUME: bounds contain no no-data and no lower bound is larger than its upper bound (documented / asserted preconditions)
#include "common.h"
#include "fern/algorithm/core/clamp.h"
template<class V, int DA, int DL, int DU, size_t X, size_t Y> void clamp(int which)
{
    fs_merge(1);
    auto a = Shaped<DA, V, X, Y>::make(); auto l = Shaped<DL, V, X, Y>::make(); auto u = Shaped<DU, V, X, Y>::make(); auto r = Shaped<DA, V, X, Y>::make();
    fill_sym(a, "a"); fill_sym(l, "l"); fill_sym(u, "u"); fill_sym(r, "r"); auto r0(r);
    typedef Shaped<DA, V, X, Y> SA; typedef Shaped<DL, V, X, Y> SL; typedef Shaped<DU, V, X, Y> SU;
    Mask<SA::cells> ma(SA::cols), om(SA::cols); Mask<SL::cells> ml(SL::cols); Mask<SU::cells> mu(SU::cols); ma.fill("mask_a");
    for (size_t i = 0; i < SA::cells; ++i) fs_assume(!(at(u, ix<DU>(i)) < at(l, ix<DL>(i))));
    fa::InputNoDataPolicies<In, In, In> ip{ma.in(), ml.in(), mu.in()}; Out op = om.out();
    with_policy(which, [&](auto& e) { fa::core::clamp(ip, op, e, a, l, u, r); });
    auto p(r0); with_policy(which & 1, [&](auto& e) { fa::core::clamp(e, a, l, u, p); });
    for (size_t i = 0; i < SA::cells; ++i) {
        bool nd = ma[i] != 0; V v = at(a, i), lo = at(l, ix<DL>(i)), hi = at(u, ix<DU>(i)), prior = at(r0, i);
        fs_assert((om[i] != 0) == nd, "a cell is marked as no-data exactly when its value is no-data");
        V expected = v < lo ? lo : hi < v ? hi : v;
        fs_assert(same(at(r, i), nd ? prior : expected), "a cell gets its value limited to its own bounds"); fs_assert(same(at(p, i), expected), "without no-data every cell gets its value limited to its own bounds");
        observe("m", om[i]);
    }
    fs_reach("end");
}
#define P4 static_cast<int>(fs_choose("policy", 4))
#define T(V) UNIT(d000_##V) { clamp<V, 0, 0, 0, 1, 1>(P4); } \
    UNIT(d111_##V) { clamp<V, 1, 1, 1, 3, 1>(P4); } UNIT(d110_##V) { clamp<V, 1, 1, 0, 3, 1>(P4); } UNIT(d101_##V) { clamp<V, 1, 0, 1, 3, 1>(P4); } \
    UNIT(d222_##V) { clamp<V, 2, 2, 2, 3, 2>(P4); } UNIT(d220_##V) { clamp<V, 2, 2, 0, 3, 2>(P4); } UNIT(d202_##V) { clamp<V, 2, 0, 2, 2, 3>(P4); } \
    UNIT_THOROUGH(d111_big_##V) { clamp<V, 1, 1, 1, 5, 3>(P4); } UNIT_THOROUGH(d222_big_##V) { clamp<V, 2, 2, 2, 5, 3>(P4); } UNIT_THOROUGH(d220_big_##V) { clamp<V, 2, 2, 0, 5, 3>(P4); } UNIT_THOROUGH(d202_big_##V) { clamp<V, 2, 0, 2, 5, 3>(P4); }
T(int32_t) T(uint8_t) T(float)
UNIT(d000_double) { clamp<double, 0, 0, 0, 1, 1>(P4); } UNIT(d000_int64_t) { clamp<int64_t, 0, 0, 0, 1, 1>(P4); }
