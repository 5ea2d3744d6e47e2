// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: ranks 0d/0d, 2d/0d and 2d/2d; 3x2 and 2x3 cells (thorough: 5x3); all values, masks of both arguments and prior result contents; value types int32, int64, float and uint8
// BOUND: sequential, parallel (2 threads, one schedule; C04 varies schedules) and run-time selected execution policies
#include "common.h"
#include "fern/algorithm/core/cover.h"
template<class V, int DA, int DB, size_t X, size_t Y> void cover(int which)
{
    fs_merge(1); constexpr int DR = DA > DB ? DA : DB;
    auto a = Shaped<DA, V, X, Y>::make(); auto b = Shaped<DB, V, X, Y>::make(); auto r = Shaped<DR, V, X, Y>::make();
    fill_sym(a, "a"); fill_sym(b, "b"); fill_sym(r, "r"); auto r0(r);
    typedef Shaped<DA, V, X, Y> SA; typedef Shaped<DB, V, X, Y> SB; typedef Shaped<DR, V, X, Y> SR;
    Mask<SA::cells> ma(SA::cols); Mask<SB::cells> mb(SB::cols); Mask<SR::cells> om(SR::cols); ma.fill("mask_a"); mb.fill("mask_b");
    fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out op = om.out();
    with_policy(which, [&](auto& e) { fa::core::cover(ip, op, e, a, b, r); });
    for (size_t i = 0; i < SR::cells; ++i) {
        bool na = ma[ix<DA>(i)] != 0, nb = mb[ix<DB>(i)] != 0; V av = at(a, ix<DA>(i)), bv = at(b, ix<DB>(i)), prior = at(r0, i);
        fs_assert((om[i] != 0) == both(na, nb), "a cell is marked as no-data exactly when both arguments are no-data");
        fs_assert(same(at(r, i), !na ? av : !nb ? bv : prior), "a cell gets the first argument's value, or the second's when the first is no-data");
        observe("m", om[i]);
    }
    with_policy(which & 1, [&](auto& e) { fa::core::cover(e, a, b, r); });
    for (size_t i = 0; i < SR::cells; ++i) fs_assert(same(at(r, i), at(a, ix<DA>(i))), "without no-data the first argument is copied");
    fs_reach("end");
}
#define P4 static_cast<int>(fs_choose("policy", 4))
#define T(V) UNIT(d00_##V) { cover<V, 0, 0, 1, 1>(P4); } UNIT(d20_##V) { cover<V, 2, 0, 3, 2>(P4); } UNIT(d22_##V) { cover<V, 2, 2, 2, 3>(P4); } \
    UNIT_THOROUGH(d20_big_##V) { cover<V, 2, 0, 5, 3>(P4); } UNIT_THOROUGH(d22_big_##V) { cover<V, 2, 2, 5, 3>(P4); }
T(int32_t) T(float) T(uint8_t) T(int64_t)
