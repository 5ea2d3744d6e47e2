// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: every combination of ranks the algorithm supports (if-then: 0d/0d, 0d/2d, 2d/0d, 2d/2d; if-then-else: any 0d/1d mix and any 0d/2d mix it supports, 12 in all); collections of 3 cells and of 3x2 cells (thorough: 7 cells and 5x3 cells); all conditions, values, masks of every argument and prior result contents
// BOUND: conditions of type int32, uint8 and double; values of type int64 and float; sequential, parallel (2 threads, one schedule; C04 varies schedules) and run-time selected execution policies
#include "common.h"
#include "fern/algorithm/core/if.h"
template<class C, class V, int DC, int DT, int DF, size_t X, size_t Y> void then_else(int which)
{
    fs_merge(1); constexpr int DR = DC > DT ? (DC > DF ? DC : DF) : (DT > DF ? DT : DF);
    auto c = Shaped<DC, C, X, Y>::make(); auto t = Shaped<DT, V, X, Y>::make(); auto f = Shaped<DF, V, X, Y>::make(); auto r = Shaped<DR, V, X, Y>::make();
    fill_sym(c, "c"); fill_sym(t, "t"); fill_sym(f, "f"); fill_sym(r, "r"); auto r0(r);
    typedef Shaped<DC, C, X, Y> SC; typedef Shaped<DT, V, X, Y> ST; typedef Shaped<DF, V, X, Y> SF; typedef Shaped<DR, V, X, Y> SR;
    Mask<SC::cells> mc(SC::cols); Mask<ST::cells> mt(ST::cols); Mask<SF::cells> mf(SF::cols); Mask<SR::cells> om(SR::cols); mc.fill("mask_c"); mt.fill("mask_t"); mf.fill("mask_f");
    fa::InputNoDataPolicies<In, In, In> ip{mc.in(), mt.in(), mf.in()}; Out op = om.out();
    with_policy(which, [&](auto& e) { fa::core::if_(ip, op, e, c, t, f, r); });
    for (size_t i = 0; i < SR::cells; ++i) {
        bool cond = at(c, ix<DC>(i)) != C(0); V tv = at(t, ix<DT>(i)), fv = at(f, ix<DF>(i)), prior = at(r0, i);
        bool nd = either(mc[ix<DC>(i)] != 0, cond ? mt[ix<DT>(i)] != 0 : mf[ix<DF>(i)] != 0);
        fs_assert((om[i] != 0) == nd, "if-then-else: a cell is marked as no-data exactly when its condition or the selected value is no-data");
        fs_assert(same(at(r, i), nd ? prior : cond ? tv : fv), "if-then-else: a cell gets the true value where its condition holds and the false value where not");
        observe("m", om[i]);
    }
    with_policy(which & 1, [&](auto& e) { fa::core::if_(e, c, t, f, r); });
    for (size_t i = 0; i < SR::cells; ++i) fs_assert(same(at(r, i), at(c, ix<DC>(i)) != C(0) ? at(t, ix<DT>(i)) : at(f, ix<DF>(i))), "if-then-else without no-data selects a value for every cell");
    fs_reach("end");
}
template<class C, class V, int DC, int DT, size_t X, size_t Y> void then(int which)
{
    fs_merge(1); constexpr int DR = DC > DT ? DC : DT;
    auto c = Shaped<DC, C, X, Y>::make(); auto t = Shaped<DT, V, X, Y>::make(); auto r = Shaped<DR, V, X, Y>::make();
    fill_sym(c, "c"); fill_sym(t, "t"); fill_sym(r, "r"); auto r0(r);
    typedef Shaped<DC, C, X, Y> SC; typedef Shaped<DT, V, X, Y> ST; typedef Shaped<DR, V, X, Y> SR;
    Mask<SC::cells> mc(SC::cols); Mask<ST::cells> mt(ST::cols); Mask<SR::cells> om(SR::cols); mc.fill("mask_c"); mt.fill("mask_t");
    fa::InputNoDataPolicies<In, In> ip{mc.in(), mt.in()}; Out op = om.out();
    with_policy(which, [&](auto& e) { fa::core::if_(ip, op, e, c, t, r); });
    for (size_t i = 0; i < SR::cells; ++i) {
        bool cond = at(c, ix<DC>(i)) != C(0); V tv = at(t, ix<DT>(i)), prior = at(r0, i);
        bool nd = either(either(mc[ix<DC>(i)] != 0, !cond), mt[ix<DT>(i)] != 0);
        fs_assert((om[i] != 0) == nd, "if-then: a cell is marked as no-data exactly when its condition is false or no-data, or the value is no-data");
        fs_assert(same(at(r, i), nd ? prior : tv), "if-then: a cell gets the true value where its condition holds and is left alone elsewhere");
        observe("m", om[i]);
    }
    auto r1(r0); with_policy(which & 1, [&](auto& e) { fa::core::if_(e, c, t, r1); });
    for (size_t i = 0; i < SR::cells; ++i) { V tv = at(t, ix<DT>(i)), prior = at(r0, i); fs_assert(same(at(r1, i), at(c, ix<DC>(i)) != C(0) ? tv : prior), "if-then without no-data assigns exactly the cells whose condition holds"); }
    fs_reach("end");
}
#define P4 static_cast<int>(fs_choose("policy", 4))
#define TE(n, C, V, a, b, c) UNIT(else_##n) { then_else<C, V, a, b, c, 3, (a + b + c) % 2 && a <= 1 && b <= 1 && c <= 1 ? 1 : 2>(P4); } UNIT_THOROUGH(else_##n##_big) { then_else<C, V, a, b, c, 5, 3>(P4); }
#define TH(n, C, V, a, b) UNIT(then_##n) { then<C, V, a, b, 3, 2>(P4); } UNIT_THOROUGH(then_##n##_big) { then<C, V, a, b, 5, 3>(P4); }
TE(000, int32_t, int64_t, 0, 0, 0) TE(100, uint8_t, int64_t, 1, 0, 0) TE(110, int32_t, float, 1, 1, 0) TE(101, double, int64_t, 1, 0, 1) TE(111, int32_t, int64_t, 1, 1, 1)
TE(200, int32_t, int64_t, 2, 0, 0) TE(020, double, int64_t, 0, 2, 0) TE(002, int32_t, float, 0, 0, 2) TE(022, uint8_t, int64_t, 0, 2, 2) TE(222, int32_t, int64_t, 2, 2, 2) TE(220, int32_t, int64_t, 2, 2, 0) TE(202, uint8_t, float, 2, 0, 2)
TH(00, int32_t, int64_t, 0, 0) TH(02, double, int64_t, 0, 2) TH(20, uint8_t, float, 2, 0) TH(22, int32_t, int64_t, 2, 2)
