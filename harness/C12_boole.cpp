// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: one pair of argument cells (C01 and C02 cover collections); arguments of type bool, int8, uint8, int32, uint64, float and double in all combinations of the two arguments, all values; result types bool, int32 and double
#include "common.h"
#include "fern/algorithm/algebra/boole/and.h"
#include "fern/algorithm/algebra/boole/or.h"
#include "fern/algorithm/algebra/boole/xor.h"
#include "fern/algorithm/algebra/boole/nor.h"
#include "fern/algorithm/algebra/boole/xnor.h"
#include "fern/algorithm/algebra/boole/not.h"
template<class R, class A, class B> void binary(A a, B b)
{
    bool x = a != A(0), y = b != B(0);
    Mask<1> ma, mb, om; ma.fill("mask_a"); mb.fill("mask_b"); bool nd = either(ma[0], mb[0]); fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    R r0 = sym<R>("r"); R r[5] = {r0, r0, r0, r0, r0}, p[5] = {r0, r0, r0, r0, r0};
    fa::algebra::and_(ip, op, e, a, b, r[0]); fa::algebra::or_(ip, op, e, a, b, r[1]); fa::algebra::xor_(ip, op, e, a, b, r[2]); fa::algebra::nor(ip, op, e, a, b, r[3]); fa::algebra::xnor(ip, op, e, a, b, r[4]);
    fa::algebra::and_(e, a, b, p[0]); fa::algebra::or_(e, a, b, p[1]); fa::algebra::xor_(e, a, b, p[2]); fa::algebra::nor(e, a, b, p[3]); fa::algebra::xnor(e, a, b, p[4]);
    bool t[5] = {both(x, y), either(x, y), x != y, !either(x, y), x == y};
    fs_assert(both(p[0] == (t[0] ? R(1) : R(0)), same(r[0], nd ? r0 : p[0])), "and"); fs_assert(both(p[1] == (t[1] ? R(1) : R(0)), same(r[1], nd ? r0 : p[1])), "or"); fs_assert(both(p[2] == (t[2] ? R(1) : R(0)), same(r[2], nd ? r0 : p[2])), "xor"); fs_assert(both(p[3] == (t[3] ? R(1) : R(0)), same(r[3], nd ? r0 : p[3])), "nor"); fs_assert(both(p[4] == (t[4] ? R(1) : R(0)), same(r[4], nd ? r0 : p[4])), "xnor");
    fs_assert((om[0] != 0) == nd, "result is marked as no-data exactly when an argument is");
    for (int i = 0; i < 5; ++i) observe("r", r[i]);
}
template<class R, class A> void unary(A a)
{
    Mask<1> ma, om; ma.fill("mask_a"); bool nd = ma[0]; fa::InputNoDataPolicies<In> ip{ma.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e; R r0 = sym<R>("r"), r = r0, p = r0;
    fa::algebra::not_(ip, op, e, a, r); fa::algebra::not_(e, a, p);
    fs_assert(both(p == (a == A(0) ? R(1) : R(0)), same(r, nd ? r0 : p)), "not"); fs_assert((om[0] != 0) == nd, "result is marked as no-data exactly when its argument is"); observe("r", r);
}
template<class R, class A> void row()
{
    fs_merge(1);
    A a = sym<A>("a");
    switch (fs_choose("type", 8)) {
    case 0: binary<R>(a, sym<bool>("b")); break; case 1: binary<R>(a, sym<int8_t>("b")); break; case 2: binary<R>(a, sym<uint8_t>("b")); break; case 3: binary<R>(a, sym<int32_t>("b")); break;
    case 4: binary<R>(a, sym<uint64_t>("b")); break; case 5: binary<R>(a, sym<float>("f")); break; case 6: binary<R>(a, sym<double>("f")); break; default: unary<R>(a);
    }
    fs_reach("end");
}
#define T(n, A) UNIT(n##_bool) { row<bool, A>(); } UNIT(n##_int) { row<int32_t, A>(); } UNIT(n##_double) { row<double, A>(); }
T(boolean, bool) T(i8, int8_t) T(u8, uint8_t) T(i32, int32_t) T(u64, uint64_t) T(f32, float) T(f64, double)
