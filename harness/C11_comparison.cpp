// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: one pair of argument cells (C02 covers collections); <, <=, >, >=: every pair of the 8 integer and 2 floating point types, all values of both; ==: every pair of equal types, and bool
// ASSUME: the common type of the two arguments represents both values (no negative value compared with an unsigned value of at least its size)
#include "common.h"
#include "fern/algorithm/algebra/elementary/equal.h"
#include "fern/algorithm/algebra/elementary/less.h"
#include "fern/algorithm/algebra/elementary/less_equal.h"
#include "fern/algorithm/algebra/elementary/greater.h"
#include "fern/algorithm/algebra/elementary/greater_equal.h"
template<class A, class B> constexpr bool integers() { return std::is_integral<A>::value && std::is_integral<B>::value; }
template<class A, class B> bool lt(A a, B b)
{
    if constexpr (integers<A, B>()) return static_cast<i128>(a) < static_cast<i128>(b);
    else { typedef typename std::common_type<A, B>::type C; return static_cast<C>(a) < static_cast<C>(b); }
}
template<class A, class B> bool eq(A a, B b)
{
    if constexpr (integers<A, B>()) return static_cast<i128>(a) == static_cast<i128>(b);
    else { typedef typename std::common_type<A, B>::type C; return static_cast<C>(a) == static_cast<C>(b); }
}
template<class A, class B> void order(A a, B b)
{
    if constexpr (integers<A, B>()) {
        typedef typename std::common_type<A, B>::type C;
        fs_assume(both(static_cast<i128>(static_cast<C>(a)) == static_cast<i128>(a), static_cast<i128>(static_cast<C>(b)) == static_cast<i128>(b)));
    }
    Mask<1> ma, mb, om; ma.fill("mask_a"); mb.fill("mask_b"); bool nd = either(ma[0], mb[0]); fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    bool l = false, le = false, g = false, ge = false; int32_t il = 7, ile = 7; double dg = 7, dge = 7;
    fa::algebra::less(ip, op, e, a, b, l); fa::algebra::less_equal(ip, op, e, a, b, le); fa::algebra::greater(ip, op, e, a, b, g); fa::algebra::greater_equal(ip, op, e, a, b, ge);
    fa::algebra::less(e, a, b, il); fa::algebra::less_equal(e, a, b, ile); fa::algebra::greater(e, a, b, dg); fa::algebra::greater_equal(e, a, b, dge);
    bool L = lt(a, b), G = lt(b, a), E = eq(a, b);
    fs_assert(l == both(!nd, L), "less holds exactly when the first value is smaller"); fs_assert(le == both(!nd, either(L, E)), "less-or-equal holds exactly when the first value is smaller or equal");
    fs_assert(g == both(!nd, G), "greater holds exactly when the first value is larger"); fs_assert(ge == both(!nd, either(G, E)), "greater-or-equal holds exactly when the first value is larger or equal");
    fs_assert(both(both(il == (L ? 1 : 0), ile == (either(L, E) ? 1 : 0)), both(dg == (G ? 1.0 : 0.0), dge == (either(G, E) ? 1.0 : 0.0))), "other result types hold 1 for true and 0 for false");
    fs_assert((om[0] != 0) == nd, "result is marked as no-data exactly when an argument is");
    observe("l", l); observe("le", le); observe("g", g); observe("ge", ge);
}
template<class T> void equality()
{
    fs_merge(1);
    T a = sym<T>("a"), b = sym<T>("b"); Mask<1> ma, mb, om; ma.fill("mask_a"); mb.fill("mask_b"); bool nd = either(ma[0], mb[0]); fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    bool q = false; uint8_t u = 9; fa::algebra::equal(ip, op, e, a, b, q); fa::algebra::equal(e, a, b, u);
    fs_assert(q == both(!nd, a == b), "equal holds exactly when the values are equal"); fs_assert(u == (a == b ? 1 : 0), "other result types hold 1 for true and 0 for false");
    fs_assert((om[0] != 0) == nd, "result is marked as no-data exactly when an argument is"); observe("q", q); fs_reach("end");
}
template<class A> void row()
{
    fs_merge(1);
    A a = sym<A>("a");
    switch (fs_choose("type", 10)) {
    case 0: order(a, sym<int8_t>("b")); break; case 1: order(a, sym<int16_t>("b")); break; case 2: order(a, sym<int32_t>("b")); break; case 3: order(a, sym<int64_t>("b")); break;
    case 4: order(a, sym<uint8_t>("b")); break; case 5: order(a, sym<uint16_t>("b")); break; case 6: order(a, sym<uint32_t>("b")); break; case 7: order(a, sym<uint64_t>("b")); break;
    case 8: order(a, sym<float>("f")); break; default: order(a, sym<double>("f")); break;
    }
    fs_reach("end");
}
#define T(n, A) UNIT(order_##n) { row<A>(); } UNIT(equal_##n) { equality<A>(); }
T(i8, int8_t) T(i16, int16_t) T(i32, int32_t) T(i64, int64_t) T(u8, uint8_t) T(u16, uint16_t) T(u32, uint32_t) T(u64, uint64_t) T(f32, float) T(f64, double)
UNIT(equal_bool) { equality<bool>(); }
