// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: one pair of argument cells (C02 covers collections); addition and subtraction: every pair of the 8 integer types, all values of both
// BOUND: multiplication: all values of both arguments for every pair of 8 and 16 bit types; for pairs involving a 32 or 64 bit type, all values of the one argument against boundary values of the other (0, +-1, +-2, +-3, +-10, powers of two, extremes and their neighbours)
// ASSUME: subtraction: both arguments are representable in the result type
// ASSUME: values of narrower types are bit patterns of two's complement integers
#include "common.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/subtract.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
template<class R, class W> bool representable(W v) { return both(v >= static_cast<W>(std::numeric_limits<R>::min()), v <= static_cast<W>(std::numeric_limits<R>::max())); }
// wide enough for the exact result
template<class A, class B> struct Wide { typedef typename std::conditional<sizeof(A) + sizeof(B) <= 8 && (sizeof(A) + sizeof(B) < 8 || std::is_signed<A>::value || std::is_signed<B>::value) && sizeof(A) <= 4 && sizeof(B) <= 4, int64_t, i128>::type type; };
template<class T> std::string name(char const* n) { return std::string(n) + (std::is_signed<T>::value ? "i" : "u") + static_cast<char>('0' + sizeof(T)); }
template<int OP, class A, class B> void check(A a, B b)
{
    typedef typename std::conditional<OP == 0, fa::add::result_value_type<A, B>, typename std::conditional<OP == 1, fa::subtract::result_value_type<A, B>, fa::multiply::result_value_type<A, B>>::type>::type R;
    R r0 = sym<R>("r"), r = r0, plain = 0; Mask<1> ma, mb, om; ma.fill("mask_a"); mb.fill("mask_b"); bool nd = either(ma[0], mb[0]);
    fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    typedef typename Wide<A, B>::type W; W exact;
    if (OP == 0) { fa::algebra::add<fa::add::OutOfRangePolicy>(ip, op, e, a, b, r); fa::algebra::add(e, a, b, plain); exact = static_cast<W>(a) + static_cast<W>(b); }
    else if (OP == 1) { fa::algebra::subtract<fa::subtract::OutOfRangePolicy>(ip, op, e, a, b, r); fa::algebra::subtract(e, a, b, plain); exact = static_cast<W>(a) - static_cast<W>(b); }
    else { fa::algebra::multiply<fa::multiply::OutOfRangePolicy>(ip, op, e, a, b, r); fa::algebra::multiply(e, a, b, plain); exact = static_cast<W>(a) * static_cast<W>(b); }
    bool ok = representable<R>(exact);
    // the repository's tests define that a minuend or subtrahend that does not fit the result type is converted first
    if (OP == 1) fs_assume(both(representable<R>(static_cast<W>(a)), representable<R>(static_cast<W>(b))));
    fs_assert((om[0] != 0) == either(nd, !ok), "result is marked as no-data exactly when an argument is, or the exact result does not fit the result type");
    fs_assert(implies(nd, r == r0), "nothing is computed for arguments that are no-data");
    fs_assert(implies(both(ok, !nd), static_cast<W>(r) == exact), "result that is not marked is the exact result");
    fs_assert(implies(ok, static_cast<W>(plain) == exact), "the overload without policies computes the same values");
    observe("r", r); observe("m", om[0]);
}
template<int OP, class A> void row()
{
    fs_merge(1);
    A a = sym<A>("a");
    check<OP, A, int8_t>(a, sym<int8_t>("b8")); check<OP, A, int16_t>(a, sym<int16_t>("b16")); check<OP, A, int32_t>(a, sym<int32_t>("b32")); check<OP, A, int64_t>(a, sym<int64_t>("b64"));
    check<OP, A, uint8_t>(a, sym<uint8_t>("c8")); check<OP, A, uint16_t>(a, sym<uint16_t>("c16")); check<OP, A, uint32_t>(a, sym<uint32_t>("c32")); check<OP, A, uint64_t>(a, sym<uint64_t>("c64"));
    fs_reach("end");
}
#define ROWS(name, OP) UNIT(name##_i8) { row<OP, int8_t>(); } UNIT(name##_i16) { row<OP, int16_t>(); } UNIT(name##_i32) { row<OP, int32_t>(); } UNIT(name##_i64) { row<OP, int64_t>(); } \
    UNIT(name##_u8) { row<OP, uint8_t>(); } UNIT(name##_u16) { row<OP, uint16_t>(); } UNIT(name##_u32) { row<OP, uint32_t>(); } UNIT(name##_u64) { row<OP, uint64_t>(); }
ROWS(add, 0) ROWS(subtract, 1)
// multiplication
template<class A, class B> void mul_pair() { check<2, A, B>(sym<A>(name<A>("a").c_str()), sym<B>(name<B>("b").c_str())); }
#define SMALL(n, A) UNIT(mul_small_##n) { fs_merge(1); mul_pair<A, int8_t>(); mul_pair<A, uint8_t>(); fs_reach("end"); }
SMALL(i8, int8_t) SMALL(u8, uint8_t) SMALL(i16, int16_t) SMALL(u16, uint16_t)
UNIT(mul_i8_i16) { fs_merge(1); mul_pair<int8_t, int16_t>(); fs_reach("end"); }
UNIT(mul_u8_i16) { fs_merge(1); mul_pair<uint8_t, int16_t>(); fs_reach("end"); }
UNIT(mul_i8_u16) { fs_merge(1); mul_pair<int8_t, uint16_t>(); mul_pair<uint8_t, uint16_t>(); fs_reach("end"); }
UNIT(mul_i16_u16) { fs_merge(1); mul_pair<int16_t, uint16_t>(); mul_pair<uint16_t, int16_t>(); mul_pair<uint16_t, uint16_t>(); fs_reach("end"); }
UNIT_THOROUGH(mul_i16_i16) { fs_merge(1); mul_pair<int16_t, int16_t>(); fs_reach("end"); }
static bool all_boundaries = false;
template<class T> T boundary()
{
    typedef std::numeric_limits<T> L;
    T const v[] = {static_cast<T>(-1), 3, L::min(), L::max(), static_cast<T>(-(T(1) << (4 * sizeof(T)))),
        0, 1, 2, 10, static_cast<T>(-2), static_cast<T>(-3), static_cast<T>(-10), static_cast<T>(L::min() + 1), static_cast<T>(L::max() - 1),
        static_cast<T>(T(1) << (4 * sizeof(T))), static_cast<T>(T(1) << (8 * sizeof(T) - 2)), static_cast<T>((T(1) << (4 * sizeof(T))) - 1), static_cast<T>(L::max() / 3), static_cast<T>(L::min() / 3)};
    return v[fs_choose("boundary", all_boundaries ? sizeof(v) / sizeof(v[0]) : 5)];
}
template<class A, class B> void mul_b() { check<2, A, B>(sym<A>(name<A>("a").c_str()), boundary<B>()); }
template<class A, class B> void mul_a() { check<2, A, B>(boundary<A>(), sym<B>(name<B>("b").c_str())); }
template<class A> void wide()
{
    fs_merge(1);
    switch (fs_choose("pair", 8)) {
    case 0: mul_b<A, int8_t>(); break; case 1: mul_b<A, int16_t>(); break; case 2: mul_b<A, int32_t>(); break; case 3: mul_b<A, int64_t>(); break;
    case 4: mul_b<A, uint8_t>(); break; case 5: mul_b<A, uint16_t>(); break; case 6: mul_b<A, uint32_t>(); break; default: mul_b<A, uint64_t>(); break;
    }
    fs_reach("end");
}
template<class A> void wide2()
{
    fs_merge(1);
    switch (fs_choose("pair", 8)) {
    case 0: mul_a<A, int8_t>(); break; case 1: mul_a<A, int16_t>(); break; case 2: mul_a<A, int32_t>(); break; case 3: mul_a<A, int64_t>(); break;
    case 4: mul_a<A, uint8_t>(); break; case 5: mul_a<A, uint16_t>(); break; case 6: mul_a<A, uint32_t>(); break; default: mul_a<A, uint64_t>(); break;
    }
    fs_reach("end");
}
#define WIDE(n, A) UNIT(mul_wide_##n) { wide<A>(); } UNIT(mul_wide2_##n) { wide2<A>(); } UNIT_THOROUGH(mul_all_##n) { all_boundaries = true; wide<A>(); } UNIT_THOROUGH(mul_all2_##n) { all_boundaries = true; wide2<A>(); }
WIDE(i8, int8_t) WIDE(i16, int16_t) WIDE(i32, int32_t) WIDE(i64, int64_t) WIDE(u8, uint8_t) WIDE(u16, uint16_t) WIDE(u32, uint32_t) WIDE(u64, uint64_t)
