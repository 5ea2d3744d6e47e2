// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: one pair of argument cells (C01 and C02 cover collections); every pair of the 8 integer types, all values of both
// ASSUME: both arguments of a division are representable in the result type
#include "common.h"
#include "fern/algorithm/algebra/elementary/divide.h"
#include "fern/algorithm/algebra/elementary/absolute.h"
template<class R, class T> bool fits(T v) { return both(static_cast<i128>(v) >= static_cast<i128>(std::numeric_limits<R>::min()), static_cast<i128>(v) <= static_cast<i128>(std::numeric_limits<R>::max())); }
template<class A, class B> void divide(A a, B b)
{
    typedef fa::divide::result_value_type<A, B> R;
    fs_assume(both(fits<R>(a), fits<R>(b)));
    R r0 = sym<R>("r"); R r = r0, plain = 0; Mask<1> ma, mb, om; ma.fill("mask_a"); mb.fill("mask_b"); bool nd = either(ma[0], mb[0]);
    fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    fa::algebra::divide<fa::divide::OutOfDomainPolicy, fa::divide::OutOfRangePolicy>(ip, op, e, a, b, r);
    if (b == 0) { fs_assert(om[0] == 1, "division by zero is marked as no-data"); fs_assert(r == r0, "division by zero does not write the result"); observe("z", om[0]); return; }
    fa::algebra::divide(e, a, b, plain);
    R x = static_cast<R>(a), y = static_cast<R>(b);
    bool overflow = both(std::is_signed<R>::value, both(x == std::numeric_limits<R>::min(), y == static_cast<R>(-1)));
    fs_assert((om[0] != 0) == either(nd, overflow), "quotient is marked as no-data exactly when an argument is, or it does not fit the result type");
    fs_assert(implies(nd, r == r0), "nothing is computed for arguments that are no-data");
    R expected = y == static_cast<R>(-1) ? static_cast<R>(static_cast<R>(0) - x) : static_cast<R>(x / y);
    if (std::is_unsigned<R>::value) expected = static_cast<R>(x / y);
    if (!overflow) { fs_assert(implies(!nd, r == expected), "quotient is the exact one, rounded toward zero"); fs_assert(plain == expected, "the overload without policies computes the same values"); }
    observe("r", r); observe("m", om[0]);
}
template<class A> void row()
{
    A a = sym<A>("a");
    switch (fs_choose("type", 8)) {
    case 0: divide<A, int8_t>(a, sym<int8_t>("b8")); break; case 1: divide<A, int16_t>(a, sym<int16_t>("b16")); break; case 2: divide<A, int32_t>(a, sym<int32_t>("b32")); break; case 3: divide<A, int64_t>(a, sym<int64_t>("b64")); break;
    case 4: divide<A, uint8_t>(a, sym<uint8_t>("c8")); break; case 5: divide<A, uint16_t>(a, sym<uint16_t>("c16")); break; case 6: divide<A, uint32_t>(a, sym<uint32_t>("c32")); break; default: divide<A, uint64_t>(a, sym<uint64_t>("c64")); break;
    }
    fs_reach("end");
}
UNIT(divide_i8) { row<int8_t>(); } UNIT(divide_i16) { row<int16_t>(); } UNIT(divide_i32) { row<int32_t>(); } UNIT(divide_i64) { row<int64_t>(); }
UNIT(divide_u8) { row<uint8_t>(); } UNIT(divide_u16) { row<uint16_t>(); } UNIT(divide_u32) { row<uint32_t>(); } UNIT(divide_u64) { row<uint64_t>(); }
template<class T> void absolute_()
{
    fs_merge(1);
    T a = sym<T>("a"), r0 = sym<T>("r"), r = r0, plain = 0; Mask<1> ma, om; ma.fill("mask_a"); bool nd = ma[0]; fa::InputNoDataPolicies<In> ip{ma.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(ip, op, e, a, r);
    fa::algebra::absolute(e, a, plain);
    bool overflow = both(std::is_signed<T>::value, a == std::numeric_limits<T>::min());
    fs_assert(implies(nd, r == r0), "nothing is computed for an argument that is no-data");
    fs_assert((om[0] != 0) == either(nd, overflow), "absolute value is marked as no-data exactly when its argument is, or it does not fit the result type");
    T expected = static_cast<T>(a < 0 ? static_cast<T>(static_cast<T>(0) - a) : a);
    fs_assert(either(overflow, both(either(nd, r == expected), plain == expected)), "absolute value is the exact one");
    observe("r", r); observe("m", om[0]); fs_reach("end");
}
UNIT(abs_i8) { absolute_<int8_t>(); } UNIT(abs_i16) { absolute_<int16_t>(); } UNIT(abs_i32) { absolute_<int32_t>(); } UNIT(abs_i64) { absolute_<int64_t>(); }
UNIT(abs_u8) { absolute_<uint8_t>(); } UNIT(abs_u16) { absolute_<uint16_t>(); } UNIT(abs_u32) { absolute_<uint32_t>(); } UNIT(abs_u64) { absolute_<uint64_t>(); }
