// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: one pair of argument cells (C01 and C02 cover collections); all values, including infinities, NaNs, zeros and subnormals, of float/double pairs and of float and double with each integer type of 8, 16, 32 and 64 bits, in both orders
// ASSUME: IEEE 754 arithmetic in round-to-nearest mode
#include "common.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/subtract.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
#include "fern/algorithm/algebra/elementary/divide.h"
#include "fern/algorithm/algebra/elementary/absolute.h"
template<class R> bool is_finite_(R r) { return std::is_same<R, float>::value ? (bits(r) & 0x7f800000u) != 0x7f800000u : (bits(r) & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
template<class R, int OP> R apply(R x, R y) { return OP == 0 ? x + y : OP == 1 ? x - y : OP == 2 ? x * y : x / y; }
template<int OP, class A, class B> void check(A a, B b)
{
    typedef typename fern::algorithm::Result<A, B>::type R;
    static_assert(std::is_floating_point<R>::value, "");
    R r0 = sym<R>("r"), r = r0, plain = 0; Mask<1> ma, mb, om; ma.fill("mask_a"); mb.fill("mask_b"); bool nd = either(ma[0], mb[0]);
    fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    R x = static_cast<R>(a), y = static_cast<R>(b);
    bool domain = OP != 3 || b != B(0);
    if (OP == 0) { fa::algebra::add<fa::add::OutOfRangePolicy>(ip, op, e, a, b, r); fa::algebra::add(e, a, b, plain); }
    else if (OP == 1) { fa::algebra::subtract<fa::subtract::OutOfRangePolicy>(ip, op, e, a, b, r); fa::algebra::subtract(e, a, b, plain); }
    else if (OP == 2) { fa::algebra::multiply<fa::multiply::OutOfRangePolicy>(ip, op, e, a, b, r); fa::algebra::multiply(e, a, b, plain); }
    else { fa::algebra::divide<fa::divide::OutOfDomainPolicy, fa::divide::OutOfRangePolicy>(ip, op, e, a, b, r); if (domain) fa::algebra::divide(e, a, b, plain); }
    R expected = apply<R, OP>(x, y);
    if (!domain) { fs_assert(om[0] == 1, "division by zero is marked as no-data"); fs_assert(same(r, r0), "division by zero does not write the result"); }
    else {
        fs_assert(implies(nd, same(r, r0)), "nothing is computed for arguments that are no-data"); fs_assert(either(nd, same(r, expected)), "result is the IEEE result of the arguments converted to the result type"); fs_assert(same(plain, expected), "the overload without policies computes the same values");
        fs_assert((om[0] != 0) == either(nd, !is_finite_(expected)), "result is marked as no-data exactly when an argument is, or it is not finite");
    }
    observe("r", r); observe("m", om[0]);
}
#define CASES(A, B) switch (fs_choose("operation", 4)) { case 0: check<0, A, B>(sym<A>("a"), sym<B>("b")); break; case 1: check<1, A, B>(sym<A>("a"), sym<B>("b")); break; case 2: check<2, A, B>(sym<A>("a"), sym<B>("b")); break; default: check<3, A, B>(sym<A>("a"), sym<B>("b")); } fs_reach("end");
#define PAIR(n, A, B) UNIT(n) { CASES(A, B) } UNIT(n##_swapped) { CASES(B, A) }
UNIT(float_float) { CASES(float, float) } UNIT(double_double) { CASES(double, double) }
PAIR(float_double, float, double)
PAIR(float_i8, float, int8_t) PAIR(float_i16, float, int16_t) PAIR(float_i32, float, int32_t) PAIR(float_i64, float, int64_t)
PAIR(float_u8, float, uint8_t) PAIR(float_u16, float, uint16_t) PAIR(float_u32, float, uint32_t) PAIR(float_u64, float, uint64_t)
PAIR(double_i8, double, int8_t) PAIR(double_i16, double, int16_t) PAIR(double_i32, double, int32_t) PAIR(double_i64, double, int64_t)
PAIR(double_u8, double, uint8_t) PAIR(double_u16, double, uint16_t) PAIR(double_u32, double, uint32_t) PAIR(double_u64, double, uint64_t)
template<class T> void absolute_()
{
    T a = sym<T>("a"), r0 = sym<T>("r"), r = r0, plain = 0; Mask<1> ma, om; ma.fill("mask_a"); bool nd = ma[0]; fa::InputNoDataPolicies<In> ip{ma.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(ip, op, e, a, r); fa::algebra::absolute(e, a, plain);
    T magnitude; uint64_t b; std::memcpy(&magnitude, &a, sizeof a); b = bits(a) & (std::is_same<T, float>::value ? 0x7fffffffull : 0x7fffffffffffffffull);
    fs_assert(both(bits(r) == (nd ? bits(r0) : b), bits(plain) == b), "absolute value has the sign bit cleared"); fs_assert((om[0] != 0) == nd, "absolute value of a float is never out of range");
    observe("r", r); fs_reach("end");
}
UNIT(abs_float) { absolute_<float>(); } UNIT(abs_double) { absolute_<double>(); }
