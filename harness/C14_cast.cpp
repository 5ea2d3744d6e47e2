// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: one argument cell (C01 covers collections), all values: without range policy every pair of bool, the 8 integer types, float and double; with the cast range policy every pair of types it supports (bool to any type, integers to the same or a larger integer of the same signedness, float to float, double to double)
// ASSUME: values outside the result type are out of scope when converting floating point values to integers; integers wrap
#include "common.h"
#include "fern/algorithm/core/cast.h"
template<class A> constexpr bool fp() { return std::is_floating_point<A>::value; }
template<class A, class B> constexpr bool checked()
{
    if (std::is_same<A, bool>::value) return true;
    if (std::is_same<B, bool>::value) return false;
    if (fp<A>() || fp<B>()) return std::is_same<A, B>::value;
    return std::is_signed<A>::value == std::is_signed<B>::value && sizeof(A) <= sizeof(B);
}
template<class A, class B> void cast(A a)
{
    B r0 = sym<B>("r"), r = r0, p = r0; Mask<1> ma, om; ma.fill("mask_a"); bool nd = ma[0]; fa::InputNoDataPolicies<In> ip{ma.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    if constexpr (fp<A>() && !fp<B>() && !std::is_same<B, bool>::value) {
        A lo = static_cast<A>(std::numeric_limits<B>::min()), hi = A(uint64_t(1) << (std::numeric_limits<B>::digits - 1)) * A(2);
        fs_assume(both(a > lo - A(sizeof(B) < 4 ? 1 : 0), a < hi));
        fs_assume(either(sizeof(B) < 4, a >= lo));
    }
    if constexpr (std::is_same<A, double>::value && std::is_same<B, float>::value) fs_assume(a == a);
    fa::core::cast(e, a, p);
    B expected = static_cast<B>(a);
    fs_assert(same(p, expected), "result is the argument converted to the result type");
    if constexpr (std::is_integral<A>::value && std::is_integral<B>::value && !std::is_same<B, bool>::value) {
        bool fits = both(static_cast<i128>(a) >= static_cast<i128>(std::numeric_limits<B>::min()), static_cast<i128>(a) <= static_cast<i128>(std::numeric_limits<B>::max()));
        fs_assert(implies(fits, static_cast<i128>(p) == static_cast<i128>(a)), "a value that fits the result type is preserved");
    }
    if constexpr (std::is_same<B, bool>::value) fs_assert(p == (a != A(0)), "every value but zero is true");
    fa::core::cast<fa::unary::DiscardRangeErrors>(ip, op, e, a, r);
    fs_assert(same(r, nd ? r0 : expected), "an argument that is no-data is not converted"); fs_assert((om[0] != 0) == nd, "result is marked as no-data exactly when the argument is");
    if constexpr (checked<A, B>()) {
        B r1 = r0; Mask<1> om1; Out op1 = om1.out();
        fa::core::cast<fa::cast::OutOfRangePolicy>(ip, op1, e, a, r1);
        fs_assert(same(r1, nd ? r0 : expected), "range checked: an argument that is no-data is not converted, others are"); fs_assert((om1[0] != 0) == nd, "range checked: a value that the result type can represent is never marked as no-data");
        observe("m1", om1[0]);
    }
    observe("p", p); observe("m", om[0]);
}
template<class A> void row()
{
    A a = sym<A>("a");
    switch (fs_choose("type", 11)) {
    case 0: cast<A, int8_t>(a); break; case 1: cast<A, int16_t>(a); break; case 2: cast<A, int32_t>(a); break; case 3: cast<A, int64_t>(a); break;
    case 4: cast<A, uint8_t>(a); break; case 5: cast<A, uint16_t>(a); break; case 6: cast<A, uint32_t>(a); break; case 7: cast<A, uint64_t>(a); break;
    case 8: cast<A, float>(a); break; case 9: cast<A, double>(a); break; default: cast<A, bool>(a);
    }
    fs_reach("end");
}
#define T(n, A) UNIT(n) { row<A>(); }
T(boolean, bool) T(i8, int8_t) T(i16, int16_t) T(i32, int32_t) T(i64, int64_t) T(u8, uint8_t) T(u16, uint16_t) T(u32, uint32_t) T(u64, uint64_t) T(f32, float) T(f64, double)
