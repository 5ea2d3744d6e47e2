// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: one (pair of) argument cell(s) (C01 and C02 cover collections) of type float and double; all values, including infinities, NaNs, zeros and subnormals
// ASSUME: sqrt, ceil, floor, round, trunc and modf as in IEEE 754 / the C standard; log, log2, log10, pow, tgamma, remainder and the trigonometric functions are uninterpreted functions of their argument (the property relates results to these functions, not to their accuracy)
#include "common.h"
#include "fern/algorithm/algebra/elementary/ceil.h"
#include "fern/algorithm/algebra/elementary/floor.h"
#include "fern/algorithm/algebra/elementary/round.h"
#include "fern/algorithm/algebra/elementary/trunc.h"
#include "fern/algorithm/algebra/elementary/sqrt.h"
#include "fern/algorithm/algebra/elementary/log.h"
#include "fern/algorithm/algebra/elementary/log2.h"
#include "fern/algorithm/algebra/elementary/log10.h"
#include "fern/algorithm/algebra/elementary/pow.h"
#include "fern/algorithm/algebra/elementary/tgamma.h"
#include "fern/algorithm/trigonometry/sin.h"
#include "fern/algorithm/trigonometry/cos.h"
#include "fern/algorithm/trigonometry/tan.h"
#include "fern/algorithm/trigonometry/asin.h"
#include "fern/algorithm/trigonometry/acos.h"
#include "fern/algorithm/trigonometry/atan.h"
template<class R> bool fin(R r) { return std::is_same<R, float>::value ? (bits(r) & 0x7f800000u) != 0x7f800000u : (bits(r) & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
template<class T> bool integral(T v) { return std::trunc(v) == v; }
// f: library function; d: expected domain; rng: whether the result has to be finite; call/plain: the algorithm
template<class T, class F, class C, class P> void check(T a, F f, bool d, bool rng, C call, P plain)
{
    T r0 = sym<T>("r"), r = r0, p = r0; Mask<1> ma, om; ma.fill("mask_a"); bool nd = ma[0];
    fa::InputNoDataPolicies<In> ip{ma.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    call(ip, op, e, a, r);
    bool c = both(!nd, d);
    T expected = f(a);
    fs_assert(implies(c, same(r, expected)), "result is the function's value of the argument"); fs_assert(implies(!c, same(r, r0)), "nothing is computed for an argument that is no-data or out of domain");
    fs_assert((om[0] != 0) == either(!c, both(rng, !fin(expected))), "result is marked as no-data exactly when the argument is no-data or out of domain, or the result is out of range");
    plain(e, a, p); fs_assert(same(p, expected), "the overload without policies computes the function's value");
    observe("r", r); observe("m", om[0]);
}
#define SIMPLE(ns, name, fn) check(a, [](T x) { return fn(x); }, true, false, [](auto& ip, auto& op, auto& e, T const& v, T& r) { fa::ns::name(ip, op, e, v, r); }, [](auto& e, T const& v, T& r) { fa::ns::name(e, v, r); })
#define DOMAIN(ns, name, fn, d) check(a, [](T x) { return fn(x); }, d, false, [](auto& ip, auto& op, auto& e, T const& v, T& r) { fa::ns::name<fa::name::OutOfDomainPolicy>(ip, op, e, v, r); }, [](auto& e, T const& v, T& r) { fa::ns::name(e, v, r); })
template<class T> void rounding()
{
    fs_merge(1);
    T a = sym<T>("a");
    switch (fs_choose("function", 4)) { case 0: SIMPLE(algebra, ceil, std::ceil); break; case 1: SIMPLE(algebra, floor, std::floor); break; case 2: SIMPLE(algebra, round, std::round); break; default: SIMPLE(algebra, trunc, std::trunc); }
    fs_reach("end");
}
template<class T> void roots()
{
    fs_merge(1);
    T a = sym<T>("a");
    switch (fs_choose("function", 4)) { case 0: DOMAIN(algebra, sqrt, std::sqrt, a >= T(0)); break; case 1: DOMAIN(algebra, log, std::log, a >= T(0)); break; case 2: DOMAIN(algebra, log2, std::log2, a >= T(0)); break; default: DOMAIN(algebra, log10, std::log10, a >= T(0)); }
    fs_reach("end");
}
template<class T> void trigonometry()
{
    fs_merge(1);
    T a = sym<T>("a");
    switch (fs_choose("function", 5)) {
    case 0: DOMAIN(trigonometry, sin, std::sin, fin(a)); break; case 1: DOMAIN(trigonometry, cos, std::cos, fin(a)); break;
    case 2: DOMAIN(trigonometry, asin, std::asin, both(a >= T(-1), a <= T(1))); break; case 3: DOMAIN(trigonometry, acos, std::acos, both(a >= T(-1), a <= T(1))); break;
    default: SIMPLE(trigonometry, atan, std::atan); }
    fs_reach("end");
}
// The tangent is undefined at odd multiples of half pi, as far as they can be represented.
template<class T> void tangent()
{
    fs_merge(1);
    T a = sym<T>("a"), half_pi = static_cast<T>(1.57079632679489661923132169163975144L);
    T q = a / half_pi;
    // multiples that an odd number of times half pi can reach
    fs_assume(either(!fin(a), both(q > T(-4.0e18), q < T(4.0e18))));
    bool multiple = std::remainder(a, half_pi) == T(0);
    bool odd = (static_cast<int64_t>(q) & 1) != 0;
    bool d = both(fin(a), !both(multiple, odd));
    DOMAIN(trigonometry, tan, std::tan, d);
    fs_reach("end");
}
template<class T> void gamma_()
{
    fs_merge(1);
    T a = sym<T>("a");
    check(a, [](T x) { return std::tgamma(x); }, either(a >= T(0), !integral(a)), true, [](auto& ip, auto& op, auto& e, T const& v, T& r) { fa::algebra::tgamma<fa::tgamma::OutOfDomainPolicy, fa::tgamma::OutOfRangePolicy>(ip, op, e, v, r); }, [](auto& e, T const& v, T& r) { fa::algebra::tgamma(e, v, r); });
    fs_reach("end");
}
template<class T> void power()
{
    fs_merge(1);
    T a = sym<T>("a"), b = sym<T>("b"), r0 = sym<T>("r"), r = r0, p = r0; Mask<1> ma, mb, om; ma.fill("mask_a"); mb.fill("mask_b"); bool nd = either(ma[0], mb[0]);
    fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out op = om.out(); fa::SequentialExecutionPolicy e;
    fa::algebra::pow<fa::pow::OutOfDomainPolicy, fa::pow::OutOfRangePolicy>(ip, op, e, a, b, r);
    // an infinite exponent counts as a whole number
    bool whole = either(integral(b), both(!fin(b), b == b));
    bool d = !either(both(a < T(0), !whole), both(a == T(0), b < T(0)));
    bool c = both(!nd, d); T expected = std::pow(a, b);
    fs_assert(implies(c, same(r, expected)), "result is the first argument raised to the power of the second"); fs_assert(implies(!c, same(r, r0)), "nothing is computed for arguments that are no-data or out of domain");
    fs_assert((om[0] != 0) == either(!c, !fin(expected)), "result is marked as no-data exactly when an argument is no-data, the arguments are out of domain, or the result is out of range");
    fa::algebra::pow(e, a, b, p); fs_assert(same(p, expected), "the overload without policies computes the power");
    observe("r", r); observe("m", om[0]); fs_reach("end");
}
#define T(n, A) UNIT(rounding_##n) { rounding<A>(); } UNIT(roots_##n) { roots<A>(); } UNIT(trigonometry_##n) { trigonometry<A>(); } UNIT(tangent_##n) { tangent<A>(); } UNIT(gamma_##n) { gamma_<A>(); } UNIT(power_##n) { power<A>(); }
T(f32, float) T(f64, double)
