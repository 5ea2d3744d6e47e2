// FERN: algorithm/policy/parallel_execution_policy core/thread_pool core/join_threads algorithm/core/index_range algorithm/core/index_ranges feature/core/array
// BOUND: argument shapes 0d/0d, 0d/1d, 1d/0d, 1d/1d (3 or 4 cells), 0d/2d, 2d/0d, 2d/2d (2x2, 3x2, 2x3 cells) with value types int32/int64/int16/double mixed; all cell values, both no-data masks and prior contents of the result symbolic
// BOUND: sequential, parallel (2 threads, one schedule; C04 varies schedules) and run-time selected execution policies
#include "common.h"
#include "fern/algorithm/core/binary_local_operation.h"
// Asymmetric operation and policies whose outcome depends on every bit of both
// arguments in their own types.
template<class T> uint64_t raw(T v) { return bits(v); }
template<class A, class B> uint64_t op_value(A a, B b) { return raw(a) + 3 * raw(b); }
template<class A, class B> bool op_domain(A a, B b) { return ((raw(a) ^ (raw(b) >> 2)) & 3) != 1; }
template<class A, class B> bool op_range(A, B b, uint64_t r) { return either((r & 4) == 0, (raw(b) & 8) != 0); }
template<class A, class B> struct Op { template<class R> void operator()(A const& a, B const& b, R& r) const { r = static_cast<R>(op_value<A, B>(a, b)); } };
template<class A, class B> struct Dom { static bool within_domain(A const& a, B const& b) { return op_domain<A, B>(a, b); } };
template<class A, class B, class R> struct Rng { static bool within_range(A const& a, B const& b, R const& r) { return op_range<A, B>(a, b, r); } };
template<class T> struct Val { typedef T type; };
template<class T> struct Val<std::vector<T>> { typedef T type; };
template<class T, size_t D> struct Val<fern::Array<T, D>> { typedef T type; };
template<class T> constexpr bool scalar() { return std::is_arithmetic<T>::value; }
template<size_t N, class A, class B, class R> void run(int which, A& a, B& b, R& r, size_t cols)
{
    fs_merge(1);
    fill_sym(a, "a"); fill_sym(b, "b"); fill_sym(r, "r");
    constexpr size_t NA = scalar<A>() ? 1 : N, NB = scalar<B>() ? 1 : N;
    R r0(r); Mask<NA> ma(scalar<A>() ? 1 : cols); Mask<NB> mb(scalar<B>() ? 1 : cols); Mask<N> om(cols); ma.fill("mask_a"); mb.fill("mask_b");
    fa::InputNoDataPolicies<In, In> ip{ma.in(), mb.in()}; Out op = om.out();
    with_policy(which, [&](auto& e) { fa::binary_local_operation<Op, Dom, Rng>(ip, op, e, a, b, r); });
    for (size_t i = 0; i < N; ++i) {
        typename Val<A>::type x = at(a, scalar<A>() ? 0 : i); typename Val<B>::type y = at(b, scalar<B>() ? 0 : i);
        uint64_t expected = op_value(x, y);
        bool computed = both(both(!ma[scalar<A>() ? 0 : i], !mb[scalar<B>() ? 0 : i]), op_domain(x, y));
        bool marked = either(!computed, !op_range(x, y, expected));
        fs_assert(om[i] == marked, "a result cell is marked as no-data exactly when an input is no-data, out of domain or the result is out of range");
        fs_assert(implies(computed, bits(at(r, i)) == expected), "computed cell holds the operation's value of the cell's own arguments");
        fs_assert(implies(!computed, bits(at(r, i)) == bits(at(r0, i))), "cell that is not computed keeps its value");
        observe("r", at(r, i)); observe("m", om[i]);
    }
    fs_reach("end");
}
typedef uint64_t R;
typedef std::vector<R> RV; typedef fern::Array<R, 2> RA;
template<class A, class B> void s_s() { A a; B b; R r; run<1>(static_cast<int>(fs_choose("policy", 4)), a, b, r, 1); }
template<class A, class B, size_t N> void s_1(int w) { A a; std::vector<B> b(N); RV r(N); run<N>(w, a, b, r, N); }
template<class A, class B, size_t N> void v_s(int w) { std::vector<A> a(N); B b; RV r(N); run<N>(w, a, b, r, N); }
template<class A, class B, size_t N> void v_v(int w) { std::vector<A> a(N); std::vector<B> b(N); RV r(N); run<N>(w, a, b, r, N); }
template<class A, class B, size_t X, size_t Y> void s_2(int w) { A a; fern::Array<B, 2> b(X, Y); RA r(fern::extents[X][Y]); run<X * Y>(w, a, b, r, Y); }
template<class A, class B, size_t X, size_t Y> void a_s(int w) { fern::Array<A, 2> a(X, Y); B b; RA r(fern::extents[X][Y]); run<X * Y>(w, a, b, r, Y); }
template<class A, class B, size_t X, size_t Y> void a_a(int w) { fern::Array<A, 2> a(X, Y); fern::Array<B, 2> b(X, Y); RA r(fern::extents[X][Y]); run<X * Y>(w, a, b, r, Y); }
#define ALL(name, call) UNIT(name##_seq) { call(0); } UNIT(name##_par) { call(1); } UNIT(name##_vseq) { call(2); } UNIT(name##_vpar) { call(3); }
UNIT(d00_int_long) { s_s<int32_t, int64_t>(); }
UNIT(d00_double_int) { s_s<double, int16_t>(); }
ALL(d01_int_long, (s_1<int32_t, int64_t, 3>))
ALL(d10_int_long, (v_s<int32_t, int64_t, 3>))
ALL(d11_int_long, (v_v<int32_t, int64_t, 3>))
ALL(d02_int_long, (s_2<int32_t, int64_t, 2, 2>))
ALL(d20_int_long, (a_s<int32_t, int64_t, 2, 2>))
ALL(d22_int_long, (a_a<int32_t, int64_t, 2, 2>))
UNIT(d01_short_double) { s_1<int16_t, double, 3>(static_cast<int>(fs_choose("policy", 2))); }
UNIT(d10_short_double) { v_s<int16_t, double, 3>(static_cast<int>(fs_choose("policy", 2))); }
UNIT(d11_short_double) { v_v<int16_t, double, 4>(static_cast<int>(fs_choose("policy", 2))); }
UNIT(d02_short_double) { s_2<int16_t, double, 3, 2>(static_cast<int>(fs_choose("policy", 2))); }
UNIT(d20_short_double) { a_s<int16_t, double, 2, 3>(static_cast<int>(fs_choose("policy", 2))); }
UNIT(d22_short_double) { a_a<int16_t, double, 3, 2>(static_cast<int>(fs_choose("policy", 2))); }
UNIT(d11_double_short) { v_v<double, int16_t, 3>(static_cast<int>(fs_choose("policy", 2))); }
UNIT(d22_double_short) { a_a<double, int16_t, 2, 2>(static_cast<int>(fs_choose("policy", 2))); }
UNIT_THOROUGH(d11_big) { v_v<int16_t, int64_t, 7>(static_cast<int>(fs_choose("policy", 4))); }
UNIT_THOROUGH(d22_big) { a_a<int16_t, int64_t, 5, 3>(static_cast<int>(fs_choose("policy", 4))); }
UNIT_THOROUGH(d02_big) { s_2<int16_t, int64_t, 5, 3>(static_cast<int>(fs_choose("policy", 4))); }
UNIT_THOROUGH(d20_big) { a_s<int16_t, int64_t, 5, 3>(static_cast<int>(fs_choose("policy", 4))); }
