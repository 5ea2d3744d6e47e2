// FERN: core/type_traits core/string core/value_types core/data_types core/expression_type language/operation/core/expression_types
// BOUND: every collection of value types (13 flags) and of data types (2 flags), and collections of a generic 5-flag type, symbolic; expression types over all of those; lists of up to 3 possible expression types
// FLAGS: -include cassert -include string -include vector
#include "fs.h"
#include <initializer_list>
#include "fern/core/type_traits.h"
#include "fern/core/value_types.h"
#include "fern/core/data_types.h"
#include "fern/core/expression_type.h"
#include "fern/language/operation/core/expression_types.h"
namespace fern {
struct ValueTypesTest { static ValueTypes make(uint64_t b) { return ValueTypes(b); } };
struct DataTypesTest { static DataTypes make(uint64_t b) { return DataTypes(b); } };
}
using fern::ValueTypes; using fern::DataTypes; using fern::ExpressionType; using fern::language::ExpressionTypes;
ValueTypes make(ValueTypes*, uint64_t b) { return fern::ValueTypesTest::make(b); }
DataTypes make(DataTypes*, uint64_t b) { return fern::DataTypesTest::make(b); }
int const NV = fern::VT_LAST_VALUE_TYPE + 1, ND = fern::DT_LAST_DATA_TYPE + 1;
uint64_t bits(char const* n, int w) { uint64_t v = sym<uint16_t>(n); v &= (1u << w) - 1; return v; }
unsigned ones(uint64_t v, int w) { unsigned r = 0; for (int i = 0; i < w; ++i) r += (v >> i) & 1; return r; }
template<class F> bool holds(F const& f, uint64_t v, int w) { bool ok = true; for (int i = 0; i < w; ++i) ok = both(ok, f.test(i) == (((v >> i) & 1) != 0)); return ok; }
template<class F> void sets(int w)
{
    fs_merge(1); uint64_t x = bits("x", w), y = bits("y", w); F const a = make((F*)0, x), b = make((F*)0, y);
    fs_assert(holds(a, x, w), "a flag is set when it was asked for"); fs_assert(a.count() == ones(x, w), "count of flags");
    fs_assert(both(a.none() == (x == 0), a.any() == (x != 0)), "none and any"); fs_assert(a.fixed() == (ones(x, w) == 1), "fixed means exactly one flag");
    fs_assert(holds(a & b, x & y, w), "intersection"); fs_assert(holds(a | b, x | y, w), "union");
    F c(a); F& r = (c &= b); fs_assert(both(&r == &c, holds(c, x & y, w)), "intersecting in place");
    F d(a); F& s = (d |= b); fs_assert(both(&s == &d, holds(d, x | y, w)), "uniting in place");
    F e(a); F& t = (e ^= b); fs_assert(both(&t == &e, holds(e, x ^ y, w)), "symmetric difference in place");
    fs_assert(both(holds(a, x, w), holds(b, y, w)), "operands are left alone");
    fs_assert(both((a == b) == (x == y), (a != b) == (x != y)), "equality"); fs_assert(a.is_subset_of(b) == both(x != 0, (x & ~y) == 0), "a non-empty collection is a subset when all its flags are in the other");
    F empty; fs_assert(empty.none(), "a default constructed collection is empty"); F m(std::move(c)); fs_assert(holds(m, x & y, w), "moving keeps the flags");
    observe("x", x); fs_reach("end");
}
UNIT(value_types) { sets<ValueTypes>(NV); }
UNIT(data_types) { sets<DataTypes>(ND); }
// Each named collection holds the flags of its name, and nothing else.
UNIT(named) {
    using namespace fern; auto only = [](ValueTypes const& v, std::initializer_list<ValueType> f) { uint64_t b = 0; for (auto x : f) b |= 1ull << x; return holds(v, b, NV); };
    typedef ValueTypes V;
    fs_assert(only(V::UNKNOWN, {}) && only(V::BOOL, {VT_BOOL}) && only(V::CHAR, {VT_CHAR}) && only(V::UINT8, {VT_UINT8}) && only(V::INT8, {VT_INT8}) && only(V::UINT16, {VT_UINT16}) && only(V::INT16, {VT_INT16}) && only(V::UINT32, {VT_UINT32}) && only(V::INT32, {VT_INT32}) && only(V::UINT64, {VT_UINT64}) && only(V::INT64, {VT_INT64}) && only(V::FLOAT32, {VT_FLOAT32}) && only(V::FLOAT64, {VT_FLOAT64}) && only(V::STRING, {VT_STRING}), "single value types");
    fs_assert(only(V::UNSIGNED_INTEGER, {VT_UINT8, VT_UINT16, VT_UINT32, VT_UINT64}) && only(V::SIGNED_INTEGER, {VT_INT8, VT_INT16, VT_INT32, VT_INT64}) && only(V::INTEGER, {VT_UINT8, VT_UINT16, VT_UINT32, VT_UINT64, VT_INT8, VT_INT16, VT_INT32, VT_INT64}) && only(V::FLOATING_POINT, {VT_FLOAT32, VT_FLOAT64}) && only(V::SIZE, {VT_UINT64}), "groups of value types");
    fs_assert(V::NUMBER == (V::INTEGER | V::FLOATING_POINT), "numbers are the integers and floating points"); fs_assert(V::NUMBER.is_subset_of(V::ALL) && V::STRING.is_subset_of(V::ALL), "all value types");
    fs_assert(holds(DataTypes::UNKNOWN, 0, ND) && holds(DataTypes::CONSTANT, 1 << DT_CONSTANT, ND) && holds(DataTypes::STATIC_FIELD, 1 << DT_STATIC_FIELD, ND) && holds(DataTypes::ALL, (1 << DT_CONSTANT) | (1 << DT_STATIC_FIELD), ND), "data types");
    fs_reach("end");
}
template<class F> void names(int w)
{
    unsigned i = fs_choose("first", w), j = fs_choose("second", w); uint64_t x = 1ull << i, y = 1ull << j; F a = make((F*)0, x), b = make((F*)0, x | y);
    std::string s = a.to_string(), t = make((F*)0, y).to_string();
    fs_assert(!s.empty() && F::from_string(s) == a, "the name of a single flag gives that flag"); fs_assert((s == t) == (i == j), "names are different");
    fs_assert(b.to_string() == (i == j ? s : i < j ? s + "|" + t : t + "|" + s), "names of more flags are joined in the order of the flags"); fs_assert(F().to_string() == "?", "the empty collection has no name");
    fs_reach("end");
}
UNIT(value_type_names) { names<ValueTypes>(NV); }
UNIT(data_type_names) { names<DataTypes>(ND); }
UNIT(group_names) { fs_assert(ValueTypes::from_string("Number") == ValueTypes::NUMBER && ValueTypes::from_string("All") == ValueTypes::ALL && ValueTypes::from_string("Size") == ValueTypes::SIZE && DataTypes::from_string("All") == DataTypes::ALL, "names of groups"); fs_reach("end"); }
struct T { uint64_t d, v; ExpressionType e; };
T type(char const* n, bool defined)
{
    T t; std::string s(n); t.d = bits((s + ".d").c_str(), ND); t.v = bits((s + ".v").c_str(), NV); if (defined) { fs_require(t.d != 0); fs_require(t.v != 0); t.e = ExpressionType(make((DataTypes*)0, t.d), make((ValueTypes*)0, t.v)); } else t.d = t.v = 0; return t;
}
bool sat(T const& a, T const& b) { return both(both(b.d != 0, (b.d & ~a.d) == 0), both(b.v != 0, (b.v & ~a.v) == 0)); }
bool fixed(T const& a) { return both(ones(a.d, ND) == 1, ones(a.v, NV) == 1); }
UNIT(expression_type) {
    fs_merge(1); T a = type("a", fs_choose("a.defined", 2)), b = type("b", fs_choose("b.defined", 2));
    fs_assert(both(holds(a.e.data_type(), a.d, ND), holds(a.e.value_type(), a.v, NV)), "an expression type holds its types"); fs_assert(a.e.defined() == both(a.d != 0, a.v != 0), "defined"); fs_assert(a.e.fixed() == fixed(a), "fixed when both types are");
    bool eq = both(a.d == b.d, a.v == b.v); fs_assert(both((a.e == b.e) == eq, (a.e != b.e) == !eq), "equality"); fs_assert(a.e.is_satisfied_by(b.e) == sat(a, b), "satisfied by types that are both subsets"); fs_reach("end");
}
template<int N> struct L { T t[N + 1]; size_t n; ExpressionTypes e; };
template<int N> void list(L<N>& l, char const* n)
{
    l.n = fs_choose(n, N + 1); std::string names[3] = {"0", "1", "2"}; for (size_t i = 0; i < l.n; ++i) { l.t[i] = type((std::string(n) + names[i]).c_str(), true); l.e.add(l.t[i].e); }
}
template<int N, int M> void lists()
{
    fs_merge(1); L<N> a; L<M> b; list<N>(a, "a"); list<M>(b, "b");
    fs_assert(a.e.size() == a.n && a.e.is_empty() == (a.n == 0), "size of a list"); bool f = a.n > 0; size_t k = 0; ExpressionTypes const& c(a.e);
    for (auto const& e : a.e) { fs_assert(both(both(e == a.t[k].e, c[k] == a.t[k].e), a.e[k] == a.t[k].e), "types are listed in the order they were added"); f = both(f, fixed(a.t[k])); ++k; }
    fs_assert(k == a.n && a.e.fixed() == f, "fixed when not empty and all types are"); size_t id = b.n;
    for (size_t i = b.n; i-- > 0;) { bool any = false; for (size_t j = 0; j < a.n; ++j) any = either(any, sat(a.t[j], b.t[i])); id = any ? i : id; }
    fs_assert(a.e.id_of_satisfying_type(b.e) == id, "first type that satisfies, or the number of types"); fs_assert(a.e.is_satisfied_by(b.e) == (id < b.n), "satisfied when one type satisfies"); fs_reach("end");
}
UNIT(expression_types) { lists<2, 2>(); }
UNIT_THOROUGH(expression_types3) { lists<3, 3>(); }
