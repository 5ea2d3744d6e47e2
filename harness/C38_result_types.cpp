// FERN: core/type_traits core/string core/value_types core/data_types core/expression_type language/operation/core/expression_types language/operation/core/expression_type_calculation language/operation/core/operation language/operation/core/parameter language/operation/core/result language/operation/core/operations
// FLAGS: -include cassert -include string -include vector -include iostream
// BOUND: operations with 1, 2 (quick) and 3 (thorough) parameters and up to 2 results; every collection of data types and value types as supported by parameters and results, and every collection (also none) as the types of the arguments, all symbolic
// BOUND: collections of up to 3 operations whose names have 1 or 2 symbolic characters
#include "fs.h"
#include "fern/core/type_traits.h"
#include "fern/language/operation/core/expression_type_calculation.h"
#include "fern/language/operation/core/operation.h"
#include "fern/language/operation/core/operations.h"
namespace fern {
struct ValueTypesTest { static ValueTypes make(uint64_t b) { return ValueTypes(b); } };
struct DataTypesTest { static DataTypes make(uint64_t b) { return DataTypes(b); } };
}
using namespace fern; using namespace fern::language;
int const NV = VT_LAST_VALUE_TYPE + 1, ND = DT_LAST_DATA_TYPE + 1;
uint64_t bits(char const* n, int w) { uint64_t v = sym<uint16_t>(n); return v & ((1u << w) - 1); }
template<class F> bool holds(F const& f, uint64_t v, int w) { bool ok = true; for (int i = 0; i < w; ++i) ok = both(ok, f.test(i) == (((v >> i) & 1) != 0)); return ok; }
bool one(uint64_t v) { return both(v != 0, (v & (v - 1)) == 0); }
struct T { uint64_t d, v; ExpressionType e; };
T type(char const* n, bool defined)
{
    T t; t.d = t.v = 0; if (!defined) return t;
    t.d = bits(n, ND); t.v = bits(n, NV); fs_require(t.d != 0); fs_require(t.v != 0); t.e = ExpressionType(DataTypesTest::make(t.d), ValueTypesTest::make(t.v)); return t;
}
struct Op: public Operation
{
    Op(std::string const& n, std::string const& d, std::vector<Parameter> const& p, std::vector<Result> const& r): Operation(n, d, p, r) {}
    ExpressionType expression_type(size_t i, std::vector<ExpressionType> const& t) const override { return standard_expression_type(*this, i, t); }
    std::vector<std::shared_ptr<Argument>> execute(std::vector<std::shared_ptr<Argument>> const& a) const override { return a; }
};
template<int ARITY> void calculation(bool results2)
{
    fs_merge(1); T p[ARITY], a[ARITY], r; std::vector<Parameter> ps; std::vector<ExpressionType> as; std::vector<Result> rs;
    uint64_t md = 0, mv = 0, pd = 0, pv = 0;
    for (int i = 0; i < ARITY; ++i) {
        p[i] = type("parameter", true); Parameter const par("p", "q", p[i].e.data_type(), p[i].e.value_type()); ps.push_back(par); a[i] = type("argument", fs_choose("defined", 2)); as.push_back(a[i].e);
        md |= a[i].d & p[i].d; mv |= a[i].v & p[i].v; pd |= p[i].d; pv |= p[i].v;
    }
    r = type("result", true);
    // Data type: the operation's own, or a field if one of the arguments is, a constant if all are.
    uint64_t const F = 1u << DT_STATIC_FIELD, C = 1u << DT_CONSTANT; uint64_t d = one(r.d) ? r.d : md & F ? F : md & C ? C : pd;
    // Value type: the operation's own, that of the only argument, or the widest.
    static int const rank[] = {VT_INT8, VT_UINT8, VT_INT16, VT_UINT16, VT_INT32, VT_UINT32, VT_INT64, VT_UINT64, VT_FLOAT32, VT_FLOAT64};
    uint64_t v = 0; bool number = false; for (int k : rank) { bool h = (mv >> k) & 1; v = h ? 1ull << k : v; number = either(number, h); }
    v = one(mv) ? mv : mv == 0 ? pv : v; bool own = one(r.v), propagated = both(ARITY == 1, a[0].v != 0);
    fs_require(either(either(own, propagated), either(number, either(mv == 0, one(mv))))); // combinations of only booleans, characters and strings have no type
    v = own ? r.v : propagated ? a[0].v : v;
    fs_require((d & ~r.d) == 0); fs_require(either(propagated, (v & ~r.v) == 0));   // operations declare every type they may result in
    Result const first("o", "s", ExpressionType(DataTypes::CONSTANT, ValueTypes::BOOL)), last("r", "s", r.e); if (results2) rs.push_back(first); rs.push_back(last);
    Op op("name", "description", ps, rs); ExpressionType e = op.expression_type(results2 ? 1 : 0, as);
    fs_assert(holds(e.data_type(), d, ND), "data type of the result: a field if an argument is, otherwise a constant"); fs_assert(holds(e.value_type(), v, NV), "value type of the result: the argument's, or the widest of the arguments'");
    if (results2) { ExpressionType o = op.expression_type(0, as); fs_assert(o.data_type() == DataTypes::CONSTANT && o.value_type() == ValueTypes::BOOL, "each result has its own type"); }
    fs_assert(op.arity() == ARITY && op.parameters().size() == ARITY && op.results().size() == rs.size() && op.name() == "name" && op.description() == "description", "an operation describes itself");
    for (int i = 0; i < ARITY; ++i) fs_assert(both(op.parameters()[i].expression_types()[0] == p[i].e, both(op.parameters()[i].name() == "p", op.parameters()[i].description() == "q")), "parameters keep their types"); fs_assert(op.results().back().expression_type() == r.e && op.results().back().name() == "r" && op.results().back().description() == "s", "results keep their types");
    Parameter q("x", "y", DataTypes::ALL, ValueTypes::ALL); q = op.parameters()[0]; fs_assert(q.expression_types().size() == 1 && q.expression_types()[0] == p[0].e && q.name() == "p", "copies of parameters"); Result s("x", "y", ExpressionType(DataTypes::ALL, ValueTypes::ALL)); s = op.results().back(); fs_assert(s.expression_type() == r.e && s.name() == "r", "copies of results");
    fs_reach("end");
}
UNIT(unary) { calculation<1>(false); }
UNIT(unary_results) { calculation<1>(true); }
UNIT(binary) { calculation<2>(false); }
UNIT_THOROUGH(ternary) { calculation<3>(true); }
// A type that all arguments and parameters agree on is the type of the result.
UNIT(same_type) {
    int k = fs_choose("value type", NV), d = fs_choose("data type", ND); auto vt = ValueTypesTest::make(1ull << k); auto dt = DataTypesTest::make(1ull << d);
    std::vector<Parameter> ps(2, Parameter("p", "q", DataTypes::ALL, ValueTypes::ALL)); std::vector<Result> rs(1, Result("r", "s", ExpressionType(DataTypes::ALL, ValueTypes::ALL))); std::vector<ExpressionType> as(2, ExpressionType(dt, vt));
    if (!vt.is_subset_of(ValueTypes::ALL)) return; ExpressionType e = Op("n", "d", ps, rs).expression_type(0, as); fs_assert(e.fixed() && e == as[0], "the type of equally typed arguments"); fs_reach("end");
}
UNIT(operations) {
    std::string n[3]; for (int i = 0; i < 3; ++i) { n[i] = i == 1 ? "xy" : "x"; for (auto& c : n[i]) { c = sym<char>("character"); fs_require(c != 0); } } fs_require(n[0][0] != n[2][0]);
    std::vector<OperationPtr> ops; size_t k = fs_choose("number", 4); for (size_t i = 0; i < k; ++i) ops.push_back(std::make_shared<Op>(n[i], "d", std::vector<Parameter>(), std::vector<Result>()));
    Operations o(ops); fs_assert(o.size() == k && o.empty() == (k == 0), "number of operations");
    for (size_t i = 0; i < 3; ++i) { fs_assert(o.has_operation(n[i]) == (i < k), "an operation is known by its name"); if (i < k) fs_assert(o.operation(n[i]) == ops[i], "an operation is found by its name"); }
    if (k == 2) { Operations l{ops[0], ops[1]}; fs_assert(l.size() == 2 && l.operation(n[1]) == ops[1] && l.operation(n[0]) == ops[0] && !l.has_operation(n[2]), "operations listed in place"); }
    fs_reach("end");
}
