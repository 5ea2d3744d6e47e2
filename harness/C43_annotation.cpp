// FERN: core/type_traits core/string core/value_types core/data_types core/expression_type language/operation/core/expression_types language/operation/core/operation language/operation/core/parameter language/operation/core/result language/ast/core/assignment_vertex language/ast/core/ast_vertex language/ast/core/attribute_vertex language/ast/core/expression_vertex language/ast/core/function_call_vertex language/ast/core/function_definition_vertex language/ast/core/if_vertex language/ast/core/module_vertex language/ast/core/name_vertex language/ast/core/operation_vertex language/ast/core/operator_vertex language/ast/core/return_vertex language/ast/core/scope_vertex language/ast/core/sentinel_vertex language/ast/core/statement_vertex language/ast/core/string_vertex language/ast/core/subscript_vertex language/ast/core/while_vertex language/ast/visitor/ast_visitor language/ast/visitor/annotate_visitor language/ast/visitor/validate_visitor language/operation/core/operations language/ast/core/number_vertex
// FLAGS: -include cassert -include string -include vector -include iostream
// SYMFLAGS: -DFS_TEXT -I $V/harness/stub_text
// BOUND: assignments of calls with up to 2 (quick) or 3 (thorough) arguments of an operation with 2 parameters, known or not; every collection of data types and value types as supported by the parameters and as the type of each argument, all symbolic; arguments that are undefined; numbers of each of the types, strings, operators, nested calls, chains of assignments
// ASSUME: texts of messages (the types formatted) are not decided
#include "fs.h"
#include "ast.h"
#include "fern/core/exception.h"
#include "fern/language/ast/visitor/annotate_visitor.h"
#include "fern/language/ast/visitor/validate_visitor.h"
namespace fern {
struct ValueTypesTest { static ValueTypes make(uint64_t b) { return ValueTypes(b); } };
struct DataTypesTest { static DataTypes make(uint64_t b) { return DataTypes(b); } };
}
using namespace fern;
#ifdef FS_TEXT   // formatting a type forks for every flag it may have
std::ostream& drop(std::ostream& s, ExpressionTypes const&) asm("fs_replace._ZN4fern8languagelsERSoRKNS0_15ExpressionTypesE"); __attribute__((used)) std::ostream& drop(std::ostream& s, ExpressionTypes const&) { return s; }
#endif
int const NV = VT_LAST_VALUE_TYPE + 1, ND = DT_LAST_DATA_TYPE + 1;
struct T { uint64_t d = 0, v = 0; ExpressionType e; };
T type(char const* n) { T t; t.d = sym<uint16_t>(n) & ((1u << ND) - 1); t.v = sym<uint16_t>(n) & ((1u << NV) - 1); fs_require(t.d != 0); fs_require(t.v != 0); t.e = ExpressionType(DataTypesTest::make(t.d), ValueTypesTest::make(t.v)); return t; }
bool satisfied(T const& p, T const& a) { return both(both(a.d != 0, (a.d & ~p.d) == 0), both(a.v != 0, (a.v & ~p.v) == 0)); }
// An operation that records the types it is asked for.
std::vector<std::vector<ExpressionType>> asked;
struct Op: public Operation
{
    ExpressionType result;
    Op(std::string const& n, std::vector<Parameter> const& p, ExpressionType const& r): Operation(n, "description", p, {Result("r", "s", r)}), result(r) {}
    ExpressionType expression_type(size_t i, std::vector<ExpressionType> const& t) const override { fs_assert(i == 0, "the first result is asked for"); asked.push_back(t); return result; }
    std::vector<std::shared_ptr<Argument>> execute(std::vector<std::shared_ptr<Argument>> const& a) const override { return a; }
};
Parameter parameter(T const& t) { return Parameter("p", "q", t.e.data_type(), t.e.value_type()); }
struct Outcome { int kind = 0; std::string name; long line = 0, col = 0; size_t argument = 0, required = 0, provided = 0; };
template<class I, class X> typename I::value_type detail_of(X const& e) { auto p = boost::get_error_info<I>(e); fs_assert(p != nullptr, "errors tell the details"); return *p; }
template<class X> void where(Outcome& o, X const& e) { o.line = detail_of<detail::ExceptionLineNr>(e); o.col = detail_of<detail::ExceptionColNr>(e); }
Outcome validate(ModuleVertex& m)
{
    Outcome o; ValidateVisitor v;
    try { m.Accept(v); }
    catch (detail::UndefinedIdentifier const& e) { o.kind = 1; o.name = detail_of<detail::ExceptionIdentifier>(e); where(o, e); }
    catch (detail::UndefinedOperation const& e) { o.kind = 2; o.name = detail_of<detail::ExceptionFunction>(e); where(o, e); }
    catch (detail::WrongNumberOfArguments const& e) { o.kind = 3; o.name = detail_of<detail::ExceptionFunction>(e); where(o, e); o.required = detail_of<detail::ExceptionRequiredNrArguments>(e); o.provided = detail_of<detail::ExceptionProvidedNrArguments>(e); }
    catch (detail::WrongTypeOfArgument const& e) { o.kind = 4; o.name = detail_of<detail::ExceptionFunction>(e); where(o, e); o.argument = detail_of<detail::ExceptionArgumentId>(e); }
    return o;
}
E at(E const& e, int line) { e->set_position(line, line + 1); return e; }
bool is(ExpressionTypes const& t, ExpressionType const& e) { return t.size() == 1 && t[0] == e; }
// x = f(a, b): an operation with two parameters is called with n arguments.
void calls(int n)
{
    fs_merge(1); T p[2] = {type("parameter"), type("parameter")}, r = type("result"), a[3]; bool defined[3], known = fs_choose("known", 2), symbol = n == 2 && fs_choose("operator", 2); SymbolTable<ExpressionType> globals; globals.push_scope();
    ExpressionVertices as; for (int i = 0; i < n; ++i) { defined[i] = fs_choose("defined", 2); std::string s(1, 'a' + i); if (defined[i]) { a[i] = type("argument"); globals.add_value(s, a[i].e); } as.push_back(at(make<NameVertex>(s), 10 + i)); }
    auto f = std::make_shared<Op>(symbol && known ? "add" : known ? "f" : "g", std::vector<Parameter>{parameter(p[0]), parameter(p[1])}, r.e); auto ops = std::shared_ptr<Operations>(new Operations({f}));
    E c; if (symbol) c = at(op("add", as), 1); else c = at(call("f", as), 1); std::string const called = c->name();
    StatementVertices s; E x = make<NameVertex>("x"); s.push_back(make<AssignmentVertex>(x, c)); E y = make<NameVertex>("x"); s.push_back(y); auto m = std::make_shared<ModuleVertex>("source", scope(s));
    AnnotateVisitor v(ops); v.add_global_symbols(globals); m->Accept(v);
    for (int i = 0; i < n; ++i) fs_assert(is(as[i]->expression_types(), a[i].e), "a name has the type it is defined with");
    auto o = dynamic_cast<OperationVertex*>(c.get()); fs_assert(o->operation().get() == (known ? f.get() : nullptr), "calls of known operations know them");
    if (known && n == 2) { fs_assert(asked.size() == 1 && asked[0].size() == 2, "the type of a call is asked for once"); fs_assert(both(asked[0][0] == a[0].e, asked[0][1] == a[1].e), "the type of a call depends on those of its arguments, in their order"); }
    else fs_assert(asked.empty(), "calls that are not valid have no type");
    ExpressionType const e = known && n == 2 ? r.e : ExpressionType(); fs_assert(both(is(c->expression_types(), e), both(is(x->expression_types(), e), is(y->expression_types(), e))), "a call, the target of the assignment, and uses of it have the type of the operation's result");
    fs_assert(v.stack().size() == 1 && v.stack().top() == e, "types of assignments are consumed");
    // Validation reports the first problem.
    Outcome w; for (int i = n - 1; i >= 0; --i) if (!defined[i]) { w = Outcome(); w.kind = 1; w.name = std::string(1, 'a' + i); w.line = 10 + i; w.col = 11 + i; }
    if (w.kind == 0) { w.name = called; w.line = 1; w.col = 2; if (!known) w.kind = 2; else if (n != 2) { w.kind = 3; w.required = 2; w.provided = n; } else if (!fs_split(satisfied(p[0], a[0]))) { w.kind = 4; w.argument = 1; } else if (!fs_split(satisfied(p[1], a[1]))) { w.kind = 4; w.argument = 2; } else w = Outcome(); }
    Outcome g = validate(*m);
    fs_assert(g.kind == w.kind, "validation throws for undefined names and operations, and for the number and types of arguments"); fs_assert(g.name == w.name && g.line == w.line && g.col == w.col, "errors tell what is wrong, and where"); fs_assert(g.argument == w.argument && g.required == w.required && g.provided == w.provided, "errors tell which argument, or how many"); fs_reach("end");
}
UNIT(calls0) { calls(0); }
UNIT(calls1) { calls(1); }
UNIT(calls2) { calls(2); }
UNIT_THOROUGH(calls3) { calls(3); }
// Literals, operators, and chains of assignments: y = x + "s"; z = y.
template<class N> void number(N v, ExpressionType const& t)
{
    auto n = make<NumberVertex<N>>(v); E x = make<NameVertex>("x"); StatementVertices s; s.push_back(make<AssignmentVertex>(x, n)); s.push_back(literal()); E y = make<NameVertex>("y"); E u = make<NameVertex>("x"); s.push_back(make<AssignmentVertex>(y, u));
    auto ops = std::shared_ptr<Operations>(new Operations(std::vector<OperationPtr>())); AnnotateVisitor a(ops); auto m = std::make_shared<ModuleVertex>("source", scope(s)); m->Accept(a);
    fs_assert(same(n->value(), v), "value of a number"); fs_assert(is(n->expression_types(), t) && is(x->expression_types(), t) && is(u->expression_types(), t) && is(y->expression_types(), t), "numbers are constants of their type, and so are names assigned"); auto l = dynamic_cast<StringVertex*>(s[1].get()); fs_assert(is(l->expression_types(), ExpressionType(DataTypes::CONSTANT, ValueTypes::STRING)), "strings are constants"); fs_assert(validate(*m).kind == 0, "valid"); fs_assert(a.stack().size() == 1, "an expression leaves its type"); a.clear_stack(); fs_assert(a.stack().empty(), "cleared");
}
UNIT(literals)
{
    number<int8_t>(sym<int8_t>("v"), ExpressionType(DataTypes::CONSTANT, ValueTypes::INT8)); number<int16_t>(sym<int16_t>("v"), ExpressionType(DataTypes::CONSTANT, ValueTypes::INT16)); number<int32_t>(sym<int32_t>("v"), ExpressionType(DataTypes::CONSTANT, ValueTypes::INT32)); number<int64_t>(sym<int64_t>("v"), ExpressionType(DataTypes::CONSTANT, ValueTypes::INT64));
    number<uint8_t>(sym<uint8_t>("v"), ExpressionType(DataTypes::CONSTANT, ValueTypes::UINT8)); number<uint16_t>(sym<uint16_t>("v"), ExpressionType(DataTypes::CONSTANT, ValueTypes::UINT16)); number<uint32_t>(sym<uint32_t>("v"), ExpressionType(DataTypes::CONSTANT, ValueTypes::UINT32)); number<uint64_t>(sym<uint64_t>("v"), ExpressionType(DataTypes::CONSTANT, ValueTypes::UINT64));
    number<float>(sym<float>("v"), ExpressionType(DataTypes::CONSTANT, ValueTypes::FLOAT32)); number<double>(sym<double>("v"), ExpressionType(DataTypes::CONSTANT, ValueTypes::FLOAT64)); fs_reach("end");
}
// a = ...; c = f(b, f(a, "s")); d = a: nested calls, and names that are assigned before they are used, or not.
UNIT(nested)
{
    fs_merge(1); T p[2] = {type("parameter"), type("parameter")}, r = type("result"), g = type("global"); bool assigned = fs_choose("assigned", 2); SymbolTable<ExpressionType> globals; globals.push_scope(); globals.add_value("a", g.e); globals.add_value("b", g.e);
    auto f = std::make_shared<Op>("f", std::vector<Parameter>{parameter(p[0]), parameter(p[1])}, r.e); auto ops = std::shared_ptr<Operations>(new Operations({f})); StatementVertices s; ExpressionType const text(DataTypes::CONSTANT, ValueTypes::STRING);
    if (assigned) { E l = literal(); E a = make<NameVertex>("a"); s.push_back(make<AssignmentVertex>(a, l)); } E b = at(make<NameVertex>("b"), 20), a = at(make<NameVertex>("a"), 30), l = literal(), inner = at(call("f", {a, l}), 3), outer = at(call("f", {b, inner}), 1), c = make<NameVertex>("c"); s.push_back(make<AssignmentVertex>(c, outer));
    auto m = std::make_shared<ModuleVertex>("source", scope(s)); AnnotateVisitor v(ops); v.add_global_symbols(globals); m->Accept(v); T w = g; if (assigned) { w.d = 1u << DT_CONSTANT; w.v = 1u << VT_STRING; w.e = text; } T t; t.d = 1u << DT_CONSTANT; t.v = 1u << VT_STRING; t.e = text;
    fs_assert(asked.size() == 2 && asked[0].size() == 2 && asked[1].size() == 2, "each call is asked for once"); fs_assert(both(both(asked[0][0] == w.e, asked[0][1] == text), both(asked[1][0] == g.e, asked[1][1] == r.e)), "arguments of nested calls, in their order"); fs_assert(both(is(outer->expression_types(), r.e), is(inner->expression_types(), r.e)), "type of the call"); fs_assert(v.stack().empty(), "types of assignments are consumed");
    Outcome o; o.name = "f"; if (!fs_split(satisfied(p[0], w))) { o.kind = 4; o.argument = 1; o.line = 3; o.col = 4; } else if (!fs_split(satisfied(p[1], t))) { o.kind = 4; o.argument = 2; o.line = 3; o.col = 4; } else if (!fs_split(satisfied(p[0], g))) { o.kind = 4; o.argument = 1; o.line = 1; o.col = 2; } else if (!fs_split(satisfied(p[1], r))) { o.kind = 4; o.argument = 2; o.line = 1; o.col = 2; } else o = Outcome();
    Outcome q = validate(*m); fs_assert(q.kind == o.kind && q.name == o.name && q.line == o.line && q.col == o.col && q.argument == o.argument, "the innermost problem is reported"); fs_reach("end");
}
