// FERN: core/type_traits core/string core/value_types core/data_types core/expression_type language/operation/core/expression_types language/operation/core/operation language/operation/core/parameter language/operation/core/result language/ast/core/assignment_vertex language/ast/core/ast_vertex language/ast/core/attribute_vertex language/ast/core/expression_vertex language/ast/core/function_call_vertex language/ast/core/function_definition_vertex language/ast/core/if_vertex language/ast/core/module_vertex language/ast/core/name_vertex language/ast/core/operation_vertex language/ast/core/operator_vertex language/ast/core/return_vertex language/ast/core/scope_vertex language/ast/core/sentinel_vertex language/ast/core/statement_vertex language/ast/core/string_vertex language/ast/core/subscript_vertex language/ast/core/while_vertex language/ast/visitor/ast_visitor language/ast/visitor/io_visitor
// FLAGS: -include cassert -include string -include vector -include iostream
// BOUND: modules of up to 4 (quick) or 6 (thorough) statements: assignments, expressions, and conditionals with expressions; 7 shapes of expressions; every name is symbolic, one of 2 or 4 letters
#include "fs.h"
#include "ast.h"
#include "fern/language/ast/visitor/io_visitor.h"
// Inputs are the names used, each once, in the order of their first use. Outputs are the last definitions of the names defined, in their order.
void check(IOVisitor& v, std::shared_ptr<ModuleVertex> const& m)
{
    m->Accept(v); std::vector<std::string> in; std::vector<NameVertex const*> out;
    for (size_t i = 0; i < events.size(); ++i) {
        bool found = false;
        if (events[i].kind == 'u') { for (auto const& n : in) found = found || n[0] == events[i].name; if (!found) in.push_back(std::string(1, events[i].name)); }
        else { for (size_t j = i + 1; j < events.size(); ++j) found = found || (events[j].kind == 'd' && events[j].name == events[i].name); if (!found) out.push_back(events[i].vertex); }
    }
    fs_assert(v.inputs() == in, "inputs are the names used, in the order of their first use"); fs_assert(v.outputs() == out, "outputs are the last definitions of the names");
}
void check(StatementVertices const& s) { auto m = std::make_shared<ModuleVertex>("source", scope(s)); IOVisitor v; check(v, m); check(v, m); fs_reach("end"); }
UNIT(assignments) { int a = fs_choose("first", SHAPES), b = fs_choose("second", SHAPES); LETTERS = 2; StatementVertices s; s.push_back(assign(a)); s.push_back(assign(b)); s.push_back(expression(1)); check(s); }
UNIT(redefinitions) { StatementVertices s; for (int i = 0; i < 4; ++i) s.push_back(assign(0)); check(s); }
UNIT_THOROUGH(redefinitions5) { StatementVertices s; for (int i = 0; i < 5; ++i) s.push_back(assign(0)); check(s); }
UNIT(uses) { StatementVertices s; s.push_back(expression(6)); s.push_back(expression(4)); check(s); }
UNIT(redefinitions_split) { SPLIT = true; StatementVertices s; for (int i = 0; i < 6; ++i) s.push_back(assign(i % 3 == 1 ? 1 : 0)); check(s); }
UNIT(conditional) { SPLIT = true; StatementVertices s, t, f; s.push_back(assign(0)); E c = use(); t.push_back(expression(2)); f.push_back(expression(3)); s.push_back(std::make_shared<IfVertex>(c, scope(t), scope(f))); s.push_back(assign(1)); check(s); }
// The visitor starts anew with every module.
UNIT(modules) { LETTERS = 2; IOVisitor v; for (int i = 0; i < 2; ++i) { events.clear(); StatementVertices s; s.push_back(assign(1)); s.push_back(assign(0)); check(v, std::make_shared<ModuleVertex>("source", scope(s))); } fs_reach("end"); }
