// FERN: core/type_traits core/string core/value_types core/data_types core/expression_type language/operation/core/expression_types language/operation/core/operation language/operation/core/parameter language/operation/core/result language/ast/core/assignment_vertex language/ast/core/ast_vertex language/ast/core/attribute_vertex language/ast/core/expression_vertex language/ast/core/function_call_vertex language/ast/core/function_definition_vertex language/ast/core/if_vertex language/ast/core/module_vertex language/ast/core/name_vertex language/ast/core/operation_vertex language/ast/core/operator_vertex language/ast/core/return_vertex language/ast/core/scope_vertex language/ast/core/sentinel_vertex language/ast/core/statement_vertex language/ast/core/string_vertex language/ast/core/subscript_vertex language/ast/core/while_vertex language/ast/visitor/ast_visitor language/ast/visitor/identify_visitor
// FLAGS: -include cassert -include string -include vector -include iostream
// BOUND: modules of up to 4 statements: assignments, expressions, conditionals and loops, also nested; 7 shapes of expressions; every name is symbolic, one of 3 letters
#include "fs.h"
#include "ast.h"
#include "fern/language/ast/visitor/identify_visitor.h"
// Every use is linked with the latest definition of its name in the innermost scope that has one.
void check(StatementVertices const& s)
{
    auto m = std::make_shared<ModuleVertex>("source", scope(s)); IdentifyVisitor v; m->Accept(v);
    std::vector<Event> env; std::vector<std::pair<NameVertex*, NameVertex*>> links;
    for (auto const& e : events) {
        if (e.kind == '(') env.push_back(e);
        else if (e.kind == ')') { while (env.back().kind != '(') env.pop_back(); env.pop_back(); }
        else if (e.kind == 'd') { fs_assert(e.vertex->definitions().size() == 1 && e.vertex->definitions()[0] == e.vertex, "a definition is its own definition"); env.push_back(e); }
        else {
            NameVertex* d = nullptr; for (auto const& x : env) if (x.kind == 'd' && x.name == e.name) d = x.vertex;
            if (d) { fs_assert(e.vertex->definitions().size() == 1 && e.vertex->definitions()[0] == d, "a use is linked with the definition visible there"); links.push_back({d, e.vertex}); }
            else fs_assert(e.vertex->definitions().empty(), "a use of a name that is not defined there has no definition");
            fs_assert(e.vertex->uses().empty(), "a use is not a definition");
        }
    }
    for (auto const& e : events) if (e.kind == 'd') {
        size_t n = 0; for (auto const& l : links) if (l.first == e.vertex) { fs_assert(n < e.vertex->uses().size() && e.vertex->uses()[n] == l.second, "a definition knows its uses"); ++n; }
        fs_assert(e.vertex->uses().size() == n, "a definition knows only its uses");
    }
    fs_assert(v.symbol_table().empty() && v.symbol_table().scope_level() == 0, "nothing stays defined after the module"); fs_reach("end");
}
UNIT(assignments) { int a = fs_choose("first", SHAPES), b = fs_choose("second", SHAPES); StatementVertices s; s.push_back(assign(a)); s.push_back(assign(b)); s.push_back(expression(1)); check(s); }
UNIT(redefinitions) { LETTERS = 2; StatementVertices s; s.push_back(assign(0)); s.push_back(assign(1)); s.push_back(assign(1)); s.push_back(expression(2)); check(s); }
template<class V> void block()
{
    bool both = fs_choose("two statements", 2), other = fs_choose("alternative", 2); StatementVertices s, t, f; SPLIT = true;
    s.push_back(assign(0)); E c = use(); open(); t.push_back(assign(1)); if (both) t.push_back(expression(1)); close(); open(); if (other) { f.push_back(assign(1)); f.push_back(expression(1)); } close();
    s.push_back(std::make_shared<V>(c, scope(t), scope(f))); s.push_back(expression(2)); check(s);
}
UNIT(conditional) { block<IfVertex>(); }
UNIT(loop) { block<WhileVertex>(); }
template<class V, class W> void nested()
{
    SPLIT = true; StatementVertices s, t, u; s.push_back(assign(0)); E c = use(); open(); t.push_back(assign(1)); E d = use(); open(); u.push_back(assign(1)); u.push_back(expression(1)); close(); t.push_back(std::make_shared<W>(d, scope(u), scope({}))); t.push_back(expression(1)); close();
    s.push_back(std::make_shared<V>(c, scope(t), scope({}))); s.push_back(expression(1)); check(s);
}
UNIT(nested_conditional) { nested<IfVertex, IfVertex>(); }
UNIT(nested_loop) { nested<WhileVertex, IfVertex>(); }
UNIT_THOROUGH(nested_mixed) { nested<IfVertex, WhileVertex>(); }
UNIT_THOROUGH(chain) { StatementVertices s; for (int i = 0; i < 3; ++i) s.push_back(assign(i == 1 ? 6 : 1)); s.push_back(expression(4)); check(s); }
