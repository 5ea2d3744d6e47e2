// FERN: core/type_traits core/string core/value_types core/data_types core/expression_type language/operation/core/expression_types language/operation/core/operation language/operation/core/parameter language/operation/core/result language/ast/core/assignment_vertex language/ast/core/ast_vertex language/ast/core/attribute_vertex language/ast/core/expression_vertex language/ast/core/function_call_vertex language/ast/core/function_definition_vertex language/ast/core/if_vertex language/ast/core/module_vertex language/ast/core/name_vertex language/ast/core/operation_vertex language/ast/core/operator_vertex language/ast/core/return_vertex language/ast/core/scope_vertex language/ast/core/sentinel_vertex language/ast/core/statement_vertex language/ast/core/string_vertex language/ast/core/subscript_vertex language/ast/core/while_vertex language/ast/visitor/ast_visitor language/ast/visitor/thread_visitor
// FLAGS: -include cassert -include string -include vector -include iostream
// BOUND: modules of up to 3 statements of 7 shapes; conditionals with up to 2 statements per block, also within both blocks of a conditional; functions with up to 1 argument, of up to 3 statements, defined before or after they are called, with symbolic names
// ASSUME: no while statements and no return within a block (not implemented), each function is called at most once and defined before other functions that call it; of conditionals without a false block only the true block is followed
#include "fs.h"
#include "ast.h"
#include "fern/language/ast/visitor/thread_visitor.h"
// The edges expected.
struct Flow
{
    std::vector<std::pair<AstVertex*, AstVertex*>> edges; AstVertex* last = nullptr; std::vector<AstVertex*> all;
    void seen(AstVertex* v) { for (auto a : all) if (a == v) return; all.push_back(v); }
    void edge(AstVertex* a, AstVertex* b) { seen(a); seen(b); edges.push_back({a, b}); }
    void to(AstVertex* v) { seen(v); if (last) edge(last, v); last = v; }
    void to(Vertices const& s) { for (auto v : s) to(v); }
    void check() const
    {
        for (auto v : all) { size_t n = 0; for (auto const& e : edges) if (e.first == v) { fs_assert(n < v->successors().size() && v->successor(n) == e.second, "a vertex is followed by the one that is evaluated next"); ++n; } fs_assert(v->successors().size() == n || (n == 1 && dynamic_cast<IfVertex*>(v) && v->successors().size() == 2), "a vertex is followed by nothing else"); }
    }
};
Vertices take() { Vertices r; r.swap(vertices); return r; }
typedef std::shared_ptr<ScopeVertex> Scope;
// Parts of modules: how they are built, and how they are followed.
struct Part { Scope scope; std::vector<Part> parts; Vertices vs; std::shared_ptr<IfVertex> branch; int kind = 0; };   // 0 expressions, 1 conditional, 2 block, 3 definition (not followed)
Part statement(StatementVertices& s, int shape, bool assigned) { Part p; if (assigned) s.push_back(assign(shape)); else s.push_back(expression(shape)); p.vs = take(); return p; }
void follow(Flow& f, Part const& p);
void block(Flow& f, Part const& p) { f.to(p.scope.get()); for (auto const& q : p.parts) follow(f, q); f.to(p.scope->sentinel().get()); }
void follow(Flow& f, Part const& p)
{
    if (p.kind == 0) f.to(p.vs);
    else if (p.kind == 1) {
        f.to(p.vs); AstVertex* i = p.branch.get(); f.to(i); AstVertex* end = p.branch->sentinel().get();
        for (auto const& b : p.parts) if (!b.parts.empty()) { f.last = i; block(f, b); f.edge(f.last, end); }
        f.last = end;
    }
    else if (p.kind == 2) block(f, p);
}
Part whole(std::vector<Part> const& parts, StatementVertices const& s) { Part p; p.kind = 2; p.parts = parts; p.scope = scope(s); return p; }
Part conditional(StatementVertices& s, int shape, Part const& t, Part const& f, Vertices const& c, E const& e) { Part p; p.kind = 1; p.vs = c; p.parts = {t, f}; p.branch = std::make_shared<IfVertex>(e, t.scope, f.scope); s.push_back(p.branch); return p; }
void check(std::vector<Part> const& parts, StatementVertices const& s, void (*more)(Flow&) = nullptr)
{
    Part m = whole(parts, s); auto module = std::make_shared<ModuleVertex>("source", m.scope); ThreadVisitor v; module->Accept(v);
    Flow f; f.to(module.get()); if (!more) { block(f, m); f.to(module.get()); } f.check(); fs_reach("end");
}
UNIT(statements)
{
    LETTERS = 1; int a = fs_choose("first", SHAPES), b = fs_choose("second", SHAPES); bool assigned = fs_choose("assigned", 2); StatementVertices s; std::vector<Part> p;
    p.push_back(statement(s, a, assigned)); p.push_back(statement(s, b, true)); p.push_back(statement(s, b, !assigned)); check(p, s);
}
UNIT(nothing) { check({}, {}); }
Part branch(StatementVertices& s, int depth)
{
    E c = expression(depth > 0 ? 1 : 2); Vertices cv = take(); Part b[2];
    for (int k = 0; k < 2; ++k) {
        StatementVertices t; std::vector<Part> p; int what = depth > 1 ? 3 * fs_choose("block", 2) : fs_choose("block", depth > 0 ? 4 : 3); if (k == 0 && what == 0) return Part{{}, {}, {}, {}, 9};
        if (what > 0) p.push_back(statement(t, k ? 0 : 1, false)); if (what == 2) p.push_back(statement(t, 2, true));
        if (what == 3) { if (fs_choose("first", 2)) { t.clear(); p.clear(); } Part q = branch(t, depth - 1); if (q.kind == 9) return q; p.push_back(q); }
        b[k] = whole(p, t);
    }
    return conditional(s, 1, b[0], b[1], cv, c);
}
void conditionals(int depth)
{
    LETTERS = 1; StatementVertices s; std::vector<Part> p; bool before = fs_choose("before", 2), after = fs_choose("after", 2);
    if (before) p.push_back(statement(s, 1, true)); Part q = branch(s, depth); if (q.kind == 9) return; p.push_back(q); if (after) p.push_back(statement(s, 2, false)); check(p, s);
}
UNIT(conditionals) { conditionals(0); }
UNIT(nested) { conditionals(1); }
UNIT_THOROUGH(nested2) { conditionals(2); }
UNIT(two_conditionals) { LETTERS = 1; StatementVertices s; std::vector<Part> p; for (int i = 0; i < 2; ++i) { Part q = branch(s, 0); if (q.kind == 9) return; p.push_back(q); } check(p, s); }
// A function, and a call of one.
UNIT(functions)
{
    bool before = fs_choose("defined first", 2), argument = fs_choose("argument", 2); int body = fs_choose("body", 5), where = fs_choose("call", 3); std::string d(1, letter()), n(1, letter()); bool calls = d[0] == n[0];
    LETTERS = 1; ExpressionVertices as; if (argument) as.push_back(use()); Vertices av = take(); StatementVertices b; std::vector<Vertices> bv;
    if (body == 3) { b.push_back(assign(1)); bv.push_back(take()); }
    std::shared_ptr<ReturnVertex> r; if (body == 0) b.push_back(expression(1)); else if (body == 1) { r = make<ReturnVertex>(); b.push_back(r); } else { E e = expression(body == 4 ? 2 : 0); r = make<ReturnVertex>(e); b.push_back(r); } bv.push_back(take());
    Vertices unreached; if (body == 4) { b.push_back(expression(1)); unreached = take(); }
    auto def = std::make_shared<FunctionDefinitionVertex>(d, as, scope(b));
    // The call: a statement, an operand and the expression assigned.
    StatementVertices s; if (before) s.push_back(def); E x; Vertices first, rest; if (where == 1) x = use(); E c; if (argument) { E y = literal(); c = call(n, {y}); } else c = call(n, {}); first = take();
    if (where == 0) s.push_back(c); else { E e = c; if (where == 1) e = op("add", {x, c}); s.push_back(assign(e)); } rest = take(); if (!before) s.push_back(def);
    auto m = scope(s); auto module = std::make_shared<ModuleVertex>("source", m); ThreadVisitor v; module->Accept(v);
    Flow f; auto end = def->scope()->sentinel().get();
    f.to(module.get()); f.to(m.get()); f.to(first); if (calls) { f.to(def.get()); f.last = end; } f.to(rest); f.to(m->sentinel().get()); f.to(module.get());
    f.last = def.get(); f.to(av); f.to(def->scope().get()); for (auto const& q : bv) f.to(q); f.to(end); if (!unreached.empty()) { f.last = nullptr; f.to(unreached); f.to(end); }
    f.seen(end); f.check(); fs_reach("end");
}
// A function that calls another one.
UNIT(functions2)
{
    LETTERS = 1; bool returns = fs_choose("returns", 2), after = fs_choose("after", 2); StatementVertices bf, bg; bf.push_back(expression(2)); Vertices vf = take(); auto df = std::make_shared<FunctionDefinitionVertex>("f", ExpressionVertices(), scope(bf));
    E c = call("f", {}); Vertices vc = take(), vr; if (returns) { bg.push_back(make<ReturnVertex>(c)); vr = take(); } else bg.push_back(c); auto dg = std::make_shared<FunctionDefinitionVertex>("g", ExpressionVertices(), scope(bg));
    StatementVertices s; s.push_back(df); if (!after) s.push_back(dg); E e = call("g", {}); Vertices ve = take(); s.push_back(e); if (after) s.push_back(dg);
    auto m = scope(s); auto module = std::make_shared<ModuleVertex>("source", m); ThreadVisitor v; module->Accept(v);
    Flow f; f.to(module.get()); f.to(m.get()); f.to(ve); f.to(dg.get()); f.last = dg->scope()->sentinel().get(); f.to(m->sentinel().get()); f.to(module.get());
    f.last = dg.get(); f.to(dg->scope().get()); f.to(vc); f.to(df.get()); f.last = df->scope()->sentinel().get(); f.to(vr); f.to(dg->scope()->sentinel().get());
    f.last = df.get(); f.to(df->scope().get()); f.to(vf); f.to(df->scope()->sentinel().get()); f.check(); fs_reach("end");
}
