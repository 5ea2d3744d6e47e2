// Abstract syntax trees built directly from the vertices, together with the names and the vertices in the order in which they are evaluated.
#pragma once
#include "fern/language/ast/core/vertices.h"
#include <vector>
#include <memory>
#include <string>
using namespace fern::language;
typedef ExpressionVertexPtr E; typedef std::shared_ptr<StatementVertex> S; typedef std::vector<AstVertex*> Vertices;
struct Event { char kind; NameVertex* vertex; char name; };   // 'u'se, 'd'efinition, '(' and ')' of a scope
std::vector<Event> events; Vertices vertices; int LETTERS = 4; bool SPLIT = false;
template<class V, class... A> std::shared_ptr<V> make(A&&... a) { auto v = std::make_shared<V>(a...); vertices.push_back(v.get()); return v; }
char letter() { return SPLIT ? fs_split(sym<bool>("name")) ? 'b' : 'a' : static_cast<char>(97 + (sym<uint8_t>("name") & (LETTERS - 1))); }
// A name of one symbolic letter; when SPLIT, each of its two letters on a path of its own.
E name(char kind) { char c = letter(); auto v = make<NameVertex>(std::string(1, c)); events.push_back({kind, v.get(), c}); return v; }
E use() { return name('u'); }
E literal() { return make<StringVertex>(1, 2, "a"); }
E call(std::string const& n, ExpressionVertices const& a) { return make<FunctionCallVertex>(n, a); }
E op(char const* n, ExpressionVertices const& a) { return make<OperatorVertex>(n, a); }
// One of the shapes of expressions.
int const SHAPES = 7;
E expression(int shape)
{
    switch (shape) {
        case 0: return literal();
        case 1: return use();
        case 2: { E x = use(); E y = use(); return op("add", {x, y}); }
        case 3: { E x = use(); E y = literal(); return call("a", {x, y}); }
        case 4: { E x = use(); E y = use(); return make<SubscriptVertex>(x, y); }
        case 5: { E x = use(); return make<AttributeVertex>(x, "a"); }
        default: { E x = use(); E y = call("f", {x}); E z = use(); return op("Sub", {y, z}); }
    }
}
S assign(E const& e) { E t = name('d'); return make<AssignmentVertex>(t, e); }
S assign(int shape) { E e = expression(shape); return assign(e); }
std::shared_ptr<ScopeVertex> scope(StatementVertices const& s) { return std::make_shared<ScopeVertex>(s); }
void open() { events.push_back({'(', nullptr, 0}); }
void close() { events.push_back({')', nullptr, 0}); }
