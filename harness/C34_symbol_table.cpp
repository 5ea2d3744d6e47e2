// BOUND: scopes: every history of up to 4 operations (set, erase, clear, copy, move) on 3 names of 1 or 2 symbolic characters, symbolic values; symbol tables: every history of up to 4 (quick) or 5 (thorough) operations (push, pop, clear, add, erase) after the first push, and copies and moves, on 2 such names and up to 3 scopes, symbolic values
// FLAGS: -include cassert -include string -include vector
#include "fs.h"
#include "fern/core/scope.h"
#include "fern/language/core/symbol_table.h"
// Names with symbolic characters: their order, and prefix relations, are the solver's choice.
std::string NAMES[3];
void names(int k)
{
    for (int i = 0; i < k; ++i) { NAMES[i] = std::string(i == 1 ? 2 : 1, 'x'); for (auto& c : NAMES[i]) { c = sym<char>("character"); fs_require(c != 0); } }
    if (k == 3) fs_require(NAMES[0][0] != NAMES[2][0]);
}
bool equal(std::string const& x, std::string const& y) { bool r = x.size() == y.size(); for (size_t i = 0; i < x.size() && r; ++i) if (x[i] != y[i]) r = false; return r; }
template<int K> struct Model { bool has[K] = {}; uint32_t v[K] = {}; size_t size() const { size_t n = 0; for (int i = 0; i < K; ++i) n += has[i]; return n; } };
template<int K> void check(fern::Scope<uint32_t> const& s, Model<K> const& m)
{
    fs_assert(s.size() == m.size(), "size of a scope"); bool seen[K] = {}; std::string const* before = nullptr;
    for (int i = 0; i < K; ++i) { fs_assert(s.has_value(NAMES[i]) == m.has[i], "a scope has the names set"); if (m.has[i]) fs_assert(s.value(NAMES[i]) == m.v[i], "a name has the value last set"); }
    for (auto const& p : s) { int k = 0; while (k < K && (!m.has[k] || seen[k] || !equal(p.first, NAMES[k]))) ++k; fs_assert(k < K, "iteration visits each name once"); seen[k] = true; fs_assert(p.second == m.v[k], "iteration visits the values"); if (before) fs_assert(*before < p.first, "iteration visits the names in order"); before = &p.first; }
}
// Histories on a scope.
template<int STEPS> void scopes()
{
    names(3); fern::Scope<uint32_t> s, other; Model<3> m; check(s, m);
    for (int i = 0; i < STEPS; ++i) {
        int op = fs_choose("operation", 9);
        if (op < 3) { uint32_t v = sym<uint32_t>("value"); s.set_value(NAMES[op], v); m.has[op] = true; m.v[op] = v; }
        else if (op < 6) { if (!m.has[op - 3]) return; s.erase_value(NAMES[op - 3]); m.has[op - 3] = false; }
        else if (op == 6) { s.clear(); m = Model<3>(); }
        else if (op == 7) { fern::Scope<uint32_t> copy(s); check(copy, m); copy.set_value(NAMES[0], sym<uint32_t>("elsewhere")); copy.clear(); other = s; s = other; }
        else { fern::Scope<uint32_t> moved(std::move(s)); check(moved, m); s = std::move(moved); }
        check(s, m);
    }
    fs_reach("end");
}
UNIT(scope) { scopes<3>(); }
UNIT_THOROUGH(scope4) { scopes<4>(); }
typedef fern::SymbolTable<uint32_t> Table;
int const K = 2, LEVELS = 3;
struct Tables { Model<K> m[LEVELS + 1]; int n = 0; };
void check(Table const& t, Tables const& m)
{
    fs_assert(t.scope_level() == static_cast<size_t>(m.n), "number of scopes"); size_t size = 0;
    for (int i = 0; i < m.n; ++i) { size += m.m[i].size(); check<K>(t.scope(i + 1), m.m[i]); }
    fs_assert(t.size() == size && t.empty() == (size == 0), "number of values");
    for (int k = 0; k < K; ++k) {
        int level = m.n; while (level > 0 && !m.m[level - 1].has[k]) --level;
        fs_assert(t.has_value(NAMES[k]) == (level > 0), "a name has a value when one of the scopes has it");
        if (level > 0) { fs_assert(t.value(NAMES[k]) == m.m[level - 1].v[k], "the innermost definition of a name hides the others"); fs_assert(t.scope_level(NAMES[k]) == static_cast<size_t>(level), "scope of the visible definition"); }
    }
}
template<int STEPS> void tables()
{
    names(K); Table t; Tables m; check(t, m); t.push_scope(); m.n = 1; check(t, m);
    for (int i = 0; i < STEPS; ++i) {
        int op = fs_choose("operation", 7);
        if (op < 2) { if (!m.n) return; uint32_t v = sym<uint32_t>("value"); t.add_value(NAMES[op], v); m.m[m.n - 1].has[op] = true; m.m[m.n - 1].v[op] = v; }
        else if (op < 4) { if (!m.n || !m.m[m.n - 1].has[op - 2]) return; t.erase_value(NAMES[op - 2]); m.m[m.n - 1].has[op - 2] = false; }
        else if (op == 4) { if (m.n == LEVELS) return; t.push_scope(); m.m[m.n++] = Model<K>(); }
        else if (op == 5) { if (!m.n) return; t.pop_scope(); --m.n; }
        else { if (!m.n) return; t.clear_scope(); m.m[m.n - 1] = Model<K>(); }
        check(t, m);
    }
    Table copy(t); check(copy, m); Table moved(std::move(copy)); check(moved, m); copy = moved; moved.push_scope(); moved.add_value(NAMES[0], sym<uint32_t>("elsewhere")); check(copy, m); check(t, m); Table target; target.push_scope(); target = std::move(copy); check(target, m);
    fs_reach("end");
}
UNIT(symbol_table) { tables<4>(); }
UNIT_THOROUGH(symbol_table5) { tables<5>(); }
