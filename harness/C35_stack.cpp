// FERN: core/stack
// BOUND: every history of up to 4 (quick) or 6 (thorough) operations (push of an int32, double or string value, pop, copy, move) on a stack, starting empty; symbolic values, string of up to 16 symbolic characters (every length); every value at the top is read as each of the types
#include "fs.h"
#include <string>
#include "fern/core/stack.h"
struct Entry { int type; int32_t i; double d; std::string c; };
template<class T> int as(fern::Stack const& s, T const*& v) { try { v = &s.top<T>(); return 1; } catch (boost::bad_any_cast const&) { return 0; } }
void check(fern::Stack const& s, Entry const* e, int n)
{
    fs_assert(s.size() == static_cast<size_t>(n) && s.empty() == (n == 0), "size of the stack"); if (!n) return;
    Entry const& t = e[n - 1]; int32_t const* i; double const* d; std::string const* str;
    int ri = as(s, i), rd = as(s, d), rs = as(s, str);
    fs_assert(ri == (t.type == 0) && rd == (t.type == 1) && rs == (t.type == 2), "the top is only returned as a value of its own type");
    if (t.type == 0) fs_assert(*i == t.i, "top is the last value pushed"); else if (t.type == 1) fs_assert(same(*d, t.d), "top is the last value pushed"); else { bool ok = str->size() == t.c.size(); for (size_t k = 0; ok && k < t.c.size(); ++k) ok = both(ok, (*str)[k] == t.c[k]); fs_assert(ok, "top is the last value pushed"); }
}
template<int STEPS> void history()
{
    fern::Stack s; Entry e[STEPS]; int n = 0; bool long_string = false; check(s, e, n);
    for (int k = 0; k < STEPS; ++k) {
        int op = fs_choose("operation", 5);
        if (op < 3) {
            Entry& t = e[n++]; t.type = op;
            if (op == 0) s.push(t.i = sym<int32_t>("int")); else if (op == 1) s.push(t.d = sym<double>("double")); else { t.c = std::string(long_string ? 2 : 16, 'x'); if (!long_string) { long_string = true; uint32_t l = sym<uint32_t>("length"); fs_require(l < 17); t.c.resize(fs_concretize(l)); } for (auto& c : t.c) c = sym<char>("char"); s.push(t.c); }
        }
        else if (op == 3) { if (!n) return; s.pop(); --n; }
        else { fern::Stack copy(s), moved(std::move(s)); check(copy, e, n); check(moved, e, n); copy.push(1); check(moved, e, n); fern::Stack assigned; assigned = moved; s = std::move(moved); check(assigned, e, n); }
        check(s, e, n);
    }
    while (n) { s.pop(); --n; check(s, e, n); }
    fs_reach("end");
}
UNIT(stack) { history<4>(); }
UNIT_THOROUGH(stack6) { history<6>(); }
