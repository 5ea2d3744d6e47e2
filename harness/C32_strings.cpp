// FERN: core/string
// BOUND: strings of up to 4 (quick) or 5 (thorough) characters, search strings and character sets of up to 2, replacements of up to 2, separators of up to 1 character, up to 3 strings joined; every length and all characters symbolic
#include "fs.h"
#include <string>
#include <vector>
#include "fern/core/string.h"
std::string text(char const* n, size_t max, size_t min = 0)
{
    std::string s(min + fs_choose(n, max - min + 1), 'x'); for (auto& c : s) c = sym<char>("character"); return s;
}
bool in(char c, std::string const& s) { bool r = false; for (char x : s) r = either(r, x == c); return r; }
bool at(std::string const& s, size_t p, std::string const& t) { if (p + t.size() > s.size()) return false; bool r = true; for (size_t i = 0; i < t.size(); ++i) r = both(r, s[p + i] == t[i]); return r; }
bool equal(std::string const& a, std::string const& b) { return a.size() == b.size() && at(a, 0, b); }
template<int N> void strip()
{
    std::string s = text("length", N), c = text("characters", 2, 1), b(s), e(s), x(s); std::string& rb(fern::strip_begin(b, c)); std::string& re(fern::strip_end(e, c)); std::string& rx(fern::strip(x, c));
    fs_assert(&rb == &b && &re == &e && &rx == &x, "a reference to the string is returned");
    size_t f = 0; while (f < s.size() && in(s[f], c)) ++f; size_t l = s.size(); while (l > 0 && in(s[l - 1], c)) --l;
    fs_assert(equal(b, s.substr(f)), "exactly the leading characters are stripped"); fs_assert(equal(e, s.substr(0, l)), "exactly the trailing characters are stripped"); fs_assert(equal(x, l > f ? s.substr(f, l - f) : std::string()), "characters are stripped at both ends");
    fs_reach("end");
}
UNIT(strips) { strip<4>(); }
UNIT_THOROUGH(strips5) { strip<5>(); }
template<int N> void find()
{
    std::string s = text("length", N), t = text("search", 2); bool any = false; for (size_t p = 0; p + t.size() <= s.size(); ++p) any = either(any, at(s, p, t));
    fs_assert(fern::contains(s, t) == any, "contains exactly when found somewhere"); fs_assert(fern::starts_with(s, t) == at(s, 0, t), "starts with"); fs_assert(fern::ends_with(s, t) == (s.size() >= t.size() && at(s, s.size() - t.size(), t)), "ends with"); fs_reach("end");
}
UNIT(finding) { find<4>(); }
UNIT_THOROUGH(finding5) { find<5>(); }
template<int N> void replacing()
{
    std::string s = text("length", N), o = text("old", 2, 1), n = text("new", 2), x(s), expect; std::string& r(fern::replace(x, o, n)); fs_assert(&r == &x, "a reference to the string is returned");
    for (size_t p = 0; p < s.size();) if (at(s, p, o)) { expect += n; p += o.size(); } else expect += s[p++];
    fs_assert(equal(x, expect), "every occurrence, from left to right, is replaced once"); fs_reach("end");
}
UNIT(replace) { replacing<4>(); }
UNIT_THOROUGH(replace5) { replacing<5>(); }
UNIT(join) {
    std::vector<std::string> v; size_t n = fs_choose("strings", 4); for (size_t i = 0; i < n; ++i) v.push_back(text("length", 2)); std::string sep = text("separator", 1), expect; for (size_t i = 0; i < n; ++i) { if (i) expect += sep; expect += v[i]; }
    fs_assert(equal(fern::join(v, sep), expect), "strings joined with the separator between them"); fs_reach("end");
}
