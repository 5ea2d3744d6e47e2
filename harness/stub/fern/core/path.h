// Stand-in for fern::Path (a thin wrapper of std::filesystem::path, which is
// only available as machine code): relative paths of names joined by single
// slashes. The native replays and sampled validations use the real class.
#pragma once
#include <string>
#include <vector>
namespace fern {
class Path
{
    std::string _s;
    size_t last() const { return _s.rfind('/'); }
public:
    Path() {}
    Path(char const* s) : _s(s) {}
    Path(std::string const& s) : _s(s) {}
    bool operator==(Path const& p) const { return _s == p._s; }
    std::string generic_string() const { return _s; }
    bool is_empty() const { return _s.empty(); }
    bool is_absolute() const { return !_s.empty() && _s[0] == '/'; }
    Path parent_path() const { return last() == std::string::npos ? Path() : Path(_s.substr(0, last())); }
    Path filename() const { return last() == std::string::npos ? *this : Path(_s.substr(last() + 1)); }
    std::vector<std::string> names() const { std::vector<std::string> r; size_t b = 0; if (_s.empty()) return r; for (size_t e; (e = _s.find('/', b)) != std::string::npos; b = e + 1) r.push_back(_s.substr(b, e - b)); r.push_back(_s.substr(b)); return r; }
};
inline Path operator/(Path const& l, Path const& r) { return l.is_empty() ? r : Path(l.generic_string() + "/" + r.generic_string()); }
}
