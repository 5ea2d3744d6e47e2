// FERN: language/feature/core/feature
// NATIVE: core/path core/string
// SYMFLAGS: -iquote $V/harness/stub
// FLAGS: -include cassert -include string -include vector
// BOUND: features: every history of 3 (quick) or 4 (thorough) additions of child-features and attributes at the 14 paths of up to 3 levels over two names (two levels below the root hold features) with symbolic characters; missing parents and items included in the queries
// BOUND: spatial attributes and domains: histories of 3 additions with symbolic coordinates and values, with 2 dimensional points and a scalar geometry; constant attributes with symbolic values
// ASSUME: fern::Path is replaced by a stand-in for relative paths of names joined by single slashes while executing symbolically (std::filesystem is machine code); replays use the real class
#include "fs.h"
#include <memory>
#include "fern/core/point.h"
#include "fern/language/feature/core/feature.h"
#include "fern/language/feature/core/constant_attribute.h"
#include "fern/language/feature/core/spatial_attribute.h"
#include "fern/language/feature/core/spatial_domain.h"
using namespace fern::language; typedef std::shared_ptr<Feature> F; typedef std::shared_ptr<Attribute> A; typedef ConstantAttribute<uint32_t> C;
std::string NAME[2];
struct Node { bool exists = false; F f; A a; };   // path k: 0..1 level 1, 2..5 level 2, 6..13 level 3
int const P = 14;
int parent(int k) { return k < 2 ? -1 : (k - 2) / 2; }
fern::Path path(int k) { return parent(k) < 0 ? fern::Path(NAME[k % 2]) : fern::Path(path(parent(k)).generic_string() + "/" + NAME[k % 2]); }
Feature const& at(Feature const& r, Node const* n, int k) { return k < 0 ? r : *n[k].f; }
void check(Feature const& r, Node const* n)
{
    for (int k = -1; k < P; ++k) {
        size_t nf = 0, na = 0; if (k >= 6 && k >= 0) break;
        if (k >= 0 && !n[k].f) continue;
        for (int c = 0; c < P; ++c) if (parent(c) == k) { nf += !!n[c].f; na += !!n[c].a; }
        Feature const& f(at(r, n, k)); fs_assert(f.nr_features() == nf && f.nr_attributes() == na && f.feature_names().size() == nf && f.attribute_names().size() == na, "numbers of child-features and attributes");
        if (k >= 0) fs_assert(r.nr_features(path(k)) == nf && r.nr_attributes(path(k)) == na, "numbers of child-features and attributes of a child-feature, by path");
        for (int c = 0; c < P; ++c) if (parent(c) == k) { auto names = n[c].f ? f.feature_names() : f.attribute_names(); bool found = !n[c].f && !n[c].a; for (auto const& s : names) found |= s == NAME[c % 2]; fs_assert(found, "names of child-features and attributes"); fs_assert(f.contains_feature(NAME[c % 2]) == !!n[c].f && f.contains_attribute(NAME[c % 2]) == !!n[c].a, "children, relative to a child-feature"); }
    }
    for (int k = 0; k < P; ++k) {
        fs_assert(r.contains_feature(path(k)) == !!n[k].f, "a path addresses a feature exactly when it was added"); fs_assert(r.contains_attribute(path(k)) == !!n[k].a, "a path addresses an attribute exactly when it was added");
        fs_assert(r.feature(path(k)) == n[k].f, "the feature stored at a path, or none"); if (n[k].a) fs_assert(r.attribute(path(k)) == n[k].a, "the attribute stored at a path");
    }
}
template<int STEPS> void history()
{
    for (auto& s : NAME) { s = "xy"; for (auto& c : s) { c = sym<char>("character"); fs_require(c != 0 && c != '/' && c != '.'); } } NAME[0].resize(1); if (fs_choose("length", 2)) NAME[1].resize(1), fs_require(NAME[0][0] != NAME[1][0]);
    Feature r; Node n[P]; check(r, n);
    for (int i = 0; i < STEPS; ++i) {
        int k = fs_choose("path", P), feature = fs_choose("feature", 2); if (n[k].f || n[k].a || (parent(k) >= 0 && !n[parent(k)].f) || (feature && k >= 6)) return;
        if (feature) r.add_feature(path(k), n[k].f = std::make_shared<Feature>()); else r.add_attribute(path(k), n[k].a = std::make_shared<C>(sym<uint32_t>("value")));
    }
    check(r, n); fs_reach("end");
}
UNIT(empty) { history<0>(); }
UNIT(feature3) { history<3>(); }
UNIT_THOROUGH(feature4) { history<4>(); }
template<class G, class V> void spatial(G (*make)(), bool (*eq)(G const&, G const&))
{
    typedef fern::language::SpatialAttribute<SpatialDomain<G>, V> S; S s; fs_assert(s.empty() && s.size() == 0 && s.domain().empty() && s.values().empty(), "a new attribute is empty");
    G g[3]; V v[3]; typename S::GID id[3];
    for (int i = 0; i < 3; ++i) {
        g[i] = make(); v[i] = sym<V>("value"); id[i] = s.add(g[i], v[i]); size_t n = i + 1;
        fs_assert(!s.empty() && s.size() == n && s.domain().size() == n && s.values().size() == n && !s.domain().empty() && !s.values().empty(), "number of geometries and values");
        for (int j = 0; j <= i; ++j) { for (int k = 0; k < j; ++k) fs_assert(id[j] != id[k], "every geometry has its own id"); bool found = false; for (auto const& p : s.domain()) if (p.first == id[j]) { found = true; fs_assert(eq(p.second, g[j]), "geometry of an id"); } fs_assert(found, "every id is in the domain"); fs_assert(same(s.values().value(id[j]), v[j]), "value of an id"); }
        size_t count = 0; for (auto it = s.domain().cbegin(); it != s.domain().cend(); ++it) ++count; fs_assert(count == n, "iteration visits every geometry"); fs_assert(s.values().cbegin()->first == s.domain().begin()->first, "geometries and values have the same ids");
    }
    fs_reach("end");
}
typedef fern::Point<double, 2> P2;
UNIT(points) { spatial<P2, int32_t>([]() { return P2(sym<double>("x"), sym<double>("y")); }, [](P2 const& a, P2 const& b) { return both(same(a[0], b[0]), same(a[1], b[1])); }); }
UNIT(scalars) { spatial<uint64_t, double>([]() { return sym<uint64_t>("x"); }, [](uint64_t const& a, uint64_t const& b) { return a == b; }); }
UNIT(domain) {
    SpatialDomain<uint32_t> d; uint32_t v[3]; size_t id[3]; for (int i = 0; i < 3; ++i) { v[i] = sym<uint32_t>("geometry"); id[i] = d.add(v[i]); for (int j = 0; j <= i; ++j) fs_assert(d.geometry(id[j]) == v[j], "geometry of an id"); for (int j = 0; j < i; ++j) fs_assert(id[i] != id[j], "every geometry has its own id"); fs_assert(d.size() == static_cast<size_t>(i + 1), "number of geometries"); } fs_reach("end");
}
UNIT(constant) {
    uint32_t v = sym<uint32_t>("v"), w = sym<uint32_t>("w"); C a(v); fs_assert(a.values().value() == v, "a constant attribute holds its value"); a.set(w); fs_assert(a.values().value() == w, "setting a constant replaces the value"); C b; b.set(v); fs_assert(b.values().value() == v && a.values().value() == w, "attributes have their own values"); fs_reach("end");
}
UNIT(point) {
    double x = sym<double>("x"), y = sym<double>("y"), z = sym<double>("z"); fern::Point<double, 1> p(x); fern::Point<double, 2> q(x, y); fern::Point<double, 3> r(x, y, z), o;
    fs_assert(both(same(p[0], x), both(same(q[0], x), same(q[1], y))), "coordinates of a point"); fs_assert(both(same(r[0], x), both(same(r[1], y), same(r[2], z))), "coordinates of a point"); fs_assert(both(same(o[0], 0.0), both(same(o[1], 0.0), same(o[2], 0.0))), "a default constructed point is the origin"); fs_reach("end");
}
