// FERN: core/type_traits core/value_types core/string feature/core/array
// BOUND: masks and collections of rank 0, 1 (4 cells), 2 (2x3) and 3 (2x2x2), element types bool, uint8, int32, int64, float, double (and all 10 arithmetic types for the default no-data value of scalars); all contents, markers and symbolic indices
// ASSUME: marker values are not NaN (a NaN marker never compares equal)
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "common.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/algorithm/policy/detect_no_data.h"
#include "fern/algorithm/policy/mark_no_data.h"
#include "fern/algorithm/policy/all_no_data.h"
#include "fern/algorithm/policy/collect_no_data_indices.h"
// The markers of masks are up to the client.
namespace fern { namespace algorithm { template<class M> value_type<M> no_data_value(M const&) { return value_type<M>(1); } } }
template<class T> void no_nan(T v) { if constexpr (std::is_floating_point<T>::value) fs_assume(v == v); (void)v; }
template<int D, class P> bool detect(P const& p, size_t i, size_t j, size_t k)
{
    (void)i; (void)j; (void)k;
    if constexpr (D == 0) return p.is_no_data(); else if constexpr (D == 1) return p.is_no_data(i); else if constexpr (D == 2) return p.is_no_data(i, j); else return p.is_no_data(i, j, k);
}
template<int D, class P> void mark(P& p, size_t i, size_t j, size_t k)
{
    (void)i; (void)j; (void)k;
    if constexpr (D == 0) p.mark_as_no_data(); else if constexpr (D == 1) p.mark_as_no_data(i); else if constexpr (D == 2) p.mark_as_no_data(i, j); else p.mark_as_no_data(i, j, k);
}
// collections of a user with two and three dimensions (the library's own arrays are indexed by position)
template<class T> struct Grid { T v[6]; T const* data() const { return v; } };
template<class T> T const& get(Grid<T> const& c, size_t i, size_t j) { assert(i < 2 && j < 3); return c.v[i * 3 + j]; }
template<class T> T& get(Grid<T>& c, size_t i, size_t j) { assert(i < 2 && j < 3); return c.v[i * 3 + j]; }
struct Cube { int32_t v[8]; };
inline int32_t const& get(Cube const& c, size_t i, size_t j, size_t k) { assert(i < 2 && j < 2 && k < 2); return c.v[(i * 2 + j) * 2 + k]; }
inline int32_t& get(Cube& c, size_t i, size_t j, size_t k) { assert(i < 2 && j < 2 && k < 2); return c.v[(i * 2 + j) * 2 + k]; }
namespace fern {
template<> struct DataTypeTraits<Cube> { using value_type = int32_t; using reference = int32_t&; using const_reference = int32_t const&; };
template<class T> struct DataTypeTraits<Grid<T>> { using value_type = T; using reference = T&; using const_reference = T const&; };
}
inline int32_t raw_at(Cube const& c, size_t i) { return c.v[i]; }
template<class T> T raw_at(Grid<T> const& c, size_t i) { return c.v[i]; }
// index of an arbitrary cell
size_t pick(char const* name, size_t n) { size_t i = sym<uint8_t>(name); fs_assume(i < n); return i; }
template<class T> T raw_at(std::vector<T> const& v, size_t i) { return v[i]; }
template<class T, size_t D> T raw_at(fern::Array<T, D> const& v, size_t i) { return v.data()[i]; }
template<class T> T raw_at(fern::MaskedScalar<T> const& v, size_t) { return v.value(); }
template<class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> T raw_at(T v, size_t) { return v; }
// X * Y * Z cells
template<int D, class T, class C> void by_value(C& mask, size_t X, size_t Y, size_t Z)
{
    fs_merge(1);
    size_t const n = X * Y * Z;
    T marker = sym<T>("marker"); no_nan(marker);
    C before(mask);
    fa::DetectNoDataByValue<C> detector(mask, marker), copy(detector); fa::MarkNoDataByValue<C> marks(mask, marker);
    size_t i = pick("i", X), j = pick("j", Y), k = pick("k", Z);
    size_t at = (i * Y + j) * Z + k;
    fs_assert(detect<D>(detector, i, j, k) == (raw_at(mask, at) == marker), "a cell is no-data exactly when its mask holds the marker");
    fs_assert(detect<D>(copy, i, j, k) == (raw_at(mask, at) == marker), "a copy of the policy detects the same");
    mark<D>(marks, i, j, k);
    for (size_t c = 0; c < n; ++c) fs_assert(same<T>(raw_at(mask, c), c == at ? marker : raw_at(before, c)), "marking a cell sets the mask of that cell only");
    fs_assert(both(detect<D>(detector, i, j, k), detect<D>(copy, i, j, k)), "a marked cell is detected");
    size_t p = pick("i2", X), q = pick("j2", Y), r = pick("k2", Z); size_t other = (p * Y + q) * Z + r;
    fs_assert(implies(other != at, detect<D>(detector, p, q, r) == (raw_at(before, other) == marker)), "other cells are detected as before");
    observe("m", raw_at(mask, 0)); fs_reach("end");
}
template<class T> T def()
{
    if constexpr (std::is_floating_point<T>::value) return std::numeric_limits<T>::min();
    else if constexpr (std::is_signed<T>::value) return std::numeric_limits<T>::min();
    else return std::numeric_limits<T>::max();
}
template<int D, class T, class C> void by_default(C& values, size_t X, size_t Y, size_t Z)
{
    fs_merge(1);
    size_t const n = X * Y * Z; C before(values);
    fa::DetectNoData<C> detector(values), copy(static_cast<fa::DetectNoData<C> const&>(detector)); fa::MarkNoData<C> marks(values);
    size_t i = pick("i", X), j = pick("j", Y), k = pick("k", Z), at = (i * Y + j) * Z + k;
    fs_assert(detect<D>(detector, i, j, k) == (raw_at(values, at) == def<T>()), "a cell is no-data exactly when it holds its type's no-data value");
    fs_assert(detect<D>(copy, i, j, k) == (raw_at(values, at) == def<T>()), "a copy of the policy detects the same");
    mark<D>(marks, i, j, k);
    for (size_t c = 0; c < n; ++c) fs_assert(same<T>(raw_at(values, c), c == at ? def<T>() : raw_at(before, c)), "marking a cell changes that cell only");
    fs_assert(detect<D>(detector, i, j, k), "a marked cell is detected");
    fs_assert(both(fern::no_data_value<T>() == def<T>(), fern::is_no_data(fern::no_data_value<T>())), "no-data values of the types");
    observe("m", raw_at(values, 0)); fs_reach("end");
}
template<class T> void v1() { std::vector<T> m(4); fill_sym(m, "mask"); by_value<1, T>(m, 4, 1, 1); }
template<class T> void a1() { fern::Array<T, 1> m(4); fill_sym(m, "mask"); by_value<1, T>(m, 4, 1, 1); }
template<class T> void a2() { Grid<T> m; for (auto& x : m.v) x = sym<T>("mask"); by_value<2, T>(m, 2, 3, 1); }
template<class T> void a2i() { fern::Array<T, 2> m(fern::extents[2][3]); fill_sym(m, "mask"); by_value<1, T>(m, 6, 1, 1); }
template<class T> void v0() { T m = sym<T>("mask"); by_value<0, T>(m, 1, 1, 1); }
template<class T> void ms0() { fern::MaskedScalar<T> m(sym<T>("mask"), sym<bool>("masked")); by_value<0, T>(m, 1, 1, 1); }
template<class T> void dv0() { T m = sym<T>("value"); by_default<0, T>(m, 1, 1, 1); }
template<class T> void dv1() { std::vector<T> m(4); fill_sym(m, "value"); by_default<1, T>(m, 4, 1, 1); }
template<class T> void da2() { Grid<T> m; for (auto& x : m.v) x = sym<T>("value"); by_default<2, T>(m, 2, 3, 1); }
UNIT(value_scalar) { switch (fs_choose("type", 6)) { case 0: v0<bool>(); break; case 1: v0<uint8_t>(); break; case 2: v0<int32_t>(); break; case 3: v0<int64_t>(); break; case 4: v0<float>(); break; default: v0<double>(); } }
UNIT(value_masked_scalar) { if (fs_choose("type", 2)) ms0<int32_t>(); else ms0<double>(); }
UNIT(value_vector) { switch (fs_choose("type", 4)) { case 0: v1<uint8_t>(); break; case 1: v1<int32_t>(); break; case 2: v1<int64_t>(); break; default: v1<double>(); } }
UNIT(value_array1) { switch (fs_choose("type", 4)) { case 0: a1<bool>(); break; case 1: a1<int32_t>(); break; case 2: a1<int64_t>(); break; default: a1<float>(); } }
UNIT(value_grid) { switch (fs_choose("type", 4)) { case 0: a2<bool>(); break; case 1: a2<int32_t>(); break; case 2: a2<uint8_t>(); break; default: a2<double>(); } }
UNIT(value_array2_flat) { switch (fs_choose("type", 2)) { case 0: a2i<bool>(); break; default: a2i<double>(); } }
UNIT(default_scalar)
{
    switch (fs_choose("type", 10)) {
    case 0: dv0<int8_t>(); break; case 1: dv0<int16_t>(); break; case 2: dv0<int32_t>(); break; case 3: dv0<int64_t>(); break; case 4: dv0<uint8_t>(); break;
    case 5: dv0<uint16_t>(); break; case 6: dv0<uint32_t>(); break; case 7: dv0<uint64_t>(); break; case 8: dv0<float>(); break; default: dv0<double>();
    }
}
UNIT(default_vector) { switch (fs_choose("type", 4)) { case 0: dv1<uint8_t>(); break; case 1: dv1<int32_t>(); break; case 2: dv1<int64_t>(); break; default: dv1<double>(); } }
UNIT(default_grid) { switch (fs_choose("type", 4)) { case 0: da2<uint16_t>(); break; case 1: da2<int32_t>(); break; case 2: da2<int8_t>(); break; default: da2<float>(); } }
// boolean masks of masked arrays: the marker is true
UNIT(masked_array)
{
    fs_merge(1);
    fern::MaskedArray<int32_t, 2> a(fern::extents[2][3]); typedef fern::Mask<2> M;
    bool before[6]; for (size_t c = 0; c < 6; ++c) { a.data()[c] = sym<int32_t>("v"); a.mask().data()[c] = before[c] = sym<bool>("m"); }
    int32_t v[6]; for (size_t c = 0; c < 6; ++c) v[c] = a.data()[c];
    fa::DetectNoDataByValue<M> d(a.mask()); fa::MarkNoDataByValue<M> m(a.mask());
    size_t i = pick("i", 2), j = pick("j", 3);
    fs_assert(d.is_no_data(index(a.mask(), i, j)) == before[i * 3 + j], "masked cells are no-data");
    m.mark_as_no_data(index(a, i, j));
    for (size_t c = 0; c < 6; ++c) fs_assert(both(a.mask().data()[c] == either(before[c], c == i * 3 + j), a.data()[c] == v[c]), "marking masks that cell and changes no value");
    fs_reach("end");
}
UNIT(value_cube) { Cube c; for (auto& x : c.v) x = sym<int32_t>("mask"); by_value<3, int32_t>(c, 2, 2, 2); }
UNIT(default_cube) { Cube c; for (auto& x : c.v) x = sym<int32_t>("value"); by_default<3, int32_t>(c, 2, 2, 2); }
struct Collector : fa::CollectNoDataIndices<std::vector<size_t>> { Collector() {} };
UNIT(constant_policies)
{
    fs_merge(1);
    size_t i = static_cast<size_t>(sym<uint64_t>("i")), j = static_cast<size_t>(sym<uint64_t>("j")), k = static_cast<size_t>(sym<uint64_t>("k"));
    fa::SkipNoData s, t(s); std::vector<int> any(1); fa::SkipNoData u(any);
    fs_assert(!(s.is_no_data() | s.is_no_data(i) | s.is_no_data(i, j) | s.is_no_data(i, j, k) | t.is_no_data(i) | u.is_no_data(i)), "skipping never finds no-data");
    typedef fa::AllNoData A;
    fs_assert(A::is_no_data() & A::is_no_data(i) & A::is_no_data(i, j) & A::is_no_data(i, j, k), "everything is no-data");
    fa::DontMarkNoData d; std::vector<int> cells(3, 7); fa::DontMarkNoData e(cells); d.mark_as_no_data(); d.mark_as_no_data(i); d.mark_as_no_data(i, j); e.mark_as_no_data(i); e.mark_as_no_data(i, j, k);
    fs_assert(cells[0] == 7 && cells[1] == 7 && cells[2] == 7, "not marking changes nothing");
    Collector c; c.mark(i); c.mark(j); c.mark(k);
    fs_assert(c.indices().size() == 3, "every index is collected");
    fs_assert(both(both(c.indices()[0] == i, c.indices()[1] == j), c.indices()[2] == k), "indices are collected in order");
    fs_reach("end");
}
// policies per argument keep their place
UNIT(policies_per_argument)
{
    fs_merge(1);
    std::vector<int32_t> m1(2), m2(2); fill_sym(m1, "m1"); fill_sym(m2, "m2"); int32_t v1 = sym<int32_t>("v1"), v2 = sym<int32_t>("v2"); size_t i = pick("i", 2);
    typedef fa::DetectNoDataByValue<std::vector<int32_t>> P;
    fa::InputNoDataPolicies<P, fa::SkipNoData, P> p{P(m1, v1), {}, P(m2, v2)}; auto q(p);
    fs_assert(std::get<0>(p).is_no_data(i) == (m1[i] == v1) && !std::get<1>(p).is_no_data(i) && std::get<2>(p).is_no_data(i) == (m2[i] == v2), "each argument has its own policy");
    fs_assert(std::get<0>(q).is_no_data(i) == (m1[i] == v1) && !std::get<1>(q).is_no_data(i) && std::get<2>(q).is_no_data(i) == (m2[i] == v2), "also in a copy");
    fs_reach("end");
}
