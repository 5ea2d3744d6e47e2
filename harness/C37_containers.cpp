// FERN: feature/core/array
// BOUND: arrays, masked arrays and (masked) rasters of rank 1, 2 and 3 with 1 to 3 cells per dimension (extents chosen by the solver run), value types int32, uint8 and double; all cell values, masks, transformations, fill values, symbolic cell indices
// BOUND: cloning to another value type with and without a value, for every container and rank, and for vectors and scalars
#include <boost/multi_array.hpp>
#include "common.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/feature/core/data_customization_point/raster.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/array_reference.h"
using fern::extents; using fern::Index;
size_t cells(size_t const* s, int d) { size_t n = 1; for (int i = 0; i < d; ++i) n *= s[i]; return n; }
template<int D> auto ext(size_t const* s)
{
    if constexpr (D == 1) return extents[static_cast<Index>(s[0])]; else if constexpr (D == 2) return extents[static_cast<Index>(s[0])][static_cast<Index>(s[1])]; else return extents[static_cast<Index>(s[0])][static_cast<Index>(s[1])][static_cast<Index>(s[2])];
}
template<class T> void no_nan(T v) { if constexpr (std::is_floating_point<T>::value) fs_assume(v == v); (void)v; }
template<int D> void choose(size_t* s) { for (int i = 0; i < D; ++i) s[i] = 1 + fs_choose("extent", D == 3 ? 3 : 3); }
template<int D, class A> auto& cell(A& a, size_t const* i) { if constexpr (D == 1) return a[i[0]]; else if constexpr (D == 2) return a[i[0]][i[1]]; else return a[i[0]][i[1]][i[2]]; }
template<int D> size_t flat(size_t const* s, size_t const* i) { size_t r = i[0]; for (int k = 1; k < D; ++k) r = r * s[k] + i[k]; return r; }
template<int D> void pick(size_t const* s, size_t* i, char const* n) { for (int k = 0; k < D; ++k) i[k] = fs_choose(n, s[k]); }
template<int D, class A> void shape(A const& a, size_t const* s, char const* what)
{
    bool ok = both(a.num_elements() == cells(s, D), both(a.num_dimensions() == D, fern::size(a) == cells(s, D)));
    for (int k = 0; k < D; ++k) ok = both(ok, both(a.shape()[k] == s[k], fern::size(a, k) == s[k]));
    fs_assert(both(ok, a.size() == s[0]), what);
}
template<class T, int D> void arrays()
{
    fs_merge(1); size_t s[D], i[D]; choose<D>(s); size_t n = cells(s, D); T v = sym<T>("fill"), w = sym<T>("set"), x = sym<T>("x");
    fern::Array<T, D> a(ext<D>(s), v), zero(ext<D>(s)); shape<D>(a, s, "an array has the requested shape");
    for (size_t k = 0; k < n; ++k) fs_assert(both(same(a.data()[k], v), same(zero.data()[k], T())), "every cell holds the fill value");
    pick<D>(s, i, "index"); size_t f = flat<D>(s, i);
    cell<D>(a, i) = w;
    for (size_t k = 0; k < n; ++k) fs_assert(same(a.data()[k], k == f ? w : v), "indices address their own cell in row-major order");
    fern::Array<T, D> const& c(a); fs_assert(both(same<T>(cell<D>(c, i), w), same<T>(fern::get(c, f), w)), "cells are read by index and by position");
    if constexpr (D == 2) fs_assert(fern::index(a, i[0], i[1]) == f, "position of a cell");
    fern::Array<T, D> copy(a), assigned(ext<D>(s)); assigned = a; fern::get(a, f) = x;
    for (size_t k = 0; k < n; ++k) fs_assert(both(same(copy.data()[k], k == f ? w : v), same(assigned.data()[k], k == f ? w : v)), "copies keep their own values");
    size_t count = 0; for (auto it = a.begin(); it != a.end(); ++it) ++count;
    fs_assert(count == s[0], "iteration visits every row"); fern::Array<T, D> moved(std::move(copy)); shape<D>(moved, s, "moving keeps the shape"); fs_assert(same(moved.data()[f], w), "moving keeps the values");
    a.fill(w); for (size_t k = 0; k < n; ++k) fs_assert(same(a.data()[k], w), "filling sets every cell");
    auto k1 = fern::clone<double>(a); auto k2 = fern::clone<int16_t>(a, static_cast<int16_t>(-3)); shape<D>(k1, s, "a clone has the same shape"); shape<D>(k2, s, "a clone has the same shape");
    for (size_t k = 0; k < n; ++k) fs_assert(both(same(k1.data()[k], 0.0), k2.data()[k] == -3), "a clone holds zeros, or the value given");
    fern::ArrayReference<T, D> r(a.data(), ext<D>(s)); fern::get(r, f) = x; fs_assert(both(same(a.data()[f], x), both(fern::size(r) == n, fern::size(r, D - 1) == s[D - 1])), "a reference addresses the array's cells");
    observe("x", x); fs_reach("end");
}
template<int D, class M> void unmasked(M const& m, size_t const* s, char const* what)
{
    shape<D>(m.mask(), s, "the mask has the shape of the values"); bool any = false;
    for (size_t k = 0; k < cells(s, D); ++k) any |= m.mask().data()[k];
    fs_assert(!any, what); fs_assert(!m.has_masked_values(), "there are no masked values");
}
template<class T, int D, class A> void masking(A& a, size_t const* s, T v)
{
    size_t n = cells(s, D); shape<D>(a, s, "a masked array has the requested shape"); unmasked<D>(a, s, "no cell is masked initially");
    for (size_t k = 0; k < n; ++k) fs_assert(same(a.data()[k], v), "every cell holds the fill value");
    T val[27]; bool m[27], any = false; for (size_t k = 0; k < n; ++k) { a.data()[k] = val[k] = sym<T>("value"); a.mask().data()[k] = m[k] = sym<bool>("mask"); any |= m[k]; }
    fs_assert(a.has_masked_values() == any, "masked values are noticed");
    fern::Array<uint8_t, D> out(ext<D>(s), static_cast<uint8_t>(7)); a.mask(out); for (size_t k = 0; k < n; ++k) fs_assert(out.data()[k] == (m[k] ? 0 : 255), "an integral mask has 0 for masked cells and 255 for others");
    T marker = sym<T>("marker"); no_nan(marker); a.set_mask(marker); for (size_t k = 0; k < n; ++k) { m[k] = either(m[k], val[k] == marker); fs_assert(a.mask().data()[k] == m[k], "cells with the value are masked too"); }
    fern::Array<int32_t, D> other(ext<D>(s)); int32_t o = sym<int32_t>("o"); for (size_t k = 0; k < n; ++k) other.data()[k] = sym<int32_t>("other");
    a.set_mask(other); for (size_t k = 0; k < n; ++k) { m[k] = either(m[k], other.data()[k] == 0); fs_assert(a.mask().data()[k] == m[k], "cells with a zero in the other mask are masked too"); }
    a.set_mask(other, o); for (size_t k = 0; k < n; ++k) { m[k] = either(m[k], other.data()[k] == o); fs_assert(both(a.mask().data()[k] == m[k], same(a.data()[k], val[k])), "cells with the given value in the other mask are masked too, and values stay"); }
    auto k1 = fern::clone<double>(a); auto k2 = fern::clone<int16_t>(a, static_cast<int16_t>(-3)); shape<D>(k1, s, "a clone has the same shape"); shape<D>(k2, s, "a clone has the same shape"); unmasked<D>(k1, s, "a clone is not masked"); unmasked<D>(k2, s, "a clone is not masked");
    for (size_t k = 0; k < n; ++k) fs_assert(both(same(k1.data()[k], 0.0), k2.data()[k] == -3), "a clone holds zeros, or the value given");
    A moved(std::move(a)); shape<D>(moved, s, "moving keeps the shape"); for (size_t k = 0; k < n; ++k) fs_assert(both(moved.mask().data()[k] == m[k], same(moved.data()[k], val[k])), "moving keeps values and mask");
    moved.mask_all(); for (size_t k = 0; k < n; ++k) fs_assert(both(moved.mask().data()[k], same(moved.data()[k], val[k])), "masking all masks every cell and changes no value");
}
template<class T, int D> void masked_arrays() { fs_merge(1); size_t s[D]; choose<D>(s); T v = sym<T>("fill"); fern::MaskedArray<T, D> a(ext<D>(s), v); masking<T, D>(a, s, v); fs_reach("end"); }
template<class R, class S, int D> void transformed(R const& r, S const& t) { bool ok = true; for (int k = 0; k < 2 * D; ++k) ok = both(ok, same(r.transformation()[k], t[k])); fs_assert(ok, "the transformation is kept"); }
template<class T, int D> void masked_rasters()
{
    fs_merge(1); size_t s[D]; choose<D>(s); T v = sym<T>("fill"); typename fern::MaskedRaster<T, D>::Transformation t; for (auto& x : t) x = sym<double>("transformation");
    fern::MaskedRaster<T, D> a(ext<D>(s), t, v), z(ext<D>(s), t); transformed<decltype(a), decltype(t), D>(a, t); transformed<decltype(a), decltype(t), D>(z, t); unmasked<D>(z, s, "no cell is masked initially"); fs_assert(same(z.data()[0], T()), "zeros by default");
    size_t at = fs_choose("at", 2 * D); double d = sym<double>("d"); fern::set_transformation(a, at, d); t[at] = d; transformed<decltype(a), decltype(t), D>(a, t);
    auto k1 = fern::clone<float>(a); auto k2 = fern::clone<uint8_t>(a, static_cast<uint8_t>(9)); transformed<decltype(k1), decltype(t), D>(k1, t); transformed<decltype(k2), decltype(t), D>(k2, t); shape<D>(k1, s, "a clone has the same shape"); shape<D>(k2, s, "a clone has the same shape");
    if constexpr (D == 2) { fs_assert(both(same(fern::cell_size(a, 0), t[1]), same(fern::cell_size(a, 1), t[3])), "cell sizes"); fs_assert(same(fern::cell_area(a), t[1] * t[3]), "cell area"); fs_assert(fern::index(a, s[0] - 1, s[1] - 1) == s[0] * s[1] - 1, "position of the last cell"); }
    masking<T, D>(a, s, v); fs_reach("end");
}
template<class T, int D> void rasters()
{
    fs_merge(1); size_t s[D], i[D]; choose<D>(s); T v = sym<T>("fill"), w = sym<T>("set"); typename fern::Raster<T, D>::Transformation t; for (auto& x : t) x = sym<double>("transformation");
    fern::Raster<T, D> a(ext<D>(s), t, v), z(ext<D>(s), t); shape<D>(a, s, "a raster has the requested shape"); transformed<decltype(a), decltype(t), D>(a, t); transformed<decltype(a), decltype(t), D>(z, t); pick<D>(s, i, "index"); size_t f = flat<D>(s, i); cell<D>(a, i) = w;
    for (size_t k = 0; k < cells(s, D); ++k) fs_assert(both(same(a.data()[k], k == f ? w : v), same(z.data()[k], T())), "indices address their own cell in row-major order");
    auto k1 = fern::clone<double>(a); auto k2 = fern::clone<int16_t>(a, static_cast<int16_t>(-3)); shape<D>(k1, s, "a clone has the same shape"); shape<D>(k2, s, "a clone has the same shape"); transformed<decltype(k1), decltype(t), D>(k1, t); transformed<decltype(k2), decltype(t), D>(k2, t);
    for (size_t k = 0; k < cells(s, D); ++k) fs_assert(both(same(k1.data()[k], 0.0), k2.data()[k] == -3), "a clone holds zeros, or the value given");
    if constexpr (D == 2) { fs_assert(both(same(fern::cell_size(a, 0), t[1]), same(fern::cell_size(a, 1), t[3])), "cell sizes"); fs_assert(same(fern::cell_area(a), t[1] * t[3]), "cell area"); fs_assert(fern::index(a, i[0], i[1]) == f, "position of a cell"); }
    a.transformation()[0] = z.transformation()[1]; fs_assert(same(z.transformation()[0], t[0]), "rasters have their own transformation"); fs_reach("end");
}
UNIT(array_1) { arrays<int32_t, 1>(); }
UNIT(array_2) { arrays<double, 2>(); }
UNIT(array_3) { arrays<uint8_t, 3>(); }
UNIT(masked_array_1) { masked_arrays<double, 1>(); }
UNIT(masked_array_2) { masked_arrays<int32_t, 2>(); }
UNIT(masked_array_3) { masked_arrays<uint8_t, 3>(); }
UNIT(masked_raster_1) { masked_rasters<uint8_t, 1>(); }
UNIT(masked_raster_2) { masked_rasters<int32_t, 2>(); }
UNIT(masked_raster_3) { masked_rasters<int16_t, 3>(); }
UNIT(raster_1) { rasters<double, 1>(); }
UNIT(raster_2) { rasters<int32_t, 2>(); }
UNIT(raster_3) { rasters<uint8_t, 3>(); }
// other ways to construct
UNIT(lists)
{
    fs_merge(1); int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b"), c = sym<int32_t>("c"), d = sym<int32_t>("d"), e = sym<int32_t>("e"), f = sym<int32_t>("f");
    size_t s1[] = {3}, s2[] = {2, 3}, rows = 3, cols = 2, s3[] = {3, 2};
    fern::Array<int32_t, 1> l1{a, b, c}, v1(std::vector<int32_t>{a, b, c}); fern::Array<int32_t, 2> l2{{a, b, c}, {d, e, f}}, n2(rows, cols, d); fern::Array<int32_t, 1> n1(rows, e);
    shape<1>(l1, s1, "a list gives one cell per value"); shape<1>(v1, s1, "a vector gives one cell per value"); shape<2>(l2, s2, "a list of lists gives rows"); shape<2>(n2, s3, "rows and columns"); shape<1>(n1, s1, "size");
    int32_t all[] = {a, b, c, d, e, f};
    for (int i = 0; i < 6; ++i) fs_assert(both(l2.data()[i] == all[i], n2.data()[i] == d), "values in row-major order");
    for (int i = 0; i < 3; ++i) fs_assert(both(both(l1.data()[i] == all[i], v1.data()[i] == all[i]), n1.data()[i] == e), "values in order");
    fern::MaskedArray<int32_t, 1> m1{a, b, c}, mn1(rows, f); fern::MaskedArray<int32_t, 2> m2{{a, b, c}, {d, e, f}}; unmasked<1>(m1, s1, "nothing is masked"); unmasked<1>(mn1, s1, "nothing is masked"); unmasked<2>(m2, s2, "nothing is masked");
    for (int i = 0; i < 6; ++i) fs_assert(m2.data()[i] == all[i], "values in row-major order");
    for (int i = 0; i < 3; ++i) fs_assert(both(m1.data()[i] == all[i], mn1.data()[i] == f), "values in order");
    bool p = sym<bool>("p"), q = sym<bool>("q"); std::vector<fern::MaskedScalar<int32_t>> ms{fern::MaskedScalar<int32_t>(a, p), fern::MaskedScalar<int32_t>(b), fern::MaskedScalar<int32_t>(c, q)}; fern::MaskedArray<int32_t, 1> mv(ms);
    shape<1>(mv, s1, "a vector gives one cell per value"); shape<1>(mv.mask(), s1, "and mask"); for (int i = 0; i < 3; ++i) fs_assert(both(mv.data()[i] == all[i], mv.mask().data()[i] == (i == 0 ? p : i == 2 ? q : false)), "masked scalars give values and masks");
    fs_reach("end");
}
template<class T> void scalar()
{
    fs_merge(1); T v = sym<T>("v"), w = sym<T>("w"); bool m = sym<bool>("m"), n = sym<bool>("n"); no_nan(v); no_nan(w);
    fern::MaskedScalar<T> d, a(v), b(v, m), c(w, n); fs_assert(both(both(d.value() == T(), !d.mask()), both(both(a.value() == v, !a.mask()), both(b.value() == v, b.mask() == m))), "construction"); fs_assert((b == c) == both(v == w, m == n), "equal when value and mask are");
    fs_assert(both(static_cast<T const&>(static_cast<fern::MaskedScalar<T> const&>(b)) == v, fern::get(b) == v), "conversion to the value");
    fern::MaskedScalar<T> e(b); e = w; fs_assert(both(e.value() == w, !e.mask()), "assigning a value unmasks"); fs_assert(both(b.value() == v, b.mask() == m), "the original stays"); e = c; fs_assert(both(e.value() == w, e.mask() == n), "assigning copies value and mask");
    fern::get(e) = v; fs_assert(both(e.value() == v, e.mask() == n), "changing the layered value keeps the mask"); static_cast<T&>(e) = w; e.mask() = m; e.value() = w; fs_assert(e == fern::MaskedScalar<T>(w, m), "changing value and mask"); fs_reach("end");
}
UNIT(masked_scalar) { switch (fs_choose("type", 3)) { case 0: scalar<int32_t>(); break; case 1: scalar<double>(); break; default: scalar<uint8_t>(); } }
UNIT(vectors_and_scalars)
{
    fs_merge(1); size_t n = fs_choose("n", 4); std::vector<int32_t> v(n); fill_sym(v, "v"); double x = sym<double>("x"); auto a = fern::clone<double>(v); auto b = fern::clone<double>(v, x);
    fs_assert(both(a.size() == n, both(b.size() == n, fern::size(v) == n)), "a cloned vector has the same size"); for (size_t i = 0; i < n; ++i) fs_assert(both(a[i] == 0, same(b[i], x)), "and holds zeros, or the value given");
    if (n) { size_t i = fs_choose("i", 4); if (i < n) { std::vector<int32_t> w(v); int32_t y = sym<int32_t>("y"); fern::get(w, i) = y; for (size_t k = 0; k < n; ++k) fs_assert(w[k] == (k == i ? y : v[k]), "positions address their own cell"); std::vector<int32_t> const& cw(w); fs_assert(fern::get(cw, i) == y, "also when reading"); } }
    int32_t s = sym<int32_t>("s"); fs_assert(fern::size(s) == 1, "a scalar is one cell"); fs_assert(same(fern::clone<double>(s, x), x), "a cloned scalar is the value given"); fern::get(s) = 5; fs_assert(s == 5, "a scalar is its own cell");
    fs_reach("end");
}
