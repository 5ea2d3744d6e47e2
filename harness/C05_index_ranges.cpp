// FERN: algorithm/core/index_range algorithm/core/index_ranges
// BOUND: 1 to 6 threads and all 1d sizes below 2^20, 1 to 4 threads and all row counts below 2^16 (thorough: 1 to 8 threads and all 64-bit sizes), all 64-bit column counts; 1 to 8 threads and every size up to 40 one by one; all 64-bit begins and ends for the range classes
#include "fs.h"
#include <vector>
#include "fern/algorithm/core/index_ranges.h"
namespace fa = fern::algorithm;
static void check1(size_t n, size_t size, std::vector<fa::IndexRanges<1>> const& rs)
{
    size_t e = 0; bool contiguous = true, nonempty = true;
    for (auto const& r : rs) { contiguous &= r[0].begin() == e; nonempty &= r[0].end() > r[0].begin(); e = r[0].end(); }
    fs_assert(contiguous, "each range starts where the previous one ends, the first one at zero");
    fs_assert(nonempty, "no range is empty");
    fs_assert(e == size, "the ranges end at the size of the array");
    fs_assert(rs.size() <= n + 1, "at most one range more than there are threads");
    fs_assert(either(size < n, rs.size() >= n), "an array that is not small is divided over all threads");
    fs_assert(implies(both(size > 0, size < n), rs.size() == 1), "a small array is a single range");
    fs_assert((size == 0) == (rs.size() == 0), "the collection is empty exactly when the array is");
    observe("count", static_cast<uint64_t>(rs.size()));
    fs_reach("end");
}
static void check2(size_t n, size_t size1, size_t size2, std::vector<fa::IndexRanges<2>> const& rs)
{
    size_t e = 0; bool contiguous = true, nonempty = true, whole = true;
    for (auto const& r : rs) { contiguous &= r[0].begin() == e; nonempty &= r[0].end() > r[0].begin(); whole &= both(r[1].begin() == 0, r[1].end() == size2); e = r[0].end(); }
    fs_assert((either(size1 == 0, size2 == 0)) == (rs.size() == 0), "the collection is empty exactly when the array is");
    fs_assert(contiguous, "each row range starts where the previous one ends, the first one at zero");
    fs_assert(nonempty, "no row range is empty");
    fs_assert(whole, "each range spans all columns");
    fs_assert(either(rs.size() == 0, e == size1), "the row ranges end at the number of rows");
    fs_assert(rs.size() <= n + 1, "at most one range more than there are threads");
    fs_assert(either(either(size2 == 0, size1 < n), rs.size() >= n), "an array that is not small is divided over all threads");
    fs_assert(implies(both(size2 > 0, both(size1 > 0, size1 < n)), rs.size() == 1), "a small array is a single range");
    observe("count", static_cast<uint64_t>(rs.size()));
    fs_reach("end");
}
UNIT(small_1d) { size_t n = fs_choose("threads", 8) + 1, size = fs_choose("size", 41); check1(n, size, fa::index_ranges(n, size)); }
UNIT(small_2d) { size_t n = fs_choose("threads", 8) + 1, size = fs_choose("rows", 41), s2 = sym<size_t>("cols"); check2(n, size, s2, fa::index_ranges(n, size, s2)); }
UNIT(any_1d) { size_t n = fs_choose("threads", 6) + 1, size = fs_sym("size", 20); check1(n, size, fa::index_ranges(n, size)); }
UNIT(any_2d) { size_t n = fs_choose("threads", 4) + 1, size = fs_sym("rows", 16), s2 = sym<size_t>("cols"); check2(n, size, s2, fa::index_ranges(n, size, s2)); }
UNIT_THOROUGH(medium_1d) { size_t n = fs_choose("threads", 24) + 1, size = fs_choose("size", 200); check1(n, size, fa::index_ranges(n, size)); }
UNIT_THOROUGH(any_2d_64) { size_t n = fs_choose("threads", 8) + 1, size = sym<size_t>("rows"), s2 = sym<size_t>("cols"); check2(n, size, s2, fa::index_ranges(n, size, s2)); }
UNIT_THOROUGH(any_1d_64) { size_t n = fs_choose("threads", 8) + 1, size = sym<size_t>("size"); check1(n, size, fa::index_ranges(n, size)); }
UNIT(range) {
    size_t b = sym<size_t>("b"), e = sym<size_t>("e"), b2 = sym<size_t>("b2"), e2 = sym<size_t>("e2"), m = sym<size_t>("m");
    fs_assume(b <= e); fs_assume(b2 <= e2); fs_assume(b <= m);
    fa::IndexRange d, r(b, e), s(b2, e2), t(r);
    fs_assert(both(d.empty(), d.size() == 0), "a default range is empty");
    fs_assert(both(r.begin() == b, r.end() == e), "a range has the begin and end it is created with");
    fs_assert(r.empty() == (b == e), "a range is empty exactly when begin equals end");
    fs_assert(r.size() == e - b, "size of a range");
    fs_assert((r == s) == both(b == b2, e == e2), "ranges are equal exactly when their begins and ends are");
    fs_assert((r != s) == !both(b == b2, e == e2), "ranges differ exactly when they are not equal");
    fs_assert(t == r, "a copy is equal");
    t.set_end(m); fs_assert(both(t.begin() == b, t.end() == m), "set_end changes the end only");
    fa::IndexRanges<2> rs(r, s), other(fa::IndexRange(b, e), fa::IndexRange(b2, m > b2 ? m : b2));
    fs_assert(rs.empty() == either(b == e, b2 == e2), "ranges are empty exactly when one of them is");
    fs_assert(rs.size() == (e - b) * (e2 - b2), "size of ranges is the number of index pairs");
    fs_assert(both(rs[0] == r, rs[1] == s), "element access");
    fs_assert((rs == other) == (rs[1].end() == other[1].end()), "equality of ranges");
    fs_assert((rs != other) == !(rs == other), "inequality of ranges");
    fs_reach("end");
}
