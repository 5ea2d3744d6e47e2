// Harness interface. The same harness is executed symbolically by fernsym and
// natively (fs_native.cpp) to replay counterexamples and validate the encoding.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <type_traits>
#include <limits>
extern "C" {
uint64_t fs_sym(char const* name, unsigned bits);
void fs_assume(bool);
void fs_require(bool);   // the same, but whether it is possible is not asked until an assertion needs it
void fs_assert(bool ok, char const* msg);
// failures within `region` belong to the known finding `id`
void fs_assert_known(bool ok, bool region, char const* id, char const* msg);
void fs_observe(char const* name, uint64_t v);
void fs_reach(char const* label);
uint64_t fs_choose(char const* name, uint64_t n);
uint64_t fs_concretize(uint64_t v);
void fs_merge(int on);
bool fs_split(bool);   // the value, on a path of its own
void fs_explore(int preemptions, int timeouts);
int fs_symbolic_engine();
void fs_fail(char const* msg);
uint64_t fs_live_objects();
}
template<class T> T sym(char const* name)
{
    if constexpr (std::is_same<T, bool>::value) return fs_sym(name, 1) != 0;
    else if constexpr (std::is_same<T, float>::value) { uint32_t b = static_cast<uint32_t>(fs_sym(name, 32)); float f; std::memcpy(&f, &b, 4); return f; }
    else if constexpr (std::is_same<T, double>::value) { uint64_t b = fs_sym(name, 64); double f; std::memcpy(&f, &b, 8); return f; }
    else return static_cast<T>(fs_sym(name, 8 * sizeof(T)));
}
template<class T> uint64_t bits(T v)
{
    if constexpr (std::is_same<T, float>::value) { if (v != v) return 0x7fc00000u; uint32_t b; std::memcpy(&b, &v, 4); return b; }
    else if constexpr (std::is_same<T, double>::value) { if (v != v) return 0x7ff8000000000000ull; uint64_t b; std::memcpy(&b, &v, 8); return b; }
    else if constexpr (std::is_same<T, bool>::value) return v ? 1 : 0;
    else return static_cast<uint64_t>(static_cast<typename std::make_unsigned<T>::type>(v));
}
template<class T> void observe(char const* name, T v) { fs_observe(name, bits(v)); }
// identical values; NaN equals NaN, zeros are distinguished
template<class T> bool same(T a, T b) { return bits(a) == bits(b); }
// non short-circuiting connectives keep harness oracles free of branches
inline bool both(bool a, bool b) { return a & b; }
inline bool either(bool a, bool b) { return a | b; }
inline bool implies(bool a, bool b) { return !a | b; }
#define UNIT(name) extern "C" void unit_##name()
#define UNIT_THOROUGH(name) extern "C" void tunit_##name()
