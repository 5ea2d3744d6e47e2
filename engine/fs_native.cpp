// Native side of the harness interface: replays one assignment against the real
// build of the code. Usage: prog <unit> <inputs-file>
// exit 0: all assertions held; 1: an assertion failed; 77: an assumption did not hold.
#include "fs.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <map>
#include <dlfcn.h>
#include <unistd.h>
static std::map<std::string, unsigned long long> in; static std::map<std::string, unsigned> cnt; static bool failed = false;
static void done(int rc) { fflush(stdout); _exit(rc); }
static unsigned long long next(char const* n) { std::string k = n; unsigned c = cnt[k]++; if (c) k += "." + std::to_string(c); auto it = in.find(k); return it == in.end() ? 0 : it->second; }
extern "C" {
uint64_t fs_sym(char const* n, unsigned b) { auto v = next((std::string(n) + ":" + std::to_string(b)).c_str()); return b >= 64 ? v : v & ((1ull << b) - 1); }
void fs_assume(bool c) { if (!c) { if (failed) done(1); printf("ASSUME\n"); done(77); } }
void fs_assert(bool ok, char const* m) { if (!ok) { failed = true; printf("ASSERT %s\n", m); fflush(stdout); } }
void fs_assert_known(bool ok, bool region, char const* id, char const* m) { if (!ok) { failed = true; if (region) printf("KNOWN %s ", id); else printf("ASSERT "); printf("%s\n", m); fflush(stdout); } }
void fs_observe(char const* n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
void fs_reach(char const* l) { printf("REACH %s\n", l); fflush(stdout); }
uint64_t fs_choose(char const* n, uint64_t k) { auto v = next(n); return v < k ? v : 0; }
uint64_t fs_concretize(uint64_t v) { return v; }
void fs_require(bool c) { fs_assume(c); }
void fs_merge(int) {}
bool fs_split(bool c) { return c; }
void fs_explore(int, int) {}
int fs_symbolic_engine() { return 0; }
void fs_fail(char const* m) { printf("ASSERT %s\n", m); done(1); }
uint64_t fs_live_objects() { return 0; }
void fs_debug(char const*, uint64_t) {}
}
int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    FILE* f = fopen(argv[2], "r"); if (!f) return 2;
    char name[512]; unsigned long long v; unsigned w; while (fscanf(f, "%511s %u %llu", name, &w, &v) == 3) in[name] = v; fclose(f);
    auto u = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!u) { fprintf(stderr, "no unit %s\n", argv[1]); return 2; }
    u(); done(failed ? 1 : 0);
}
