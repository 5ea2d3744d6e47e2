// BOUND: one function, any combination of: releasing, moving the guard up to 3 times (chosen by the solver), leaving the scope normally, by return or by an exception depending on a symbolic value; nested guards
#include "fs.h"
#include <stdexcept>
#include "fern/core/scope_exit.h"
// How a scope is left depends on symbolic values; the function runs exactly
// once when the scope is left, unless the guard was released.
int leave(int* count, uint32_t v, int how, bool release, int moves, bool release_moved)
{
    auto f = [count]() { ++*count; };
    auto a = fern::makeScopeExit(std::move(f));
    if (moves == 0) {
        if (release) a.release();
        fs_assert(*count == 0, "the function does not run before the end of the scope");
        if (how == 1 && v < 10) return 1;
        if (how == 2 && v < 10) throw std::runtime_error("scope");
        return 0;
    }
    if (release && !release_moved) a.release();
    {
        auto b(std::move(a));
        fs_assert(*count == 0, "moving a guard does not run the function");
        if (moves == 1) { if (release && release_moved) b.release(); if (how == 2 && v < 10) throw std::runtime_error("scope"); if (how == 1 && v < 10) return 1; }
        else {
            auto c(std::move(b)); 
            if (moves == 3) { auto d(std::move(c)); if (release && release_moved) d.release(); fs_assert(*count == 0, "moving a guard does not run the function"); if (how == 2 && v < 10) throw std::runtime_error("scope"); }
            else if (release && release_moved) c.release();
            if (how == 1 && v < 10) return 1;
        }
        if (moves == 1) fs_assert(*count == 0, "the function runs when the guard goes out of scope, not earlier");
    }
    fs_assert(*count == (release ? 0 : 1), "the function ran when the last guard went out of scope");
    return 0;
}
UNIT(exactly_once) {
    uint32_t v = sym<uint32_t>("v"); int how = fs_choose("how", 3), moves = fs_choose("moves", 4), count = 0, thrown = 0, result = 0; bool release = fs_choose("release", 2), inner = fs_choose("inner", 2);
    try { result = leave(&count, v, how, release, moves, inner); } catch (std::runtime_error const&) { thrown = 1; }
    fs_assert(count == (release ? 0 : 1), "the function runs exactly once when the scope is left, unless released");
    fs_assert(result == (how == 1 && v < 10), "leaving a scope by return"); if (moves != 2) fs_assert(thrown == (how == 2 && v < 10), "leaving a scope by an exception");
    observe("count", count); fs_reach("end");
}
UNIT(captures) {
    uint32_t v = sym<uint32_t>("v"), w = sym<uint32_t>("w"), x = 0, y = 0; int order[2] = {0, 0}, n = 0;
    {
        auto outer = fern::makeScopeExit([&x, v, &order, &n]() { x = v; order[n++] = 1; });
        auto inner = fern::makeScopeExit([&y, w, &order, &n]() { y = w; order[n++] = 2; });
        v = 0; w = 0; fs_assert(x == 0 && y == 0, "functions do not run before the end of the scope");
        if (fs_choose("release", 2)) { inner.release(); inner.release(); }
    }
    (void)y; fs_assert(n == 1 ? order[0] == 1 : n == 2 && order[0] == 2 && order[1] == 1, "guards run in the reverse order of their construction");
    observe("x", x); fs_reach("end");
}
UNIT(values) {
    uint32_t v = sym<uint32_t>("v"), x = 0; uint32_t const kept = v; { auto g = fern::makeScopeExit([&x, v]() { x = v + 1; }); v = 0; auto h(std::move(g)); }
    fs_assert(x == kept + 1, "the function runs with the values it captured"); observe("x", x); fs_reach("end");
}
