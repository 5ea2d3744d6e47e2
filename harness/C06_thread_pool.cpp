// FERN: core/thread_pool core/join_threads
// BOUND: pools of 1 and 2 threads, up to 3 tasks, up to 2 submitting threads; every interleaving of the synchronisation operations with at most 2 (quick) or 3 (thorough) preemptions and at most 1 early expiry of the workers' timed wait
// ASSUME: threads, mutexes, condition variables and atomics as modelled by the executor (POSIX semantics, sequentially consistent interleavings plus happens-before race detection)
// OPT: samples=2
#include "fs.h"
#include <vector>
#include <stdexcept>
#include "fern/core/thread_pool.h"
UNIT(size) {
    size_t n = fs_choose("threads", 3) + 1;
    fern::ThreadPool pool(n);
    fs_assert(pool.size() == n, "pool has the number of threads asked for");
    fs_assert(fern::hardware_concurrency() > 0, "default number of threads is positive");
    fs_reach("end");
}
static void one_worker_order(int p, int t) {
    fs_explore(p, t);
    uint32_t a = sym<uint32_t>("a"), b = sym<uint32_t>("b"); std::vector<int> order; int runs[2] = {0, 0};
    fern::ThreadPool pool(1);
    auto f = pool.submit([&]() { order.push_back(0); ++runs[0]; return a + 1; });
    auto g = pool.submit([&]() { order.push_back(1); ++runs[1]; return b ^ 5; });
    uint32_t y = g.get(), x = f.get();
    fs_assert(x == a + 1, "first future holds the first task's result"); fs_assert(y == (b ^ 5), "second future holds the second task's result");
    fs_assert(runs[0] == 1 && runs[1] == 1, "each task runs exactly once");
    fs_assert(order.size() == 2 && order[0] == 0, "a single worker runs tasks in the order of submission");
    observe("x", x); observe("y", y); fs_reach("end");
}
UNIT(one_worker_order) { one_worker_order(2, 1); }
UNIT_THOROUGH(one_worker_order2) { one_worker_order(3, 1); }
static void two_workers(int p, int t) {
    fs_explore(p, t);
    uint32_t a = sym<uint32_t>("a"), b = sym<uint32_t>("b"); int runs[2] = {0, 0};
    {
        fern::ThreadPool pool(2);
        auto f = pool.submit([&]() { ++runs[0]; return a + 1; });
        auto g = pool.submit([&]() { ++runs[1]; return b ^ 5; });
        uint32_t x = f.get(), y = g.get();
        fs_assert(x == a + 1, "first future holds the first task's result"); fs_assert(y == (b ^ 5), "second future holds the second task's result");
    }
    fs_assert(runs[0] == 1 && runs[1] == 1, "each task runs exactly once");
    fs_reach("end");
}
UNIT(two_workers) { two_workers(2, 0); }
UNIT_THOROUGH(two_workers2) { two_workers(3, 0); }
static void exception(int p, int t) {
    fs_explore(p, t);
    fern::ThreadPool pool(1); uint32_t a = sym<uint32_t>("a"); bool caught = false; uint32_t got = 0;
    auto f = pool.submit([&]() -> uint32_t { if (a == 7) throw std::runtime_error("seven"); return a; });
    auto g = pool.submit([&]() { return a + 2; });
    try { got = f.get(); } catch (std::runtime_error const& e) { caught = e.what()[0] == 's'; }
    fs_assert(caught == (a == 7), "the exception a task throws is thrown by its future, with its type");
    if (!caught) fs_assert(got == a, "result of a task that does not throw");
    fs_assert(g.get() == a + 2, "a task that throws does not stop later tasks");
    fs_reach(caught ? "threw" : "returned");
}
UNIT(exception) { exception(2, 0); }
UNIT_THOROUGH(exception2) { exception(3, 1); }
// Destruction while tasks may still be queued: nothing hangs, no task runs
// twice or after the pool is gone, and every future is settled.
static void shutdown(int p, int t, int threads) {
    fs_explore(p, t);
    int runs[2] = {0, 0}; bool alive = true, late = false; std::future<int> f, g;
    {
        fern::ThreadPool pool(threads);
        f = pool.submit([&]() { if (!alive) late = true; ++runs[0]; return 11; });
        g = pool.submit([&]() { if (!alive) late = true; ++runs[1]; return 22; });
    }
    alive = false;
    int x = 0, y = 0; bool bx = false, by = false;
    try { x = f.get(); } catch (std::future_error const& e) { bx = e.code() == std::future_errc::broken_promise; }
    try { y = g.get(); } catch (std::future_error const& e) { by = e.code() == std::future_errc::broken_promise; }
    fs_assert(!late, "no task runs after the pool is destroyed");
    fs_assert(runs[0] == (bx ? 0 : 1) && runs[1] == (by ? 0 : 1), "a task runs once, or never and its future reports a broken promise");
    fs_assert((bx || x == 11) && (by || y == 22), "future of a task that ran holds its result");
    fs_reach(bx ? "dropped" : "ran"); fs_reach("end");
}
UNIT(shutdown1) { shutdown(2, 1, 1); }
UNIT(shutdown2) { shutdown(2, 0, 2); }
UNIT_THOROUGH(shutdown1_2) { shutdown(3, 1, 1); }
UNIT_THOROUGH(shutdown2_2) { shutdown(3, 0, 2); }
static void idle(int p, int t) { fs_explore(p, t); { fern::ThreadPool pool(2); } fs_reach("end"); }
UNIT(idle) { idle(2, 1); }
UNIT_THOROUGH(idle3) { idle(3, 2); }
// two threads submit to the same pool
static void producers(int p, int t) {
    fs_explore(p, t);
    int runs[2] = {0, 0}; int x = 0, y = 0;
    {
        fern::ThreadPool pool(1);
        std::thread other([&]() { x = pool.submit([&]() { ++runs[0]; return 3; }).get(); });
        y = pool.submit([&]() { ++runs[1]; return 4; }).get();
        other.join();
    }
    fs_assert(runs[0] == 1 && runs[1] == 1, "each task runs exactly once"); fs_assert(x == 3 && y == 4, "each submitter gets its own task's result");
    fs_reach("end");
}
UNIT(producers) { producers(2, 0); }
UNIT_THOROUGH(producers2) { producers(3, 0); }
