// BOUND: sequential histories of up to 5 operations from {push, try_pop, empty} with symbolic values; concurrent histories of 2 producers, 1 and 2 consumers and 2 values each, all interleavings with at most 2 (quick) or 3 (thorough) preemptions
// OPT: samples=3
#include "fs.h"
#include <thread>
#include <vector>
#include <memory>
#include "fern/core/thread_safe_queue.h"
static void history(int n) {
    fern::ThreadSafeQueue<uint32_t> q; std::vector<uint32_t> model; size_t head = 0;
    for (int i = 0; i < n; ++i) {
        uint64_t op = fs_choose("op", 2);
        if (op == 0) { uint32_t v = sym<uint32_t>("v"); q.push(v); model.push_back(v); }
        else {
            uint32_t x = 12345u; bool ok = q.try_pop(x);
            fs_assert(ok == (head < model.size()), "try_pop succeeds exactly when the queue holds a value");
            fs_assert(x == (ok ? model[head] : 12345u), "try_pop returns the oldest value and leaves its argument alone when the queue is empty");
            if (ok) ++head;
            observe("x", x);
        }
        fs_assert(q.empty() == (head == model.size()), "empty tells whether the queue holds a value");
    }
    fs_reach("end");
}
UNIT(history) { history(5); }
UNIT_THOROUGH(history8) { history(8); }
UNIT(move_only) {
    fern::ThreadSafeQueue<std::unique_ptr<int>> q; int* p = new int(3);
    q.push(std::unique_ptr<int>(p)); std::unique_ptr<int> r; bool ok = q.try_pop(r);
    fs_assert(ok && r.get() == p && *r == 3, "a move-only value is handed over"); fs_assert(!q.try_pop(r), "and is gone from the queue"); fs_assert(r.get() == p, "failed try_pop keeps the argument");
    fs_reach("end");
}
static void producers(int p, int n) {
    fs_explore(p, 0);
    fern::ThreadSafeQueue<int> q;
    std::thread a([&]() { for (int i = 0; i < n; ++i) q.push(10 + i); });
    for (int i = 0; i < n; ++i) q.push(20 + i);
    a.join();
    int x, na = 0, nb = 0, total = 0; bool ordered = true;
    while (q.try_pop(x)) { ++total; if (x < 20) { ordered &= x == 10 + na; ++na; } else { ordered &= x == 20 + nb; ++nb; } }
    fs_assert(total == 2 * n && na == n && nb == n, "every value pushed is popped exactly once");
    fs_assert(ordered, "values of one producer are popped in the order in which they were pushed");
    fs_reach("end");
}
UNIT(producers) { producers(2, 2); }
UNIT_THOROUGH(producers3) { producers(3, 3); }
static void consumers(int p) {
    fs_explore(p, 0);
    fern::ThreadSafeQueue<int> q; int got[2] = {0, 0}; bool e = false;
    q.push(1);
    std::thread a([&]() { int x; if (q.try_pop(x)) got[0] = x; e = q.empty(); });
    q.push(2);
    int x; bool ok = q.try_pop(x); if (ok) got[1] = x;
    a.join();
    fs_assert(ok, "a value that was pushed before and not popped yet can be popped");
    fs_assert(got[0] != 0, "a value pushed before can be popped");
    fs_assert(got[0] + got[1] == 3 && got[0] != got[1], "two consumers never pop the same value");
    fs_assert(q.empty(), "queue is empty after all values are popped");
    int y = 9; fs_assert(!q.try_pop(y) && y == 9, "nothing is left");
    fs_reach("end");
}
UNIT(consumers) { consumers(2); }
UNIT_THOROUGH(consumers3) { consumers(4); }
static void race_for_last(int p) {
    fs_explore(p, 0);
    fern::ThreadSafeQueue<int> q; q.push(5); bool ok0 = false, ok1 = false; int x = 0, y = 0;
    std::thread a([&]() { ok0 = q.try_pop(x); });
    ok1 = q.try_pop(y);
    a.join();
    fs_assert(ok0 != ok1, "a single value is popped by exactly one of two consumers"); fs_assert((ok0 ? x : y) == 5, "and it is the value pushed");
    fs_reach("end");
}
UNIT(race_for_last) { race_for_last(2); }
UNIT_THOROUGH(race_for_last4) { race_for_last(4); }
