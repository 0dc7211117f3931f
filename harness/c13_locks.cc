// C13: shared mutex, spinlock and condition variable under all interleavings, in one or several processes.
#include "xs.h"
#include "cppev/lock.h"
#include <system_error>
#include <thread>
#include <vector>
using namespace cppev;

static const char *names[] = {
    "mutex: 2 threads, 2 rounds", "mutex: 3 threads", "mutex: 2 processes, 2 rounds", "mutex: 3 processes",
    "spinlock: 2 threads, 2 rounds", "spinlock: 3 threads",
    "mutex: 2 threads lock, 1 tries", "mutex: lock, try and misuse in 2 processes", "spinlock: 2 threads lock, 1 tries", "spinlock: 2 threads try twice",
    "condition: 1 waiter, notify_one under the lock", "condition: 1 waiter in another process, notify_one after unlock",
    "condition: 2 waiters, notify_all", "condition: 2 waiters in 2 processes, notify_all", "condition: 2 waiters, 2 tokens with notify_one each",
    "condition: 2 waiters in 3 processes, 2 tokens with notify_one each", "condition: ping-pong of 2 threads", "condition: ping-pong of 2 processes",
    "condition: plain wait in a loop, 1 waiter", "condition: condition already true", "condition: 2 waiters with different conditions, notify_all",
    "condition: 3 waiters, notify_all", "condition: nobody signals",
};
int xs_nscenarios(void) { return sizeof names / sizeof *names; }
const char *xs_scenario_name(int i) { return names[i]; }
int xs_bound(int i, int deep)
{
    switch (i)
    {
    case 1: case 3: case 5: case 6: case 8: case 12: case 13: case 20: return deep ? 5 : 3;
    case 14: case 15: case 21: return deep ? 4 : 2;
    }
    return deep ? 8 : 4;
}
namespace
{
int inside, data, shared_count;
int intent[8];          // between calling lock and returning from unlock
int flag[4], woken, token;
void enter(const char *what)
{
    XS_CHECK(inside == 0, "two holders of the %s at the same time", what);
    inside = 1;
    ++data;             // race checked
    xs_point(&inside);
    XS_CHECK(inside == 1, "two holders of the %s at the same time", what);
    inside = 0;
}
template <typename L> void worker(L &l, int rounds, int me, const char *what)
{
    for (int i = 0; i < rounds; ++i)
    {
        intent[me] = 1;
        l.lock();
        enter(what);
        l.unlock();
        intent[me] = 0;
    }
}
bool try_on(pshared_lock &l) { return l.try_lock(); }
bool try_on(spinlock &l) { return l.trylock(); }
template <typename L> void trier(L &l, int me, const char *what)
{
    for (int i = 0; i < 2; ++i)
    {
        bool busy = false;
        intent[me] = 1;
        for (int k = 0; k < 8; ++k) if (k != me && intent[k]) busy = true;
        bool got = try_on(l);
        for (int k = 0; k < 8; ++k) if (k != me && intent[k]) busy = true;
        // nobody else was between lock and unlock at either end and the tries are one step each
        if (!got) XS_CHECK(busy, "trying a free %s failed", what);
        if (got) { enter(what); l.unlock(); ++shared_count; }
        intent[me] = 0;
    }
}
template <typename L> void exclusion(int threads, int rounds, int procs, int tries, const char *what)
{
    if (tries) xs_unlock_points(1);
    L l;
    std::vector<std::thread> t;
    for (int i = 0; i < threads; ++i)
        t.emplace_back([&, i]
        {
            xs_vproc(i % procs);
            if (i >= threads - tries) trier(l, i, what);
            else worker(l, rounds, i, what);
        });
    for (auto &x : t) x.join();
    XS_CHECK(try_on(l), "the %s is still held at the end", what);
    bool again = try_on(l);
    XS_CHECK(!again, "trying a held %s succeeded", what);
    l.unlock();
    XS_CHECK(data == (threads - tries) * rounds + shared_count, "%d critical sections counted", data);
    xs_obs("%d", shared_count);
}
}
void xs_scenario(int s)
{
    xs_norace(&inside, sizeof inside);
    xs_norace(intent, sizeof intent);
    xs_norace(&woken, sizeof woken);
    xs_norace(&shared_count, sizeof shared_count);
    switch (s)
    {
    case 0: exclusion<pshared_lock>(2, 2, 1, 0, "mutex"); return;
    case 1: exclusion<pshared_lock>(3, 1, 1, 0, "mutex"); return;
    case 2: exclusion<pshared_lock>(2, 2, 2, 0, "mutex"); return;
    case 3: exclusion<pshared_lock>(3, 1, 3, 0, "mutex"); return;
    case 4: exclusion<spinlock>(2, 2, 1, 0, "spinlock"); return;
    case 5: exclusion<spinlock>(3, 1, 1, 0, "spinlock"); return;
    case 6: exclusion<pshared_lock>(3, 1, 1, 1, "mutex"); return;
    case 8: exclusion<spinlock>(3, 1, 1, 1, "spinlock"); return;
    case 9: exclusion<spinlock>(2, 1, 1, 2, "spinlock"); return;
    case 7:
    {
        pshared_lock l;
        std::thread a([&] { xs_vproc(1); worker(l, 1, 0, "mutex"); });
        // this thread never owns it: unlocking is misuse
        int code = 0;
        try { l.unlock(); } catch (const std::system_error &e) { code = e.code().value(); }
        XS_CHECK(code != 0, "unlocking a mutex held by nobody or by another one raised no system error");
        worker(l, 1, 1, "mutex");
        l.lock();
        code = 0;
        try { l.lock(); } catch (const std::system_error &e) { code = e.code().value(); }
        XS_CHECK(code != 0, "locking a mutex twice raised no system error");
        XS_CHECK(!l.try_lock(), "trying a held mutex succeeded");
        l.unlock();
        a.join();
        XS_CHECK(data == 2, "%d critical sections", data);
        return;
    }
    }
    pshared_lock l;
    pshared_cond c;
    auto waiter = [&](int me, int vproc, bool consume, bool plain)
    {
        xs_vproc(vproc);
        std::unique_lock<pshared_lock> lk(l);
        auto ready = [&] { return consume ? token > 0 : flag[me] != 0; };
        if (plain) while (!ready()) c.wait(lk);
        else c.wait(lk, ready);
        XS_CHECK(lk.owns_lock() && !l.try_lock(), "the mutex is not held after the wait");
        XS_CHECK(ready(), "the wait returned although its condition is false");
        enter("mutex");
        if (consume) --token;
        ++woken;
    };
    auto set = [&](int n, bool all, bool under)
    {
        {
            std::unique_lock<pshared_lock> lk(l);
            for (int i = 0; i < n; ++i) flag[i] = 1;
            ++token;
            enter("mutex");
            if (under) { if (all) c.notify_all(); else c.notify_one(); }
        }
        if (!under) { if (all) c.notify_all(); else c.notify_one(); }
    };
    std::vector<std::thread> t;
    int n = 0;
    // a spuriously woken waiter may hold the mutex for a moment
    if (s == 20 || s == 22) xs_spurious(0);
    switch (s)
    {
    case 10: n = 1; t.emplace_back(waiter, 0, 0, false, false); set(1, false, true); break;
    case 11: n = 1; t.emplace_back(waiter, 0, 1, false, false); set(1, false, false); break;
    case 12: n = 2; for (int i = 0; i < 2; ++i) t.emplace_back(waiter, i, 0, false, false); set(2, true, true); break;
    case 13: n = 2; for (int i = 0; i < 2; ++i) t.emplace_back(waiter, i, i, false, false); set(2, true, false); break;
    case 14: n = 2; for (int i = 0; i < 2; ++i) t.emplace_back(waiter, i, 0, true, false); set(0, false, true); set(0, false, false); break;
    case 15: n = 2; for (int i = 0; i < 2; ++i) t.emplace_back(waiter, i, 1 + i, true, false); set(0, false, false); set(0, false, true); break;
    case 16: case 17:
    {
        int turn = 0;
        auto play = [&](int me)
        {
            xs_vproc(s == 17 ? me : 0);
            for (int i = 0; i < 2; ++i)
            {
                std::unique_lock<pshared_lock> lk(l);
                c.wait(lk, [&] { return turn == me; });
                enter("mutex");
                turn = 1 - me;
                c.notify_one();
            }
        };
        std::thread a(play, 0), b(play, 1);
        a.join();
        b.join();
        XS_CHECK(data == 4 && turn == 0, "%d turns were played", data);
        return;
    }
    case 18: n = 1; t.emplace_back(waiter, 0, 1, false, true); set(1, false, true); break;
    case 19:
        flag[0] = 1;
        n = 1;
        t.emplace_back(waiter, 0, 0, false, false);
        break;
    case 20:
        n = 2;
        for (int i = 0; i < 2; ++i) t.emplace_back(waiter, i, 0, false, false);
        set(1, true, true);         // only the first one's condition
        xs_settle();
        XS_CHECK(woken == 1, "%d waiters returned although one condition is true", woken);
        XS_CHECK(l.try_lock(), "a waiting thread holds the mutex");
        flag[1] = 1;
        c.notify_one();
        l.unlock();
        break;
    case 21: n = 3; for (int i = 0; i < 3; ++i) t.emplace_back(waiter, i, i % 2, false, false); set(3, true, true); break;
    case 22:
        t.emplace_back([&] { xs_daemon(); waiter(0, 0, false, false); });
        xs_settle();
        XS_CHECK(woken == 0, "a wait returned although its condition is false");
        XS_CHECK(l.try_lock(), "a waiting thread holds the mutex");
        l.unlock();
        c.notify_one();
        xs_settle();
        XS_CHECK(woken == 0, "a wait returned although its condition is false");
        n = 1;
        set(1, false, true);
        break;
    }
    for (auto &x : t) x.join();
    XS_CHECK(woken == n, "%d of %d waiters returned", woken, n);
    XS_CHECK(l.try_lock(), "the mutex is held at the end");
    l.unlock();
}
