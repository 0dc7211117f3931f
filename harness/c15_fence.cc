// C15: one-time fence with waiters, notifiers and queries under all interleavings, in one or several processes.
#include "xs.h"
#include "cppev/lock.h"
#include <thread>
#include <vector>
using cppev::pshared_one_time_fence;

static const struct { const char *name; int w, n, procs, times; bool query; } sc[] = {
    {"1 waiter, 1 notifier", 1, 1, 1, 1, false},
    {"1 waiter, 1 notifier, 2 processes", 1, 1, 2, 1, false},
    {"2 waiters, 1 notifier", 2, 1, 1, 1, false},
    {"2 waiters, 1 notifier, 3 processes", 2, 1, 3, 1, false},
    {"1 waiter, 2 notifiers", 1, 2, 1, 1, false},
    {"1 waiter waits twice, 1 notifier notifies twice", 1, 1, 1, 2, false},
    {"2 waiters, 2 notifiers", 2, 2, 1, 1, false},
    {"3 waiters, 1 notifier", 3, 1, 1, 1, false},
    {"1 waiter, 1 notifier, queries", 1, 1, 1, 1, true},
    {"0 waiters, 2 notifiers, queries", 0, 2, 1, 2, true},
    {"2 waiters wait twice, 2 notifiers, 2 processes", 2, 2, 2, 2, false},
    {"2 waiters, nobody notifies at first", 2, 0, 1, 1, false},
};
int xs_nscenarios(void) { return sizeof sc / sizeof *sc; }
const char *xs_scenario_name(int i) { return sc[i].name; }
int xs_bound(int i, int deep) { int t = sc[i].w + sc[i].n + sc[i].query; return deep ? (t <= 2 ? 8 : t == 3 ? 5 : 4) : (t <= 2 ? 5 : t == 3 ? 3 : 2); }

namespace
{
int began, ended, returned;     // bookkeeping
int payload[4];                 // payload[i]: written by notifier i before its notify
}
void xs_scenario(int s)
{
    xs_norace(&began, sizeof began);
    xs_norace(&ended, sizeof ended);
    xs_norace(&returned, sizeof returned);
    auto c = sc[s];
    pshared_one_time_fence f;
    XS_CHECK(!f.ok(), "a new fence says it was notified");
    std::vector<std::thread> t;
    auto waiter = [&f, c](int i)
    {
        xs_vproc((i + 1) % c.procs);
        for (int k = 0; k < c.times; ++k)
        {
            f.wait();
            XS_CHECK(began > 0, "wait returned before any notify began");
            if (c.n == 1) XS_CHECK(payload[0] == 7, "a write made before the notify is not visible after the wait");
            XS_CHECK(f.ok(), "the state is not set after a wait");
        }
        ++returned;
    };
    for (int i = 0; i < c.w; ++i) t.emplace_back(waiter, i);
    for (int i = 0; i < c.n; ++i)
        t.emplace_back([&f, c, i]
        {
            xs_vproc((i + 2) % c.procs);
            payload[i] = 7;
            for (int k = 0; k < c.times; ++k)
            {
                ++began;
                f.notify();
                ++ended;
                XS_CHECK(f.ok(), "the state is not set after a notify");
            }
        });
    if (c.query)
        t.emplace_back([&f, c]
        {
            for (int k = 0; k < 2; ++k)
            {
                int e = ended;
                bool o = f.ok();
                if (o) XS_CHECK(began > 0, "the state was set before any notify began");
                if (o && c.n == 1) XS_CHECK(payload[0] == 7, "a write made before the notify is not visible when the state is set");
                if (e) XS_CHECK(o, "the state was not set after a notify had returned");
            }
        });
    if (!c.n)
    {
        xs_settle();
        XS_CHECK(returned == 0, "%d waits returned without a notify", returned);
        XS_CHECK(!f.ok(), "the state was set without a notify");
        payload[0] = 7;
        ++began;
        f.notify();
        ++ended;
    }
    for (auto &x : t) x.join();
    XS_CHECK(returned == c.w, "%d of %d waiters returned", returned, c.w);
    // waits after the notify return at once
    f.wait();
    f.notify();
    f.wait();
    XS_CHECK(f.ok(), "the state is not set at the end");
}
