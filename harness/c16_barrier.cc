// C16: barrier of N with N and more arrivals under all interleavings, in one or several processes.
#include "xs.h"
#include "cppev/lock.h"
#include <stdexcept>
#include <thread>
#include <vector>
using cppev::pshared_barrier;

static const struct { const char *name; int n, arrivals, procs; bool again; } sc[] = {
    {"barrier of 1, 1 arrival", 1, 1, 1, false},
    {"barrier of 1, 2 arrivals", 1, 2, 1, false},
    {"barrier of 2, 2 arrivals", 2, 2, 1, false},
    {"barrier of 2, 2 arrivals, 2 processes", 2, 2, 2, false},
    {"barrier of 2, 3 arrivals", 2, 3, 1, false},
    {"barrier of 2, 3 arrivals, 2 processes", 2, 3, 2, false},
    {"barrier of 2, 4 arrivals", 2, 4, 1, false},
    {"barrier of 3, 3 arrivals", 3, 3, 1, false},
    {"barrier of 3, 4 arrivals, 3 processes", 3, 4, 3, false},
    {"barrier of 2, everybody comes twice", 2, 2, 1, true},
    {"barrier of 3, everybody comes twice", 3, 3, 1, true},
    {"barrier of 3, 2 arrivals", 3, 2, 1, false},
    {"barrier of 3, 5 arrivals", 3, 5, 1, false},
};
int xs_nscenarios(void) { return sizeof sc / sizeof *sc; }
const char *xs_scenario_name(int i) { return sc[i].name; }
int xs_bound(int i, int deep) { int t = sc[i].arrivals; return deep ? (t <= 2 ? 8 : t == 3 ? 5 : t == 4 ? 3 : 2) : (t <= 2 ? 4 : t == 3 ? 3 : t == 4 ? 2 : 1); }

namespace
{
int called, passed, thrown, sequence[8];
int payload[8];     // written before arriving, read after: ordered by the barrier
void arrive(pshared_barrier &b, int id, int n, int calls)
{
    payload[id] = 10 + id;
    ++called;
    try { b.wait(); }
    catch (const std::logic_error &) { ++thrown; XS_CHECK(called > n, "an arrival among the first %d was refused", n); return; }
    catch (const std::exception &e) { xs_fail("wait raised something else: %s", e.what()); }
    XS_CHECK(called >= n, "wait returned after %d of %d arrivals", called, n);
    ++passed;
    // with exactly n participants all their writes are visible
    if (calls == n) for (int k = 0; k < n; ++k) XS_CHECK(payload[k] == 10 + k, "a write made before the barrier is not visible after it");
}
}
void xs_scenario(int s)
{
    xs_norace(&called, sizeof called);
    xs_norace(&passed, sizeof passed);
    xs_norace(&thrown, sizeof thrown);
    int n = sc[s].n, a = sc[s].arrivals;
    pshared_barrier b(n);
    if (a < n)
    {
        // nobody may pass
        for (int i = 0; i < a; ++i) std::thread([&b, i, n, a] { xs_daemon(); arrive(b, i, n, a); }).detach();
        xs_settle();
        XS_CHECK(passed == 0 && thrown == 0, "%d of %d arrivals passed a barrier of %d", passed, a, n);
        // now the last one comes
        std::thread t([&b, a, n] { arrive(b, a, n, n); });
        t.join();
        xs_settle();
        XS_CHECK(passed == n, "%d of %d passed", passed, n);
        return;
    }
    std::vector<std::thread> t;
    for (int i = 0; i < a; ++i)
        t.emplace_back([&b, i, n, a, s]
        {
            xs_vproc(i % sc[s].procs);
            arrive(b, i, n, a);
            if (sc[s].again)
            {
                ++called;
                bool refused = false;
                try { b.wait(); } catch (const std::logic_error &) { refused = true; }
                XS_CHECK(refused, "a wait beyond the first %d did not raise a logic error", n);
            }
        });
    for (auto &x : t) x.join();
    XS_CHECK(passed == n && thrown == a - n, "%d passed, %d refused of %d arrivals at a barrier of %d", passed, thrown, a, n);
    // later arrivals are refused, too
    for (int i = 0; i < 2; ++i)
    {
        bool refused = false;
        try { b.wait(); } catch (const std::logic_error &) { refused = true; }
        XS_CHECK(refused, "a later wait did not raise a logic error");
    }
}
