// C11: runnable and thread_pool under all interleavings with a virtual clock.
#include "xs.h"
#include "cppev/thread_pool.h"
#include <errno.h>
#include <memory>
#include <string>
#include <system_error>
#include <thread>
#include <time.h>
#include <unistd.h>
using namespace cppev;

static const char *names[] = {
    "run, join", "run, timed wait until true, join", "run, zero wait, join, zero wait", "run, long timed wait, join", "slow body, short timed wait",
    "run, everything settled, zero wait", "cancel a sleeping body", "cancel a body reading a pipe", "cancel a body waiting for a condition", "cancel at any moment, then join",
    "cancel an ended body, join", "run, detach, timed wait", "detach before the body ends", "2 threads, joined in the other order",
    "pool of 0", "pool of 1", "pool of 2", "pool of 3", "pool of 2, cancelled", "pool of 3, cancelled", "pool: arguments by value, reference, pointer, move-only",
    "thread creation fails", "timed waits of all units", "pool of 2, one body ends, one is cancelled", "pool moved before it runs", "body already ended when cancelled, timed wait",
    "timed waits that end early", "pool whose threads end or refuse to be cancelled", "pool of 3, cancelled, the first has ended",
};
int xs_nscenarios(void) { return sizeof names / sizeof *names; }
const char *xs_scenario_name(int i) { return names[i]; }
int xs_bound(int i, int deep) { return i == 17 || i == 19 || i >= 27 ? (deep ? 4 : 2) : deep ? 8 : 4; }

namespace
{
using ms = std::chrono::milliseconds;
int runs[8], ended[8], result[8];
int fds[2];
std::mutex M;
std::condition_variable C;
bool never;
enum kind { QUICK, SLEEPY, READER, WAITER, SLOW, STEPS };
struct body : runnable
{
    int id; kind k;
    body(int i, kind kk) : id(i), k(kk) {}
    explicit body(kind kk) : id(next++), k(kk) {}
    static int next;
    void run_impl() override
    {
        ++runs[id];
        switch (k)
        {
        case QUICK: break;
        case SLEEPY: for (;;) { struct timespec t = {1000, 0}; nanosleep(&t, nullptr); } break;
        case READER: { char c; if (read(fds[0], &c, 1) != 1) {} xs_fail("a cancelled read returned"); }
        case WAITER: { std::unique_lock<std::mutex> l(M); while (!never) C.wait(l); break; }
        case SLOW: { struct timespec t = {0, 50000000}; nanosleep(&t, nullptr); break; }
        case STEPS: for (int i = 0; i < 3; ++i) xs_point(&runs[id]); break;
        }
        result[id] = 100 + id;
        ended[id] = 1;
    }
};
int body::next;
void joined(int id) { XS_CHECK(runs[id] == 1, "body %d ran %d times", id, runs[id]); XS_CHECK(ended[id], "join returned before body %d ended", id); XS_CHECK(result[id] == 100 + id, "the body's result is not visible after join"); }

struct by_args : runnable
{
    std::string s; int n; const int *ref; std::shared_ptr<int> p; std::string moved;
    by_args(std::string a, int b, const int &c, std::shared_ptr<int> d, std::string &&e) : s(std::move(a)), n(b), ref(&c), p(std::move(d)), moved(std::move(e)) {}
    void run_impl() override {}
};
struct by_move : runnable
{
    std::unique_ptr<int> p;
    by_move(std::unique_ptr<int> a) : p(std::move(a)) {}
    void run_impl() override {}
};
struct stubborn : body
{
    static int cancelled[4];
    stubborn(kind k) : body(k) {}
    bool cancel() noexcept override { ++cancelled[id]; runnable::cancel(); return false; }
};
int stubborn::cancelled[4];
struct no_args : runnable { static int made; int id; no_args() : id(made++) {} void run_impl() override { ++runs[id]; ended[id] = 1; result[id] = 100 + id; } };
int no_args::made;

int fail_threads;
int env(int call, int, size_t, long *ret, int *err, size_t *, const void *)
{
    if (call == XC_THREAD && fail_threads) { *ret = EAGAIN; *err = EAGAIN; return 1; }
    return 0;
}
}
void xs_scenario(int s)
{
    xs_norace(runs, sizeof runs);
    xs_norace(ended, sizeof ended);
    switch (s)
    {
    case 0: { body b(0, STEPS); b.run(); b.join(); joined(0); break; }
    case 1:
    {
        body b(0, STEPS);
        b.run();
        int n = 0;
        while (!b.wait_for(ms(10))) { XS_CHECK(++n < 50, "the timed wait never reports the end"); if (n > 3) xs_settle(); }
        XS_CHECK(ended[0], "the timed wait reported the end before the body ended");
        XS_CHECK(result[0] == 100, "the body's result is not visible after the timed wait");
        XS_CHECK(b.wait_for(ms(0)), "a second timed wait does not report the end");
        b.join();
        joined(0);
        xs_obs("%d", n);
        break;
    }
    case 2:
    {
        body b(0, QUICK);
        XS_CHECK(!b.wait_for(ms(0)), "a thread that never ran is reported as ended");
        b.run();
        bool r = b.wait_for(ms(0));
        if (r) XS_CHECK(ended[0], "the timed wait reported the end before the body ended");
        b.join();
        joined(0);
        XS_CHECK(b.wait_for(ms(0)), "a timed wait after join does not report the end");
        xs_obs("%d", r);
        break;
    }
    case 3:
    {
        body b(0, STEPS);
        b.run();
        bool r = b.wait_for(std::chrono::hours(1));
        if (r) XS_CHECK(ended[0], "the timed wait reported the end before the body ended");
        b.join();
        joined(0);
        xs_obs("%d", r);
        break;
    }
    case 4:
    {
        body b(0, SLOW);
        b.run();
        bool r = b.wait_for(ms(10));
        if (r) XS_CHECK(ended[0], "the timed wait reported the end before the body ended");
        bool r2 = b.wait_for(ms(1000));
        if (r2) XS_CHECK(ended[0], "the timed wait reported the end before the body ended");
        b.join();
        joined(0);
        XS_CHECK(b.wait_for(ms(1)), "a timed wait after join does not report the end");
        xs_obs("%d%d", r, r2);
        break;
    }
    case 5:
    {
        body b(0, QUICK);
        b.run();
        xs_settle();
        XS_CHECK(b.wait_for(ms(0)), "the body ended before the wait, which did not report it");
        XS_CHECK(b.wait_for(std::chrono::seconds(1)), "the body ended before the wait, which did not report it");
        b.join();
        joined(0);
        break;
    }
    case 6: case 7: case 8:
    {
        if (pipe(fds)) abort();
        body b(0, s == 6 ? SLEEPY : s == 7 ? READER : WAITER);
        b.run();
        xs_settle();
        XS_CHECK(b.cancel(), "cancelling a running thread failed");
        b.join();
        XS_CHECK(runs[0] == 1 && !ended[0], "the cancelled body ran %d times, ended %d", runs[0], ended[0]);
        break;
    }
    case 9:
    {
        if (pipe(fds)) abort();
        body b(0, xs_choose(2, 0) ? SLEEPY : READER);
        b.run();
        XS_CHECK(b.cancel(), "cancelling a running thread failed");
        b.join();
        XS_CHECK(runs[0] <= 1 && !ended[0], "the cancelled body ran %d times, ended %d", runs[0], ended[0]);
        xs_obs("%d", runs[0]);
        break;
    }
    case 10:
    {
        body b(0, QUICK);
        b.run();
        xs_settle();
        b.cancel();
        b.join();
        joined(0);
        break;
    }
    case 11:
    {
        body b(0, STEPS);
        b.run();
        b.detach();
        xs_settle();
        XS_CHECK(runs[0] == 1 && ended[0], "the detached body ran %d times, ended %d", runs[0], ended[0]);
        XS_CHECK(b.wait_for(ms(0)), "the body ended before the wait, which did not report it");
        bool refused = false;
        try { b.join(); } catch (const std::system_error &) { refused = true; }
        (void)refused;
        break;
    }
    case 12:
    {
        body b(0, SLOW);
        b.run();
        b.detach();
        for (int i = 0; i < 4; ++i) if (b.wait_for(ms(20))) { XS_CHECK(ended[0], "the timed wait reported the end before the body ended"); }
        while (!b.wait_for(ms(1000))) {}
        XS_CHECK(ended[0] && runs[0] == 1, "the timed wait reported the end before the body ended");
        break;
    }
    case 13:
    {
        body a(0, STEPS), b(1, QUICK);
        a.run();
        b.run();
        b.join();
        joined(1);
        a.join();
        joined(0);
        break;
    }
    case 14: case 15: case 16: case 17:
    {
        int n = s - 14;
        thread_pool<no_args> p(n);
        XS_CHECK(p.size() == n && no_args::made == n, "pool of %d has %d threads, %d were constructed", n, p.size(), no_args::made);
        for (int i = 0; i < n; ++i) XS_CHECK(runs[i] == 0, "a thread ran before the pool was run");
        p.run();
        p.join();
        XS_CHECK(p.size() == n && no_args::made == n, "the pool changed its threads");
        for (int i = 0; i < n; ++i) { joined(i); XS_CHECK(p[i].id == i, "thread %d is number %d", i, p[i].id); }
        break;
    }
    case 18: case 19:
    {
        int n = s - 16;
        thread_pool<body, kind> p(n, SLEEPY);
        p.run();
        if (s == 18 || xs_choose(2, 0)) xs_settle();
        p.cancel();
        p.join();
        for (int i = 0; i < n; ++i) XS_CHECK(runs[i] <= 1 && !ended[i], "the cancelled body %d ran %d times", i, runs[i]);
        break;
    }
    case 20:
    {
        int x = 5;
        std::string by = "a string that is too long for the small string buffer";
        auto sp = std::make_shared<int>(7);
        {
            thread_pool<by_args, std::string, int, const int &, std::shared_ptr<int>, std::string> p(3, std::string(by), 3, x, std::shared_ptr<int>(sp), std::string(by));
            for (int i = 0; i < 3; ++i)
                XS_CHECK(p[i].s == by && p[i].n == 3 && p[i].ref == &x && p[i].p == sp && p[i].moved == by,
                    "thread %d was constructed from different arguments", i);
            p.run();
            p.join();
        }
        {
            thread_pool<by_args, std::string &, int, int &, std::shared_ptr<int> &, std::string> p(2, by, 3, x, sp, "text that is too long for the small string buffer");
            for (int i = 0; i < 2; ++i)
                XS_CHECK(p[i].s == by && p[i].n == 3 && p[i].ref == &x && p[i].p == sp && p[i].moved == "text that is too long for the small string buffer",
                    "thread %d was constructed from different arguments", i);
            XS_CHECK(!by.empty() && sp, "an argument passed by reference was moved from");
        }
        thread_pool<by_move, std::unique_ptr<int>> p(1, std::make_unique<int>(9));
        XS_CHECK(p[0].p && *p[0].p == 9, "a move-only argument was lost");
        break;
    }
    case 21:
    {
        xs_env(env);
        body b(0, QUICK);
        fail_threads = 1;
        bool raised = false;
        try { b.run(); } catch (const std::system_error &) { raised = true; }
        fail_threads = 0;
        XS_CHECK(raised, "a failing thread creation raised no system error");
        XS_CHECK(!b.wait_for(ms(0)), "a thread that was never created is reported as ended");
        XS_CHECK(runs[0] == 0, "the body ran without a thread");
        b.run();
        b.join();
        joined(0);
        break;
    }
    case 22:
    {
        body b(0, SLOW);
        b.run();
        bool r[4];
        r[0] = b.wait_for(std::chrono::nanoseconds(1));
        if (r[0]) XS_CHECK(ended[0], "the timed wait reported the end before the body ended");
        r[1] = b.wait_for(std::chrono::microseconds(10));
        if (r[1]) XS_CHECK(ended[0], "the timed wait reported the end before the body ended");
        r[2] = b.wait_for(std::chrono::duration<double>(0.01));
        if (r[2]) XS_CHECK(ended[0], "the timed wait reported the end before the body ended");
        b.join();
        XS_CHECK(b.wait_for(std::chrono::minutes(1)), "a timed wait after join does not report the end");
        XS_CHECK(b.wait_for(ms(-5)), "a timed wait after join does not report the end");
        joined(0);
        break;
    }
    case 23:
    {
        thread_pool<body, kind> p(2, SLEEPY);
        p[0].k = QUICK;
        p.run();
        p[0].join();
        joined(0);
        p[1].cancel();
        p[1].join();
        XS_CHECK(runs[1] <= 1 && !ended[1], "the cancelled body ran %d times", runs[1]);
        break;
    }
    case 24:
    {
        thread_pool<no_args> p(2);
        thread_pool<no_args> q(std::move(p));
        XS_CHECK(q.size() == 2 && p.size() == 0, "the moved pool has %d threads, its source %d", q.size(), p.size());
        q.run();
        q.join();
        joined(0);
        joined(1);
        break;
    }
    case 25:
    {
        body b(0, QUICK);
        b.run();
        xs_settle();
        b.cancel();
        XS_CHECK(b.wait_for(ms(0)), "the body ended before the wait, which did not report it");
        b.join();
        joined(0);
        break;
    }
    case 26:
    {
        // false means that the whole time has gone by
        body b(0, SLEEPY);
        b.run();
        auto w = [&](int64_t ns, bool r)
        {
            static int64_t before;
            if (ns < 0) { before = xs_now(); return; }
            XS_CHECK(!r, "the timed wait reports the end of a body that sleeps");
            XS_CHECK(xs_now() - before >= ns, "a timed wait for %lld ns gave up after %lld ns", (long long)ns, (long long)(xs_now() - before));
        };
        w(-1, false); w(10000000, b.wait_for(ms(10)));
        w(-1, false); w(1500000000, b.wait_for(ms(1500)));
        w(-1, false); w(250000, b.wait_for(std::chrono::microseconds(250)));
        w(-1, false); w(500000000, b.wait_for(std::chrono::duration<double>(0.5)));
        w(-1, false); w(60000000000, b.wait_for(std::chrono::minutes(1)));
        b.cancel();
        b.join();
        break;
    }
    case 27:
    {
        thread_pool<stubborn, kind> p(3, SLEEPY);
        p.run();
        if (xs_choose(2, 0)) xs_settle();
        p.cancel();
        for (int i = 0; i < 3; ++i) XS_CHECK(stubborn::cancelled[i] == 1, "thread %d was cancelled %d times", i, stubborn::cancelled[i]);
        p.join();
        for (int i = 0; i < 3; ++i) XS_CHECK(runs[i] <= 1 && !ended[i], "the cancelled body %d ran %d times", i, runs[i]);
        break;
    }
    case 28:
    {
        thread_pool<body, kind> p(3, SLEEPY);
        p[0].k = QUICK;
        p.run();
        xs_settle();
        p.cancel();
        p.join();
        joined(0);
        for (int i = 1; i < 3; ++i) XS_CHECK(runs[i] == 1 && !ended[i], "the cancelled body %d ran %d times", i, runs[i]);
        break;
    }
    }
}
