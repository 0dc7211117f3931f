// C05: an event loop that is fed and stopped from other threads, under all interleavings.
#include "xs.h"
#include "cppev/event_loop.h"
#include <errno.h>
#include <memory>
#include <string>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <vector>
using cppev::event_loop;
using cppev::fd_event;
using cppev::nio;
using cppev::nstream;
using cppev::priority;

static const char *names[] = {
    "stop before the loop starts", "stop while the loop starts or sleeps", "stop by two threads", "stop twice", "stop a loop with a time-out", "stop from inside a handler",
    "a ready pipe registered by another thread", "a pipe registered by another thread, data later", "two threads register a pipe each", "registered while a handler runs",
    "a handler registers one and removes itself", "registered and stopped at once", "load queried meanwhile", "interrupted waits", "two loops feed each other",
    "registered for writing", "registered without activation, activated by another thread", "stopped while a handler is always ready", "three pipes with priorities from two threads",
    "registered before the loop starts, stopped by a third thread", "loop run again and again with a time-out", "stopped by two loops' handlers",
};
int xs_nscenarios(void) { return sizeof names / sizeof *names; }
const char *xs_scenario_name(int i) { return names[i]; }
int xs_bound(int i, int deep)
{
    switch (i)
    {
    case 0: case 1: case 3: case 5: case 6: case 15: case 4: case 16: case 19: case 20: return deep ? 12 : 8;
    case 14: case 21: case 12: case 2: return deep ? 5 : 3;
    case 18: case 8: case 9: case 10: case 11: return deep ? 6 : 4;
    default: return deep ? 8 : 5;
    }
}
namespace
{
int owner[2];                       // thread of each loop
int served[8], order[32], norder;
bool entered[2], left[2];
std::unique_ptr<event_loop> L[2];
struct link_t { std::shared_ptr<nstream> r, w; } pipes[8];
int eintr;
int env(int call, int, size_t, long *ret, int *err, size_t *, const void *)
{
    if (call == XC_EPOLL_WAIT && eintr && xs_choose(2, 1)) { *ret = -1; *err = EINTR; return 1; }
    return 0;
}
void make(int k)
{
    auto p = cppev::nio_factory::get_pipes();
    pipes[k] = {p[0], p[1]};
}
void fill(int k) { if (write(pipes[k].w->fd(), "x", 1) != 1) xs_fail("write"); }
struct count_t { int k, n; };
int has(void *p) { count_t *c = (count_t *)p; return served[c->k] >= c->n; }
void await(int k, int n = 1)
{
    count_t c = {k, n};
    xs_wait_until(has, &c, "a ready registered descriptor is served");
}
int is_in(void *) { return entered[0]; }
void mine(int l, const std::shared_ptr<nio> &iop, int k)
{
    XS_CHECK(xs_tid() == owner[l], "an event of the loop is served by thread %d instead of %d", xs_tid(), owner[l]);
    XS_CHECK(iop.get() == pipes[k].r.get(), "the handler is called with another object");
    XS_CHECK(&iop->evlp() == L[l].get(), "the object names another loop");
    XS_CHECK(!left[l], "a handler runs although the loop returned");
    order[norder++] = k;
    served[k]++;
}
// read what is there
cppev::fd_event_handler reader(int k, int l = 0)
{
    return [k, l](const std::shared_ptr<nio> &iop)
    {
        char c;
        if (read(iop->fd(), &c, 1) != 1) xs_fail("the handler of pipe %d was called although nothing is there to read", k);
        mine(l, iop, k);
    };
}
void feed(int k, const cppev::fd_event_handler &h, int l = 0, priority p = priority::p0, fd_event e = fd_event::fd_readable)
{
    L[l]->fd_register(std::static_pointer_cast<nio>(pipes[k].r), e, h, true, p);
}
void looper(int l, int timeout)
{
    owner[l] = xs_tid();
    entered[l] = true;
    L[l]->loop_forever(timeout);
    left[l] = true;
}
std::thread start(int l = 0, int timeout = -1) { return std::thread(looper, l, timeout); }
void free_all()
{
    for (auto &p : pipes) p = link_t();
    L[0].reset(); L[1].reset();
}
}
void xs_scenario(int s)
{
    for (auto *p : {(void *)owner, (void *)served, (void *)order, (void *)&norder, (void *)entered, (void *)left}) xs_norace(p, sizeof order);
    xs_env(env);
    L[0] = std::make_unique<event_loop>();
    switch (s)
    {
    case 0: { L[0]->stop_loop_forever(); auto t = start(); t.join(); break; }
    case 1: { auto t = start(); L[0]->stop_loop_forever(); t.join(); break; }
    case 2: { auto t = start(); std::thread a([]() { L[0]->stop_loop_forever(); }); L[0]->stop_loop_forever(); t.join(); a.join(); break; }
    case 3: { auto t = start(); L[0]->stop_loop_forever(); L[0]->stop_loop_forever(); t.join(); break; }
    case 4: { auto t = start(0, 10); L[0]->stop_loop_forever(); t.join(); break; }
    case 5:
    {
        make(0); fill(0);
        feed(0, [](const std::shared_ptr<nio> &iop) { mine(0, iop, 0); L[0]->stop_loop_forever(); });
        auto t = start();
        t.join();
        break;
    }
    case 6:
    {
        make(0); fill(0);
        auto t = start();
        feed(0, reader(0));
        await(0);
        L[0]->stop_loop_forever();
        t.join();
        XS_CHECK(served[0] == 1, "served %d times", served[0]);
        break;
    }
    case 7:
    {
        make(0);
        auto t = start();
        std::thread a([]() { fill(0); });
        feed(0, reader(0));
        await(0);
        fill(0);
        await(0, 2);
        L[0]->stop_loop_forever();
        t.join(); a.join();
        XS_CHECK(served[0] == 2, "served %d times", served[0]);
        break;
    }
    case 8:
    {
        make(0); make(1); fill(0); fill(1);
        auto t = start();
        std::thread a([]() { feed(1, reader(1)); });
        feed(0, reader(0));
        await(0); await(1);
        a.join();
        L[0]->stop_loop_forever();
        t.join();
        XS_CHECK(served[0] == 1 && served[1] == 1, "served %d and %d times", served[0], served[1]);
        break;
    }
    case 9:
    {
        make(0); make(1); fill(0); fill(0); fill(1);
        feed(0, reader(0));
        auto t = start();
        feed(1, reader(1));
        await(1); await(0, 2);
        L[0]->stop_loop_forever();
        t.join();
        XS_CHECK(served[0] == 2 && served[1] == 1, "served %d and %d times", served[0], served[1]);
        break;
    }
    case 10:
    {
        make(0); make(1); make(2); fill(0); fill(1); fill(2);
        auto t = start();
        feed(0, [](const std::shared_ptr<nio> &iop) { mine(0, iop, 0); L[0]->fd_remove(iop); feed(1, reader(1)); });
        feed(2, reader(2));
        await(1); await(2);
        L[0]->stop_loop_forever();
        t.join();
        XS_CHECK(served[0] == 1 && served[1] == 1 && served[2] == 1, "served %d, %d and %d times", served[0], served[1], served[2]);
        break;
    }
    case 11:
    {
        make(0); fill(0);
        auto t = start();
        std::thread a([]() { feed(0, reader(0)); });
        L[0]->stop_loop_forever();
        t.join(); a.join();
        XS_CHECK(served[0] <= 1, "served %d times", served[0]);
        xs_obs("%d", served[0]);
        break;
    }
    case 12:
    {
        make(0); make(1); fill(0); fill(1);
        auto t = start();
        std::thread a([]()
        {
            int n = L[0]->ev_loads();
            XS_CHECK(n >= 0 && n <= 2, "load %d", n);
        });
        feed(0, [](const std::shared_ptr<nio> &iop) { mine(0, iop, 0); L[0]->fd_remove(iop); });
        feed(1, reader(1));
        await(0); await(1);
        a.join();
        L[0]->stop_loop_forever();
        t.join();
        XS_CHECK(served[0] == 1 && served[1] == 1, "served %d and %d times", served[0], served[1]);
        break;
    }
    case 13:
    {
        eintr = 1;
        make(0); fill(0);
        auto t = start();
        feed(0, reader(0));
        await(0);
        L[0]->stop_loop_forever();
        t.join();
        XS_CHECK(served[0] == 1, "served %d times", served[0]);
        break;
    }
    case 14:
    {
        L[1] = std::make_unique<event_loop>();
        make(0); make(1); make(2); fill(0); fill(1); fill(2);
        auto t = start(0), u = start(1);
        feed(0, [](const std::shared_ptr<nio> &iop) { mine(0, iop, 0); L[0]->fd_remove(iop); feed(1, reader(1, 1), 1); });
        feed(2, [](const std::shared_ptr<nio> &iop) { mine(1, iop, 2); L[1]->fd_remove(iop); L[0]->stop_loop_forever(); }, 1);
        await(2);
        t.join();
        if (served[0]) await(1);
        L[1]->stop_loop_forever();
        u.join();
        XS_CHECK(served[0] <= 1 && served[1] == served[0] && served[2] == 1, "served %d, %d and %d times", served[0], served[1], served[2]);
        break;
    }
    case 15:
    {
        make(0);
        auto t = start();
        std::swap(pipes[0].r, pipes[0].w);
        feed(0, [](const std::shared_ptr<nio> &iop) { mine(0, iop, 0); L[0]->fd_remove(iop); }, 0, priority::p0, fd_event::fd_writable);
        await(0);
        L[0]->stop_loop_forever();
        t.join();
        XS_CHECK(served[0] == 1, "served %d times", served[0]);
        break;
    }
    case 16:
    {
        make(0); fill(0);
        auto t = start();
        L[0]->fd_register(pipes[0].r, fd_event::fd_readable, reader(0), false);
        std::thread a([]() { L[0]->fd_register(pipes[0].r, fd_event::fd_readable); });
        await(0);
        L[0]->stop_loop_forever();
        t.join(); a.join();
        XS_CHECK(served[0] == 1, "served %d times", served[0]);
        break;
    }
    case 17:
    {
        make(0); fill(0);
        feed(0, [](const std::shared_ptr<nio> &iop) { served[0]++; std::this_thread::yield(); });
        auto t = start();
        L[0]->stop_loop_forever();
        t.join();
        break;
    }
    case 18:
    {
        for (int k = 0; k < 3; ++k) { make(k); fill(k); }
        auto t = start();
        std::thread a([]() { feed(1, reader(1), 0, priority::p4); feed(2, reader(2), 0, priority::p6); });
        feed(0, reader(0), 0, priority::p2);
        for (int k = 0; k < 3; ++k) await(k);
        a.join();
        L[0]->stop_loop_forever();
        t.join();
        for (int k = 0; k < 3; ++k) XS_CHECK(served[k] == 1, "pipe %d served %d times", k, served[k]);
        break;
    }
    case 19:
    {
        make(0); fill(0);
        feed(0, reader(0));
        std::thread a([]() { await(0); L[0]->stop_loop_forever(); });
        auto t = start();
        t.join(); a.join();
        XS_CHECK(served[0] == 1, "served %d times", served[0]);
        break;
    }
    case 20:
    {
        make(0); fill(0);
        std::thread t([]() { owner[0] = xs_tid(); for (int i = 0; i < 50 && !served[0]; ++i) L[0]->loop_once(1); });
        feed(0, reader(0));
        await(0);
        t.join();
        break;
    }
    case 21:
    {
        L[1] = std::make_unique<event_loop>();
        make(0); make(1); fill(0); fill(1);
        feed(0, [](const std::shared_ptr<nio> &iop) { mine(0, iop, 0); L[0]->fd_remove(iop); L[1]->stop_loop_forever(); });
        feed(1, [](const std::shared_ptr<nio> &iop) { mine(1, iop, 1); L[1]->fd_remove(iop); L[0]->stop_loop_forever(); }, 1);
        auto t = start(0), u = start(1);
        // whichever is stopped first may have served nothing: stop both again
        L[0]->stop_loop_forever();
        L[1]->stop_loop_forever();
        t.join(); u.join();
        break;
    }
    }
    for (int i = 0; i < norder; ++i) xs_obs("%d ", order[i]);
    free_all();
}
