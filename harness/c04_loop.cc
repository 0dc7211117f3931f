// C04: every short history of registrations, readiness changes and loop iterations on real descriptors,
// against a reference registration table (readiness comes from poll(2)).
#include "seq.h"
#include "cppev/event_loop.h"
#include "cppev/nio.h"
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <system_error>
#include <vector>
using namespace cppev;

static const char *names[] = {"two pipes", "one pipe, longer histories", "socket with readable and writable handlers",
    "handlers that remove, clean, replace, drain or throw during the iteration", "peers that hang up or break, every activation",
    "two handlers' objects share nothing: many descriptors at once", "write end of a pipe", "two sockets", "every mix of two sockets' masks and states"};
int seq_nscenarios() { return 9; }
const char *seq_scenario_name(int i) { return names[i]; }

namespace
{
enum { R = 1, W = 2 };
fd_event ev(int m) { return static_cast<fd_event>(m); }
struct reg { int id, fd, mask, prio; bool live; };
struct dev
{
    std::shared_ptr<nstream> io;
    std::shared_ptr<nio> as_nio;
    int peer = -1;
    int active = 0;     // activated mask, 0: not activated
};
struct thrown {};
struct world
{
    std::unique_ptr<event_loop> loop;
    std::vector<dev> d;
    std::vector<reg> regs;
    // current iteration
    bool iterating = false, open_end = false;
    std::vector<int> due, called, optional;
    int acting = 0;     // handlers may act
    int acts = 0;
};
world *w;

bool in(const std::vector<int> &v, int x) { for (int y : v) if (x == y) return true; return false; }
int ready_mask(dev &x)
{
    pollfd p{x.io->fd(), 0, 0};
    if (x.active & R) p.events |= POLLIN;
    if (x.active & W) p.events |= POLLOUT;
    if (poll(&p, 1, 0) < 0) abort();
    int m = 0;
    if (p.revents & (POLLHUP | POLLERR)) m = x.active;
    if (p.revents & POLLIN) m |= R;
    if (p.revents & POLLOUT) m |= W;
    return m & x.active;
}
void act(int id);
void on_call(int id, const std::shared_ptr<nio> &io)
{
    SEQ_CHECK(id < (int)w->regs.size(), "the handler of a refused registration was called");
    reg &r = w->regs[id];
    dev &x = w->d[r.fd];
    seq::log("  handler %d called", id);
    SEQ_CHECK(w->iterating, "handler %d was called outside an iteration", id);
    SEQ_CHECK(r.live, "handler %d was called after it had been cleaned out", id);
    SEQ_CHECK(io == x.as_nio, "handler %d was called with another object than the registered one", id);
    SEQ_CHECK(!in(w->called, id), "handler %d was called twice in one iteration", id);
    if (!in(w->optional, id))
    {
        SEQ_CHECK(in(w->due, id), "handler %d was called although its descriptor was not activated or not ready for it", id);
        for (int o : w->due)
            if (!in(w->called, o) && !in(w->optional, o) && w->regs[o].live)
                SEQ_CHECK(w->regs[o].prio >= r.prio, "handler %d (priority p%d) was called before handler %d (priority p%d)", id, r.prio, o, w->regs[o].prio);
    }
    w->called.push_back(id);
    if (w->acting) act(id);
}
static const priority prios[] = {p0, p1, p2, p3, p4, p5, p6};
void do_register(int f, int mask, bool handler, bool activate, int prio)
{
    dev &x = w->d[f];
    int id = w->regs.size();
    seq::log("register %d: descriptor %d, mask %d, %s, %s, p%d", handler ? id : -1, f, mask, handler ? "handler" : "no handler", activate ? "activated" : "inactive", prio);
    fd_event_handler h;
    if (handler) h = [id](const std::shared_ptr<nio> &io) { on_call(id, io); };
    bool refused = false;
    try { w->loop->fd_register(x.as_nio, ev(mask), h, activate, prios[prio]); }
    catch (const std::system_error &) { refused = true; }
    SEQ_CHECK(refused == (activate && x.active), "registration of a descriptor that was %sactivated before was %s", x.active ? "" : "not ", refused ? "refused" : "accepted");
    if (refused) return;
    if (handler)
    {
        w->regs.push_back(reg{id, f, mask, prio, true});
        if (w->iterating) w->optional.push_back(id);
    }
    if (activate) x.active = mask;
}
void do_remove(int f, bool clean, bool deactivate)
{
    dev &x = w->d[f];
    seq::log("remove descriptor %d%s%s", f, clean ? ", clean" : "", deactivate ? ", deactivate" : "");
    w->loop->fd_remove(x.as_nio, clean, deactivate);
    for (auto &r : w->regs)
    {
        if (r.fd != f) continue;
        if (clean) r.live = false;
        else if (deactivate && w->iterating && !in(w->called, r.id)) w->optional.push_back(r.id);
    }
    if (deactivate) x.active = 0;
}
void iterate(bool wait = false)
{
    w->due.clear(); w->called.clear(); w->optional.clear();
    uint64_t h = 7;
    int total = 0;
    for (size_t f = 0; f < w->d.size(); ++f)
    {
        int m = ready_mask(w->d[f]);
        total |= m;
        h = h * 31 + m * 4 + w->d[f].active;
        for (auto &r : w->regs)
        {
            if (r.fd == (int)f && r.live && (r.mask & m)) w->due.push_back(r.id);
            if (r.fd == (int)f && r.live) h = h * 31 + r.mask * 8 + r.prio;
        }
    }
    seq::state(h);
    w->iterating = true;
    bool broke = false;
    seq::log("iteration, %zu handler(s) due", w->due.size());
    try { w->loop->loop_once(total && wait ? -1 : 0); }
    catch (const thrown &) { broke = true; }
    w->iterating = false;
    if (!broke)
        for (int id : w->due)
            SEQ_CHECK(in(w->called, id) || in(w->optional, id) || !w->regs[id].live, "handler %d was not called although its descriptor is activated and ready", id);
}
void add_pipe(bool write_end = false)
{
    int p[2];
    if (pipe(p)) abort();
    dev x;
    x.io = std::make_shared<nstream>(p[write_end ? 1 : 0]);
    x.as_nio = x.io;
    x.peer = p[write_end ? 0 : 1];
    w->d.push_back(x);
}
void add_socket()
{
    int p[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort();
    dev x;
    x.io = std::make_shared<nstream>(p[0]);
    x.as_nio = x.io;
    x.peer = p[1];
    w->d.push_back(x);
}
void feed(int f) { if (w->d[f].peer >= 0 && write(w->d[f].peer, "x", 1) != 1) abort(); }
void drain(int f) { char b[4096]; while (read(w->d[f].io->fd(), b, sizeof b) > 0) {} }
void hangup(int f) { if (w->d[f].peer >= 0) { close(w->d[f].peer); w->d[f].peer = -1; } }

// one operation on descriptor f; false: nothing new
bool pipe_op(int f, int nprio)
{
    dev &x = w->d[f];
    int op = seq::choose(2 * nprio + 7);
    if (op < 2 * nprio) { do_register(f, R, true, op & 1, op / 2); return true; }
    switch (op - 2 * nprio)
    {
    case 0: do_register(f, R, false, true, 0); return true;
    case 1: if (!x.active) return false; do_remove(f, true, true); return true;
    case 2: if (!x.active) return false; do_remove(f, false, true); return true;
    case 3: do_remove(f, true, false); return true;
    case 4: if (x.peer < 0) return false; seq::log("write to %d", f); feed(f); return true;
    case 5: seq::log("drain %d", f); drain(f); return true;
    case 6: if (x.peer < 0) return false; seq::log("hang up %d", f); hangup(f); return true;
    }
    return false;
}
void pipes(int n, int depth)
{
    for (int i = 0; i < n; ++i) add_pipe();
    for (int k = 0; k < depth; ++k)
    {
        int f = n == 1 ? 0 : seq::choose(n);
        if (!pipe_op(f, 2)) return;
        iterate(k & 1);
    }
    iterate();
}
void sockets(int depth)
{
    add_socket();
    dev &x = w->d[0];
    for (int k = 0; k < depth; ++k)
    {
        int op = seq::choose(17);
        if (op < 6) do_register(0, 1 + op % 3, true, op / 3, (op + k) % 3);
        else if (op < 9) do_register(0, op - 5, false, true, 0);
        else switch (op)
        {
        case 9: if (!x.active) return; do_remove(0, true, true); break;
        case 10: if (!x.active) return; do_remove(0, false, true); break;
        case 11: do_remove(0, true, false); break;
        case 12: if (x.peer < 0) return; seq::log("data"); feed(0); break;
        case 13: seq::log("drain"); drain(0); break;
        case 14: if (x.peer < 0) return; seq::log("hang up"); hangup(0); break;
        case 15:
        {
            if (x.peer < 0) return;
            seq::log("fill");
            static char big[65536];
            while (write(x.io->fd(), big, sizeof big) > 0) {}
            break;
        }
        case 16:
        {
            if (x.peer < 0) return;
            seq::log("peer reads all");
            static char big[65536];
            while (recv(x.peer, big, sizeof big, MSG_DONTWAIT) > 0) {}
            break;
        }
        }
        iterate(k & 1);
    }
    iterate();
}
// two sockets, both directions of each
void two_sockets(int depth)
{
    add_socket();
    add_socket();
    static const int starts[] = {R, W, R | W};
    for (int f = 0; f < 2; ++f)
    {
        do_register(f, R, true, false, 1 + f);
        do_register(f, W, true, false, 3 - f);
        do_register(f, starts[seq::choose(3)], false, true, 0);
    }
    for (int k = 0; k < depth; ++k)
    {
        int f = seq::choose(2);
        dev &x = w->d[f];
        switch (seq::choose(10))
        {
        case 0: if (x.peer < 0) return; seq::log("data to %d", f); feed(f); break;
        case 1: seq::log("drain %d", f); drain(f); break;
        case 2: if (x.peer < 0) return; seq::log("hang up %d", f); hangup(f); break;
        case 3: if (!x.active) return; do_remove(f, false, true); break;
        case 4: if (x.active) return; do_register(f, R, false, true, 0); break;
        case 5: if (x.active) return; do_register(f, W, false, true, 0); break;
        case 6: if (x.active) return; do_register(f, R | W, false, true, 0); break;
        case 7: do_remove(f, true, false); break;
        case 8: do_register(f, R | W, true, false, 5); break;
        case 9:
        {
            if (x.peer < 0) return;
            seq::log("fill %d", f);
            static char big[65536];
            while (write(x.io->fd(), big, sizeof big) > 0) {}
            break;
        }
        }
        iterate(k & 1);
    }
    iterate();
}
void mixes()
{
    for (int f = 0; f < 2; ++f)
    {
        add_socket();
        for (int m = 1; m <= 3; ++m) if (seq::choose(2)) do_register(f, m, true, false, f == 0 ? m - 1 : 7 - m - 1);
        int am = seq::choose(4);
        if (am) do_register(f, am, false, true, 0);
        if (seq::choose(2)) feed(f);
        if (seq::choose(2)) { static char big[65536]; while (write(w->d[f].io->fd(), big, sizeof big) > 0) {} }
        if (seq::choose(2)) hangup(f);
    }
    iterate(true);
    for (int f = 0; f < 2; ++f) drain(f);
    iterate();
}
void act(int id)
{
    if (w->acts >= w->acting) return;
    int f = w->regs[id].fd, n = w->d.size();
    int o = (f + 1) % n, q = (f + 2) % n;
    switch (seq::choose(11))
    {
    case 0: break;
    case 1: ++w->acts; if (w->d[f].active) do_remove(f, true, true); break;
    case 2: ++w->acts; if (w->d[o].active) do_remove(o, true, true); break;
    case 3: ++w->acts; if (w->d[q].active) do_remove(q, true, true); break;
    case 4: ++w->acts; if (w->d[f].active) do_remove(f, false, true); break;
    case 5: ++w->acts; if (w->d[o].active) do_remove(o, false, true); break;
    case 6: // replace the other's registration
        ++w->acts;
        if (w->d[o].active) do_remove(o, true, true);
        do_register(o, R, true, true, 6);
        break;
    case 7: // the other descriptor is closed, and its number is taken by a new object
    {
        ++w->acts;
        dev &x = w->d[o];
        if (x.active) do_remove(o, true, true);
        else do_remove(o, true, false);
        int num = x.io->fd();
        hangup(o);
        x.io->close();
        int p[2];
        if (pipe(p)) abort();
        if (p[0] != num) { if (p[1] == num) { int t = dup(p[1]); p[1] = t; } if (dup2(p[0], num) < 0) abort(); close(p[0]); }
        x.io = std::make_shared<nstream>(num);
        x.as_nio = x.io;
        x.peer = p[1];
        do_register(o, R, true, true, seq::choose(2) ? 6 : 0);
        break;
    }
    case 8: ++w->acts; seq::log("  drain the other"); drain(o); break;
    case 9: ++w->acts; seq::log("  throw"); throw thrown();
    case 10: // clean all handlers, stay activated
        ++w->acts; do_remove(o, true, false); break;
    }
}
void acting()
{
    for (int i = 0; i < 3; ++i) add_pipe();
    // distinct priorities in every order (among equals the order is unspecified)
    int pr[4], used = 0;
    for (int i = 0; i < 4; ++i)
    {
        int k = seq::choose(4 - i), v = 0;
        while ((used >> v & 1) || k--) ++v;
        used |= 1 << v;
        pr[i] = 1 + v;
    }
    for (int i = 0; i < 3; ++i)
    {
        do_register(i, R, true, true, pr[i]);
        if (i == 0) do_register(0, R, true, false, pr[3]);
        feed(i);
    }
    w->acting = seq::bound(2, 3);
    iterate();
    w->acting = 0;
    for (int i = 0; i < 3; ++i) if (w->d[i].peer >= 0 && seq::choose(2)) feed(i);
    iterate();
    for (int i = 0; i < 3; ++i) if (!w->d[i].active) do_register(i, R, false, true, 0);
    iterate(true);
}
void broken()
{
    int kind = seq::choose(4);
    if (kind == 0) add_pipe(); else if (kind == 1) add_pipe(true); else add_socket();
    // handlers for any subset of masks, inactive; then one activation
    int set = seq::choose(8);
    for (int m = 1; m <= 3; ++m) if (set & (1 << (m - 1))) do_register(0, m, true, false, m);
    int am = kind == 0 ? R : kind == 1 ? W : 1 + seq::choose(3);
    bool data = kind != 1 && seq::choose(2);
    if (data) feed(0);
    if (kind == 3 && seq::choose(2))
    {
        // a reset instead of an orderly end: unread data at the peer
        if (write(w->d[0].io->fd(), "y", 1) != 1) abort();
    }
    int when = seq::choose(3);
    if (when == 0) hangup(0);
    do_register(0, am, false, true, 0);
    iterate();
    if (when == 1) hangup(0);
    iterate();
    do_remove(0, false, true);
    if (when == 2) hangup(0);
    iterate();
    int am2 = kind == 0 ? R : kind == 1 ? W : 1 + seq::choose(3);
    do_register(0, am2, false, true, 0);
    iterate(true);
    drain(0);
    iterate();
}
void many()
{
    int n = seq::choose(2) ? 40 : 12;
    int pat = seq::choose(8);
    for (int i = 0; i < n; ++i)
    {
        add_pipe();
        do_register(i, R, true, !(pat & 1) || i % 3, (i * 5) % 7);
        if (!(pat & 2) || i % 4) feed(i);
        if ((pat & 4) && i % 5 == 0) do_register(i, R, true, false, (i * 3) % 7);
    }
    iterate(true);
    iterate();
    for (int i = 0; i < n; i += 2) if (w->d[i].active) do_remove(i, i % 4, true);
    iterate();
    for (int i = 0; i < n; i += 2) if (!w->d[i].active) do_register(i, R, false, true, 0);
    iterate();
}
void write_end(int depth)
{
    add_pipe(true);
    dev &x = w->d[0];
    for (int k = 0; k < depth; ++k)
    {
        switch (seq::choose(9))
        {
        case 0: do_register(0, W, true, true, 0); break;
        case 1: do_register(0, W, true, false, 1); break;
        case 2: do_register(0, W, false, true, 0); break;
        case 3: if (!x.active) return; do_remove(0, true, true); break;
        case 4: if (!x.active) return; do_remove(0, false, true); break;
        case 5: do_remove(0, true, false); break;
        case 6: { static char big[65536]; seq::log("fill"); if (x.peer < 0) return; while (write(x.io->fd(), big, sizeof big) > 0) {} break; }
        case 7: { static char big[1 << 20]; if (x.peer < 0) return; seq::log("peer reads"); int n = 0; ioctl(x.peer, FIONREAD, &n); if (!n) return; if (read(x.peer, big, sizeof big) < 0) abort(); break; }
        case 8: if (x.peer < 0) return; seq::log("peer closes"); hangup(0); break;
        }
        iterate(k & 1);
    }
}
}
void seq_run(int sc)
{
    signal(SIGPIPE, SIG_IGN);
    struct guard
    {
        world me;
        guard() { w = &me; me.loop.reset(new event_loop()); }
        ~guard() { for (auto &x : me.d) if (x.peer >= 0) close(x.peer); }
    } g;
    switch (sc)
    {
    case 0: pipes(2, seq::bound(4, 5)); break;
    case 1: pipes(1, seq::bound(5, 6)); break;
    case 2: sockets(seq::bound(4, 5)); break;
    case 3: acting(); break;
    case 4: broken(); break;
    case 5: many(); break;
    case 6: write_end(seq::bound(5, 6)); break;
    case 7: two_sockets(seq::bound(4, 5)); break;
    case 8: mixes(); break;
    }
}
