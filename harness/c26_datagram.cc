// C26: every short sequence of datagram operations between two sockets, real and failing system calls.
#include "seq.h"
#include "cppev/nio.h"
#include "ports.h"
#include <deque>
#include <errno.h>
#include <arpa/inet.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <system_error>
using namespace cppev;
using std::string;

static const char *names[] = {"IPv4", "IPv6", "local sockets", "IPv4, default buffer size", "local sockets, default buffer size",
    "IPv6, default buffer size", "option of UDP sockets, bad addresses"};
int seq_nscenarios() { return 7; }
const char *seq_scenario_name(int i) { return names[i]; }

static int inject_err;    // next send/receive of the library fails with this
extern "C" {
ssize_t __real_recvfrom(int, void *, size_t, int, sockaddr *, socklen_t *); ssize_t __real_sendto(int, const void *, size_t, int, const sockaddr *, socklen_t);
ssize_t __real_recvmsg(int, msghdr *, int); ssize_t __real_sendmsg(int, const msghdr *, int);
static bool broken() { if (!inject_err) return false; errno = inject_err; if (inject_err == EINTR) inject_err = 0; return true; }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, sockaddr *a, socklen_t *l) { return broken() ? -1 : __real_recvfrom(fd, b, n, f, a, l); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const sockaddr *a, socklen_t l) { return broken() ? -1 : __real_sendto(fd, b, n, f, a, l); }
ssize_t __wrap_recvmsg(int fd, msghdr *m, int f) { return broken() ? -1 : __real_recvmsg(fd, m, f); }
ssize_t __wrap_sendmsg(int fd, const msghdr *m, int f) { return broken() ? -1 : __real_sendmsg(fd, m, f); }
}
namespace
{
struct end
{
    std::shared_ptr<nsockudp> s;
    string r, w;                                // model of the buffers
    std::deque<std::pair<int, string>> inbox;   // sender, bytes
    int port = 0;
    string path;
};
unsigned ctr;
string fresh(int n)
{
    string s;
    for (int i = 0; i < n; ++i) s += "x\0y\xffz\0"[ctr++ % 6];
    return s;
}
void scratch()
{
    static bool done;
    if (done) return;
    done = true;
    string d = "w" + std::to_string(getpid());
    if (mkdir(d.c_str(), 0700) || chdir(d.c_str())) abort();
}
int my_port[2];
int bound_port(int fd)
{
    sockaddr_storage a;
    socklen_t l = sizeof a;
    if (getsockname(fd, (sockaddr *)&a, &l)) abort();
    return ntohs(a.ss_family == AF_INET ? ((sockaddr_in *)&a)->sin_port : ((sockaddr_in6 *)&a)->sin6_port);
}
void check(end *e, const char *what)
{
    for (int i = 0; i < 2; ++i)
    {
        string r = e[i].s->rbuffer().get_string(-1, false), w = e[i].s->wbuffer().get_string(-1, false);
        SEQ_CHECK(r == e[i].r, "after %s: read buffer %d holds %s instead of %s", what, i, seq::show(r).c_str(), seq::show(e[i].r).c_str());
        SEQ_CHECK(w == e[i].w, "after %s: write buffer %d holds %s instead of %s", what, i, seq::show(w).c_str(), seq::show(e[i].w).c_str());
    }
    seq::state(seq::hash(e[0].r, seq::hash(e[0].w, seq::hash(e[1].r, seq::hash(e[1].w, e[0].inbox.size() * 17 + e[1].inbox.size())))));
}
const char *ip(family f) { return f == family::ipv4 ? "127.0.0.1" : "::1"; }

// returns 0 or the errno of the raised error
template <typename F> int attempt(F f)
{
    try { f(); return 0; }
    catch (const std::system_error &e) { return e.code().value() ? e.code().value() : -1; }
}
void run(family f, bool defsize)
{
    int unit = defsize ? 2048 : 16;
    sysconfig::udp_buffer_size = unit;
    end e[2];
    for (int i = 0; i < 2; ++i)
    {
        e[i].s = nio_factory::get_nsockudp(f);
        if (f == family::local)
        {
            e[i].path = i ? "udp.b" : "udp.a.with.a.longer.name";
            e[i].s->bind_unix(e[i].path, true);
        }
        else
        {
            if (!my_port[i]) my_port[i] = claim_port("..", SOCK_DGRAM);
            e[i].s->bind(ip(f), my_port[i]);
            e[i].port = bound_port(e[i].s->fd());
            SEQ_CHECK(e[i].port == my_port[i], "bound to port %d instead of %d", e[i].port, my_port[i]);
        }
    }
    if (f == family::local) ::unlink("udp.none");
    auto send = [&](int i, int to)
    {
        if (f == family::local)
        {
            string p = to < 0 ? "udp.none" : e[to].path;
            if (seq::choose(2)) e[i].s->send_unix(p); else e[i].s->send_unix(p.c_str());
        }
        else e[i].s->send(string(ip(f)), e[to].port);
    };
    int sizes[] = {0, 1, unit - 1, unit};
    int depth = defsize ? seq::bound(3, 4) : seq::bound(4, 5);
    for (int d = 0; d < depth; ++d)
    {
        int op = seq::choose(9);
        switch (op)
        {
        case 0:
        {
            // fill 0's write buffer up to the chosen datagram size
            int n = sizes[1 + seq::choose(3)];
            if ((int)e[0].w.size() >= n) return;
            string x = fresh(n - e[0].w.size());
            e[0].s->wbuffer().put_string(x);
            e[0].w += x;
            seq::log("0 writes up to %d bytes", n);
            break;
        }
        case 1: case 2:
        {
            int i = op - 1, to = 1 - i;
            if (i == 1) { string x = fresh(3); e[1].s->wbuffer().put_string(x); e[1].w += x; }
            else if (int k = seq::choose(3))
            {
                // as much as a datagram may hold, or one byte less
                int n = sizes[4 - k];
                if ((int)e[0].w.size() >= n) return;
                string x = fresh(n - e[0].w.size());
                e[0].s->wbuffer().put_string(x);
                e[0].w += x;
            }
            string msg = e[i].w;
            seq::log("%d sends %zu bytes", i, msg.size());
            // at most 10 datagrams fit the queue of a local socket
            int err = attempt([&] { send(i, to); });
            SEQ_CHECK(err == 0, "send of %zu bytes failed with %d", msg.size(), err);
            e[to].inbox.push_back({i, msg});
            e[i].w.clear();
            break;
        }
        case 3: case 4:
        {
            int i = op == 3 ? 1 : 0;
            std::tuple<string, int, family> from;
            if (e[i].inbox.size())
            {
                pollfd p = {e[i].s->fd(), POLLIN, 0};
                SEQ_CHECK(poll(&p, 1, 5000) == 1, "a datagram of %zu bytes was never transmitted", e[i].inbox.front().second.size());
            }
            int err = attempt([&] { from = e[i].s->recv(); });
            seq::log("%d receives: %d", i, err);
            if (e[i].inbox.empty())
            {
                SEQ_CHECK(err == EAGAIN, "receive without a datagram gives error %d", err);
                break;
            }
            SEQ_CHECK(err == 0, "receive of %zu bytes failed with %d", e[i].inbox.front().second.size(), err);
            auto m = e[i].inbox.front();
            e[i].inbox.pop_front();
            e[i].r += m.second;
            SEQ_CHECK(std::get<2>(from) == f, "sender of another family");
            if (f == family::local) SEQ_CHECK(std::get<0>(from) == e[i].path, "receive reports %s", std::get<0>(from).c_str());
            else SEQ_CHECK(std::get<0>(from) == ip(f) && std::get<1>(from) == e[m.first].port, "receive reports sender %s %d instead of %s %d",
                std::get<0>(from).c_str(), std::get<1>(from), ip(f), e[m.first].port);
            break;
        }
        case 5: // the reader takes some bytes
        {
            int n = seq::choose(2) ? e[1].s->rbuffer().size() : std::min(2, e[1].s->rbuffer().size());
            string got = e[1].s->rbuffer().get_string(n);
            SEQ_CHECK(got == e[1].r.substr(0, n), "reader gets %s", seq::show(got).c_str());
            e[1].r = e[1].r.substr(n);
            seq::log("1 takes %d bytes", n);
            break;
        }
        case 6: // failing send
        {
            static const int errs[] = {EAGAIN, ENETUNREACH, ECONNREFUSED, ENOBUFS};
            inject_err = errs[seq::choose(4)];
            int want = inject_err;
            int err = attempt([&] { send(0, 1); });
            inject_err = 0;
            seq::log("0 sends %zu bytes, fails with %d", e[0].w.size(), want);
            SEQ_CHECK(err == want, "failing send (error %d) raises %d", want, err);
            break;
        }
        case 7: // failing receive
        {
            static const int errs[] = {ECONNREFUSED, ENOMEM, EAGAIN};
            inject_err = errs[seq::choose(3)];
            int want = inject_err;
            int err = attempt([&] { e[1].s->recv(); });
            inject_err = 0;
            seq::log("1 receives, fails with %d", want);
            SEQ_CHECK(err == want, "failing receive (error %d) raises %d", want, err);
            break;
        }
        case 8:
            if (f == family::local)
            {
                // nobody there
                int err = attempt([&] { send(0, -1); });
                seq::log("0 sends to a missing path: %d", err);
                SEQ_CHECK(err == ENOENT, "send to a missing path gives %d", err);
            }
            else
            {
                // too long for a datagram: refused by the kernel, nothing lost
                if (d != depth - 1) return;
                string x = fresh(70000);
                e[0].s->wbuffer().put_string(x);
                e[0].w += x;
                int err = attempt([&] { send(0, 1); });
                SEQ_CHECK(err == EMSGSIZE, "a datagram of 70000 bytes gives %d", err);
            }
            break;
        }
        check(e, "operation");
    }
}
void options()
{
    family f = seq::choose(2) ? family::ipv4 : family::ipv6;
    auto s = nio_factory::get_nsockudp(f);
    s->wbuffer().put_string("data");
    switch (seq::choose(6))
    {
    case 0:
        SEQ_CHECK(!s->get_so_broadcast(), "broadcast on");
        s->set_so_broadcast();
        SEQ_CHECK(s->get_so_broadcast() && !s->get_so_reuseaddr() && !s->get_so_reuseport(), "broadcast not set alone");
        s->set_so_broadcast(false);
        SEQ_CHECK(!s->get_so_broadcast(), "broadcast still on");
        break;
    default:
    {
        static const char *bad[] = {"", "256.1.1.1", "localhost", "1.2.3", "::1::2"};
        string ipaddr = bad[seq::choose(5)];
        bool refused = false;
        try { s->send(ipaddr, 9); } catch (const std::exception &) { refused = true; }
        SEQ_CHECK(refused, "send to address %s not refused", ipaddr.c_str());
        SEQ_CHECK(s->wbuffer().get_string(-1, false) == "data", "a refused send changed the write buffer");
        break;
    }
    case 1:
    {
        static const int ports[] = {-1, 65536, 70000};
        int p = ports[seq::choose(3)];
        bool refused = false;
        try { s->send(string(ip(f)), p); } catch (const std::exception &) { refused = true; }
        SEQ_CHECK(refused, "send to port %d not refused", p);
        SEQ_CHECK(s->wbuffer().get_string(-1, false) == "data", "a refused send changed the write buffer");
        break;
    }
    case 2:
    {
        auto u = nio_factory::get_nsockudp(family::local);
        u->wbuffer().put_string("data");
        string p(seq::choose(2) ? 108 : 300, 'p');
        bool refused = false;
        try { u->send_unix(p); } catch (const std::exception &) { refused = true; }
        SEQ_CHECK(refused && u->wbuffer().get_string(-1, false) == "data", "send to a path that is too long not refused");
        refused = false;
        try { u->bind_unix(p); } catch (const std::exception &) { refused = true; }
        SEQ_CHECK(refused, "binding to a path that is too long not refused");
        break;
    }
    case 3:
    {
        // the longest path there is
        string p(107, 'q');
        auto u = nio_factory::get_nsockudp(family::local), v = nio_factory::get_nsockudp(family::local);
        u->bind_unix(p, true);
        for (int i = 0; i < 3; ++i) { v->wbuffer().put_string("data"); v->send_unix(p); }
        u->recv();
        SEQ_CHECK(u->rbuffer().get_string() == "data", "datagram to a long path lost");
        ::unlink(p.c_str());
        break;
    }
    }
}
}
void seq_run(int sc)
{
    scratch();
    signal(SIGPIPE, SIG_IGN);
    ctr = 0;
    inject_err = 0;
    switch (sc)
    {
    case 0: run(family::ipv4, false); break;
    case 1: run(family::ipv6, false); break;
    case 2: run(family::local, false); break;
    case 3: run(family::ipv4, true); break;
    case 4: run(family::local, true); break;
    case 5: run(family::ipv6, true); break;
    case 6: options(); break;
    }
}
