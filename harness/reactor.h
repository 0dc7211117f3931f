// Shared by the reactor harnesses: a monitor of the callbacks of every connection, and peers made of plain sockets.
#ifndef REACTOR_H
#define REACTOR_H
#include "xs.h"
#include "cppev/tcp.h"
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <system_error>
#include <thread>
#include <unistd.h>
#include <vector>
using cppev::family;
using cppev::nsocktcp;
using std::string;
using std::vector;
namespace R = cppev::reactor;
typedef std::shared_ptr<nsocktcp> conn_ptr;

struct quiet_t { quiet_t() { xs_enter_quiet(); } ~quiet_t() { xs_leave_quiet(); } };
// ---- what happened to each connection
struct conn
{
    const void *p;
    int id, fd, thread = -1, depth = 0;
    bool over = false;           // on-closed ran, or the user closed it
    bool told = false;           // on-closed ran
    bool user_closed = false;
    bool pending = false;        // an asynchronous write is not drained yet
    int in_write = 0, write_done = 0, completions = 0;
    string in, out;              // received, given to async_write
};
static vector<std::unique_ptr<conn>> conns;
static bool shut;                // shutdown has returned: no callback may run
static const char *begun = "on-accept";
static conn *live(const void *p)
{
    for (auto it = conns.rbegin(); it != conns.rend(); ++it) if ((*it)->p == p && !(*it)->over) return it->get();
    return nullptr;
}
static conn *any(const void *p)
{
    for (auto it = conns.rbegin(); it != conns.rend(); ++it) if ((*it)->p == p) return it->get();
    return nullptr;
}
typedef std::function<void(const conn_ptr &, conn &)> action;
static action do_accept, do_read, do_written, do_closed;
static void nothing(const conn_ptr &, conn &) {}
static void enter(conn *c, const char *what)
{
    if (shut) xs_fail("%s runs after shutdown has returned", what);
    if (c->thread < 0) c->thread = xs_tid();
    if (c->thread != xs_tid()) xs_fail("%s of a connection runs on another thread than %s", what, begun);
    c->depth++;
}
static conn &begin_conn(const conn_ptr &i, const char *what)
{
    quiet_t q;
    if (shut) xs_fail("%s runs after shutdown has returned", what);
    if (conn *c = live(i.get())) xs_fail("%s runs again for connection %d, or the connection went away without on-closed", what, c->id);
    if (i->is_closed()) xs_fail("%s runs with a closed connection", what);
    conns.push_back(std::make_unique<conn>());
    conn *c = conns.back().get();
    c->p = i.get();
    c->fd = i->fd();
    c->id = (int)conns.size() - 1;
    enter(c, what);
    return *c;
}
static conn &the_conn(const conn_ptr &i, const char *what)
{
    quiet_t q;
    conn *c = live(i.get());
    if (!c)
    {
        conn *o = any(i.get());
        if (!o) xs_fail("%s runs before %s", what, begun);
        xs_fail("%s runs after %s", what, o->told ? "on-closed" : "the connection was closed by the user");
    }
    enter(c, what);
    return *c;
}
static void leave(conn &c) { quiet_t q; c.depth--; }
// ---- user-side calls
static void user_close(const conn_ptr &i, conn &c)
{
    { quiet_t q; c.over = c.user_closed = true; c.pending = false; }
    R::safely_close(i);
    if (!i->is_closed()) xs_fail("safely_close does not close");
}
static void user_write(const conn_ptr &i, conn &c, const string &s)
{
    { quiet_t q; i->wbuffer().put_string(s); c.out += s; c.in_write++; }
    int done = c.write_done;
    R::async_write(i);
    quiet_t q;
    c.in_write--;
    if (c.over || (c.in_write && c.write_done == done)) return;
    if (i->wbuffer().size() == 0 && c.write_done == done) xs_fail("an asynchronous write drained the buffer, but write-complete did not run");
    if (i->wbuffer().size() != 0) c.pending = true;
}
static void cb_accept(const conn_ptr &i) { conn &c = begin_conn(i, begun); do_accept(i, c); leave(c); }
static void cb_read(const conn_ptr &i)
{
    conn &c = the_conn(i, "on-read-complete");
    { quiet_t q; c.in.append(i->rbuffer().rawbuf(), i->rbuffer().size()); }
    do_read(i, c);
    leave(c);
}
static void cb_written(const conn_ptr &i)
{
    conn &c = the_conn(i, "on-write-complete");
    {
        quiet_t q;
        if (i->wbuffer().size()) xs_fail("write-complete runs although %d bytes are not written", i->wbuffer().size());
        if (!c.in_write && !c.pending) xs_fail("write-complete runs again without an asynchronous write");
        c.pending = false;
        c.write_done++;
        c.completions++;
    }
    do_written(i, c);
    leave(c);
}
static void cb_closed(const conn_ptr &i)
{
    conn &c = the_conn(i, "on-closed");
    { quiet_t q; c.told = true; }
    // the connection is over for the user as soon as on-closed begins; what on-closed itself does is its business
    { quiet_t q; c.over = true; c.pending = false; }
    do_closed(i, c);
    leave(c);
}
// what does not fit a small message is written partially
static void small_buffer(const conn_ptr &i) { quiet_t q; i->set_so_sndbuf(1); }
// ---- peers
static int nready(int fd, short ev) { struct pollfd f = {fd, ev, 0}; return (int)syscall(SYS_poll, &f, 1, 0) > 0; }
struct want_t { int fd; short ev; };
static int want_ready(void *p) { want_t *w = (want_t *)p; return nready(w->fd, w->ev); }
static string sock_path(int k = 0)
{
    quiet_t q;
    return "sock." + std::to_string(k);           // every execution has a directory of its own
}
struct peer
{
    int fd = -1;
    string got;
    bool eof = false, reset = false;
    bool dial(int k = 0)
    {
        struct sockaddr_un a;
        string path = sock_path(k);
        {
            quiet_t q;
            memset(&a, 0, sizeof a);
            a.sun_family = AF_UNIX;
            strcpy(a.sun_path, path.c_str());
            fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
        }
        return connect(fd, (struct sockaddr *)&a, sizeof a) == 0;
    }
    bool send(const string &s)          // as much as the other side takes, waiting for room
    {
        for (size_t at = 0; at < s.size(); )
        {
            want_t w = {fd, POLLOUT};
            if (!nready(fd, POLLOUT)) xs_wait_until(want_ready, &w, "the peer waits for room to send");
            ssize_t n = ::send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
            if (n < 0 && errno == EAGAIN) continue;
            if (n < 0) { reset = true; return false; }
            at += n;
        }
        return true;
    }
    bool recv_some(int max = 65536)
    {
        static thread_local char b[65536];
        want_t w = {fd, POLLIN};
        if (!nready(fd, POLLIN)) xs_wait_until(want_ready, &w, "the peer waits for data");
        ssize_t n;
        n = ::recv(fd, b, max, 0);
        quiet_t q;
        if (n > 0) { got.append(b, n); return true; }
        if (n == 0) eof = true;
        else reset = true;
        return false;
    }
    void recv(size_t total) { while (got.size() < total && recv_some()) {} }
    void recv_all() { while (recv_some()) {} }
    void done_sending() { ::shutdown(fd, SHUT_WR); }
    void hang_up() { ::close(fd); fd = -1; }
};
// ---- listeners and targets of a client
#ifdef CLIENT
#include <arpa/inet.h>
#include <netinet/in.h>
static int listen_at(int k)
{
    quiet_t q;
    struct sockaddr_un a;
    string path = sock_path(k);
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    strcpy(a.sun_path, path.c_str());
    unlink(path.c_str());
    int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    if (bind(fd, (struct sockaddr *)&a, sizeof a) || listen(fd, 16)) xs_fail("listener");
    return fd;
}
// A network in which TCP connections are socket pairs. The port tells how an attempt ends.
enum { GOOD = 1000, LATE_GOOD = 2000, REFUSED = 3000, LATE_REFUSED = 4000 };
static std::map<string, int> attempts;          // by "ip port" or path
struct vlink { int fd, client; string name; bool filled; };
static vector<vlink> vnet;                       // the other ends of established connections
static int so_error[1024];
static const int late_errs[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET, EACCES};
static bool late_menu;                           // how a connection fails late is a choice; otherwise one way after the other
static unsigned late_no;
static string target_name(const struct sockaddr *a)
{
    char b[128] = "";
    if (a->sa_family == AF_UNIX) return ((const struct sockaddr_un *)a)->sun_path;
    int port;
    if (a->sa_family == AF_INET) { auto *x = (const struct sockaddr_in *)a; inet_ntop(AF_INET, &x->sin_addr, b, sizeof b); port = ntohs(x->sin_port); }
    else { auto *x = (const struct sockaddr_in6 *)a; inet_ntop(AF_INET6, &x->sin6_addr, b, sizeof b); port = ntohs(x->sin6_port); }
    return string(b) + " " + std::to_string(port);
}
static int port_of(const struct sockaddr *a) { return ntohs(a->sa_family == AF_INET ? ((const struct sockaddr_in *)a)->sin_port : ((const struct sockaddr_in6 *)a)->sin6_port); }
static int virtual_connect(int fd, const struct sockaddr *a, long *ret, int *err)
{
    quiet_t q;
    string name = target_name(a);
    attempts[name]++;
    if (a->sa_family == AF_UNIX) return 0;
    int kind = port_of(a) / 1000 * 1000, sp[2];
    *ret = -1;
    if (kind == REFUSED) { *err = ECONNREFUSED; return 1; }
    if (syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sp)) abort();
    if (syscall(SYS_dup3, sp[0], fd, O_CLOEXEC) != fd) abort();
    syscall(SYS_close, sp[0]);
    if (kind == LATE_REFUSED) { syscall(SYS_close, sp[1]); so_error[fd] = late_errs[late_menu ? xs_choose(6, 0) : late_no++ % 6]; *err = EINPROGRESS; return 1; }
    vnet.push_back({sp[1], fd, name, kind == LATE_GOOD});
    if (kind == GOOD) { *ret = 0; return 1; }
    static char fill[4096];
    int one = 1;
    syscall(SYS_setsockopt, fd, SOL_SOCKET, SO_SNDBUF, &one, sizeof one);
    while (syscall(SYS_write, fd, fill, sizeof fill) > 0) {}
    *err = EINPROGRESS;
    return 1;
}
static int some_filled(void *) { for (auto &v : vnet) if (v.filled) return 1; return 0; }
static void complete_handshakes()               // the network thread: late connections get writable
{
    static char b[4096];
    for (size_t k = 0; k < vnet.size(); ++k)
    {
        int fd;
        { quiet_t q; if (!vnet[k].filled) continue; vnet[k].filled = false; fd = vnet[k].fd; }
        while (::read(fd, b, sizeof b) > 0) {}
    }
}
extern "C" int getsockopt(int fd, int level, int name, void *val, socklen_t *len) noexcept
{
    if (level == SOL_SOCKET && name == SO_ERROR && fd >= 0 && fd < 1024 && so_error[fd]) { *(int *)val = so_error[fd]; so_error[fd] = 0; return 0; }
    return (int)syscall(SYS_getsockopt, fd, level, name, val, len);
}
#endif
// ---- frame
static int open_count()
{
    int n = 0;
    for (int i = 0; i < 1024; ++i) n += syscall(SYS_fcntl, i, F_GETFD) >= 0;
    return n;
}
static void reactor_init()
{
#ifdef CLIENT
    late_no = 0;
    xs_norace(so_error, sizeof so_error);
#endif
    xs_quiet(&cppev::log::info, sizeof cppev::log::info);
    xs_quiet(&cppev::log::error, sizeof cppev::log::error);
    xs_quiet(&cppev::log::endl, sizeof cppev::log::endl);
    do_accept = do_read = do_written = do_closed = nothing;
}
static int no_conn_busy(void *) { return 1; }
#endif
