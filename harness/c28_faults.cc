// C28: a failing accept, connect, read or write costs at most the connection it belongs to.
#define CLIENT
#include "reactor.h"

enum kind { ACCEPTS, FULL, READS, WRITES, FLOODS, BOTH, SOCKETS, CONNECTS, INVALID, CREADS, CWRITES, BACKLOG, PIPES, ENDLESS, LATEFAIL, WAITS };
enum badreq { BAD_IP, BAD_IP6, EMPTY_IP, LONG_PATH, EMPTY_PATH, WRONG_FAMILY };
struct scenario { const char *name; bool client; kind k; int workers, peers; int bad; int bound, deep; };
static const scenario all[] = {
    {"accept fails, one peer", false, ACCEPTS, 1, 1, 0, 3, 4},
    {"accept fails, two peers", false, ACCEPTS, 1, 2, 0, 2, 3},
    {"accept fails again and again", false, ENDLESS, 1, 1, 0, 3, 4},
    {"no descriptor is left until a peer goes", false, FULL, 1, 2, 0, 2, 3},
    {"reads fail, one peer", false, READS, 1, 1, 0, 3, 4},
    {"reads fail, two peers", false, READS, 1, 2, 0, 2, 3},
    {"reads fail, two workers", false, READS, 2, 2, 0, 2, 3},
    {"writes fail, one peer", false, WRITES, 1, 1, 0, 3, 4},
    {"writes fail, two peers", false, WRITES, 1, 2, 0, 2, 3},
    {"writes of a lot fail", false, FLOODS, 1, 1, 0, 2, 3},
    {"writes of a lot fail, two peers", false, FLOODS, 1, 2, 0, 1, 2},
    {"reads, writes and accepts fail, two peers", false, BOTH, 1, 2, 0, 2, 3},
    {"client: no socket", true, SOCKETS, 1, 2, 0, 3, 4},
    {"client: connect fails", true, CONNECTS, 1, 2, 0, 3, 4},
    {"client: connect fails, two workers", true, CONNECTS, 2, 2, 0, 3, 4},
    {"client: invalid IPv4 address", true, INVALID, 1, 1, BAD_IP, 3, 4},
    {"client: invalid IPv6 address", true, INVALID, 1, 1, BAD_IP6, 3, 4},
    {"client: empty address", true, INVALID, 1, 1, EMPTY_IP, 3, 4},
    {"client: path too long", true, INVALID, 1, 1, LONG_PATH, 3, 4},
    {"client: empty path", true, INVALID, 1, 1, EMPTY_PATH, 3, 4},
    {"client: address of another family", true, INVALID, 1, 1, WRONG_FAMILY, 3, 4},
    {"client: reads fail", true, CREADS, 1, 2, 0, 3, 4},
    {"client: writes fail", true, CWRITES, 1, 2, 0, 3, 4},
    {"client: reads of the request pipe are interrupted", true, PIPES, 1, 2, 0, 3, 4},
    {"client: connections fail late", true, LATEFAIL, 1, 1, 0, 3, 4},
    {"client: connections fail late, two workers", true, LATEFAIL, 2, 1, 0, 2, 3},
    {"client: a full backlog", true, BACKLOG, 1, 2, 0, 3, 4},
    {"waits for events are interrupted", false, WAITS, 1, 1, 0, 3, 4},
    {"waits for events are interrupted, two workers", false, WAITS, 2, 2, 0, 1, 2},
    {"client: waits for events are interrupted", true, WAITS, 1, 2, 0, 2, 3},
};
int xs_nscenarios(void) { return sizeof all / sizeof *all; }
const char *xs_scenario_name(int i) { return all[i].name; }
int xs_bound(int i, int deep) { return deep ? all[i].deep : all[i].bound; }

namespace
{
const scenario *S;
thread_local bool is_peer;
bool armed;
int broken, refused;                  // connections hit by an error; attempts that failed
struct hit_t { int fd; const void *p; };
vector<const void *> hit;             // connections that were hit
const int accept_errs[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM, ECONNABORTED, EPROTO, EINTR, ENETDOWN, ENETUNREACH, EHOSTUNREACH, EPERM, EOPNOTSUPP, ETIMEDOUT};
const int read_errs[] = {ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, EIO, ENOMEM, EINTR, ECONNABORTED, ENOTCONN, EPIPE};
const int write_errs[] = {EPIPE, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, EIO, EINTR, ECONNABORTED, ENETDOWN, EACCES};
const int connect_errs[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH, EADDRNOTAVAIL, EACCES, EPERM, EAGAIN, ENOENT, ENOBUFS, ECONNRESET};
const int socket_errs[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM, EACCES, EAFNOSUPPORT};
int served_now;                       // connections of the server that are open
int failing_accepts;
int64_t failing_since;
const void *conn_of(int fd)
{
    for (auto &c : conns) if (!c->over && c->fd == fd) return c->p;
    return nullptr;
}
int pick(const int *menu, int n) { int k = xs_choose(n + 1, 1); return k ? menu[k - 1] : 0; }
#define PICK(m) pick(m, sizeof m / sizeof *m)
void count_accept()
{
    if (failing_accepts == 0 || xs_now() - failing_since > 1000000) { failing_accepts = 0; failing_since = xs_now(); }
    if (++failing_accepts > 40) xs_fail("accept fails %d times within a millisecond: the acceptor spins", failing_accepts);
}
int env(int call, int fd, size_t len, long *ret, int *err, size_t *, const void *data)
{
    if (is_peer) return 0;
    int e = 0;
    kind k = S->k;
    if (call == XC_CONNECT)
    {
        if (virtual_connect(fd, (const struct sockaddr *)data, ret, err)) return 1;
        if (armed && k == CONNECTS) e = PICK(connect_errs);
        if (e) refused++;
    }
    else if (call == XC_ACCEPT)
    {
        if (k == FULL)
        {
            bool waiting = nready(fd, POLLIN);
            int open = 0;
            for (auto &c : conns) open += !c->over;
            // announced connections and those on their way to a worker
            if (waiting && served_now >= 1 && open >= 1) { count_accept(); e = EMFILE; }
            else if (waiting) served_now++;
        }
        else if (k == ENDLESS && armed)
        {
            static int left = -1;
            if (left < 0) { int c = xs_choose(4, 1); left = c == 0 ? 0 : c == 1 ? 60 : c == 2 ? 3 : 120; failing_since = xs_now(); }
            if (left && nready(fd, POLLIN)) { --left; count_accept(); e = left % 2 ? EMFILE : ENFILE; }
        }
        else if (armed && (k == ACCEPTS || k == BOTH)) e = PICK(accept_errs);
    }
    else if (call == XC_READ || call == XC_WRITE)
    {
        if (!armed) return 0;
        if (k == PIPES && len == 1 && !conn_of(fd)) { if (xs_choose(2, 1)) e = EINTR; }
        else if (const void *c = conn_of(fd))
        {
            if (call == XC_READ && (k == READS || k == CREADS || k == BOTH)) e = PICK(read_errs);
            if (call == XC_WRITE && (k == WRITES || k == CWRITES || k == FLOODS || k == BOTH)) e = PICK(write_errs);
            if (e && e != EINTR)
            {
                // from now on the connection is gone for both sides
                syscall(SYS_shutdown, fd, SHUT_RDWR);
                hit.push_back(c);
                broken++;
            }
        }
    }
    else if (call == XC_EPOLL_WAIT) { if (armed && k == WAITS && xs_choose(2, 1)) e = EINTR; }
    else if (call == XC_SOCKET && armed && k == SOCKETS) { e = PICK(socket_errs); if (e) refused++; }
    if (!e) return 0;
    *ret = -1;
    *err = e;
    return 1;
}
int failed_peers, served_peers;
void echo(const conn_ptr &i, conn &c) { if (i->rbuffer().size()) user_write(i, c, i->rbuffer().get_string(-1, false)); }
// a peer of the server: its message comes back, unless its connection was hit
bool ask_echo(const string &s)
{
    peer p;
    if (!p.dial()) xs_fail("a peer cannot connect: errno %d", errno);
    size_t want = S->k == FLOODS ? 9000 : s.size();
    p.send(s);
    p.recv(want);
    bool ok = p.got.size() == want && (S->k == FLOODS || p.got == s);
    quiet_t q;
    if (!ok && !p.eof && !p.reset) xs_fail("the echo is wrong");
    p.hang_up();
    return ok;
}
void run_peer(int k)
{
    is_peer = true;
    bool ok = ask_echo(k ? "xyz" : "abc");
    quiet_t q;
    (ok ? served_peers : failed_peers)++;
}
void check_ends(size_t n)
{
    quiet_t q;
    if (conns.size() != n) xs_fail("%zu connections were made, %zu were announced", n, conns.size());
    for (auto &c : conns)
    {
        if (c->depth) xs_fail("a callback of connection %d never returned", c->id);
        if (!c->told && !c->user_closed) xs_fail("connection %d is over, on-closed never ran", c->id);
    }
}
void server()
{
    string path = sock_path();
    if (S->k == FLOODS) do_accept = [](const conn_ptr &i, conn &) { small_buffer(i); };
    do_read = S->k == FLOODS ? action([](const conn_ptr &i, conn &c) { if (i->rbuffer().size()) user_write(i, c, string(9000, 'x')); }) : action(echo);
    do_closed = [](const conn_ptr &, conn &) { quiet_t q; served_now--; };
    {
        R::tcp_server srv(S->workers);
        srv.set_on_accept(cb_accept);
        srv.set_on_read_complete(cb_read);
        srv.set_on_write_complete(cb_written);
        srv.set_on_closed(cb_closed);
        srv.listen_unix(path, true);
        srv.run();
        {
            vector<std::thread> t;
            for (int k = 0; k < S->peers; ++k) t.emplace_back(run_peer, k);
            for (auto &x : t) x.join();
        }
        xs_settle();
        { quiet_t q; if (failed_peers > broken) xs_fail("%d connections failed, %d peers were not served", broken, failed_peers); }
        check_ends(S->peers);
        armed = false;
        // a later connection is served
        if (!ask_echo("later")) xs_fail("after the failure a new connection is not served");
        xs_settle();
        check_ends(S->peers + 1);
        srv.shutdown();
        shut = true;
    }
    quiet_t q;
    unlink(path.c_str());
}
bool over;
int lfd;
int incoming(void *) { return over || nready(lfd, POLLIN); }
// the far end of the client's connections: says hello, takes the answer, closes
void listener()
{
    is_peer = true;
    for (;;)
    {
        if (!incoming(nullptr)) xs_wait_until(incoming, nullptr, "the target waits for connections");
        if (over) return;
        peer p;
        p.fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
        if (p.fd < 0) xs_fail("accept");
        p.send("hello");
        p.recv(5);
        quiet_t q;
        bool ok = p.got == "hello";
        if (!ok && !p.eof && !p.reset) xs_fail("the answer is wrong");
        p.hang_up();
        (ok ? served_peers : failed_peers)++;
    }
}
void client()
{
    begun = "on-connect";
    do_read = echo;
    string path = sock_path(0);
    lfd = listen_at(0);
    if (S->k == BACKLOG) { quiet_t q; listen(lfd, 0); }
    vnet.reserve(16);
    {
        R::tcp_client cli(S->workers);
        cli.set_on_connect(cb_accept);
        cli.set_on_read_complete(cb_read);
        cli.set_on_write_complete(cb_written);
        cli.set_on_closed(cb_closed);
        cli.run();
        int want = S->peers;
        if (S->k == INVALID)
        {
            switch (S->bad)
            {
            case BAD_IP: cli.add("1.2.3.x", 1001, family::ipv4); break;
            case BAD_IP6: cli.add("1::2::3", 1001, family::ipv6, 2); break;
            case EMPTY_IP: cli.add("", 1001, family::ipv4); break;
            case WRONG_FAMILY: cli.add("::1", 1001, family::ipv4); break;
            case LONG_PATH: cli.add_unix(string(300, 'p')); break;
            case EMPTY_PATH: cli.add_unix(""); break;
            }
        }
        if (S->k == LATEFAIL) cli.add("127.0.0.1", LATE_REFUSED, family::ipv4, 1);
        std::thread t;
        if (S->k != BACKLOG) t = std::thread(listener);
        if (S->k == INVALID || S->k == BACKLOG) cli.add_unix(path, want);
        else for (int k = 0; k < want; ++k) cli.add_unix(path, 1);
        xs_settle();
        if (S->k == BACKLOG)
        {
            // what did not fit is a failed attempt
            quiet_t q;
            if (attempts[path] != want) xs_fail("%d connections were requested, %d attempted", want, attempts[path]);
            refused = want - (int)conns.size();
            t = std::thread(listener);
        }
        xs_settle();
        armed = false;
        { quiet_t q; if (served_peers + failed_peers != want - refused || failed_peers > broken) xs_fail("%d connections were requested, %d attempts failed, %d connections broke, %d were served", want, refused, broken, served_peers); }
        check_ends(want - refused);
        int before = served_peers;
        cli.add_unix(path, 1);
        xs_settle();
        { quiet_t q; if (served_peers != before + 1) xs_fail("after the failure a new request is not served"); }
        check_ends(want - refused + 1);
        over = true;
        t.join();
        cli.shutdown();
        shut = true;
    }
    quiet_t q;
    close(lfd);
    unlink(path.c_str());
}
}
void xs_scenario(int si)
{
    late_menu = true;
    S = &all[si];
    reactor_init();
    conns.clear();
    xs_norace(&armed, sizeof armed);
    xs_norace(&over, sizeof over);
    xs_norace(&served_peers, sizeof served_peers);
    xs_norace(&failed_peers, sizeof failed_peers);
    armed = true;
    xs_env(env);
    is_peer = true;                     // threads of the reactor have a flag of their own
    if (S->client) client(); else server();
    string o;
    for (auto &c : conns) { char b[64]; snprintf(b, sizeof b, "%d:%zu/%zu/%d%s ", c->id, c->in.size(), c->out.size(), c->completions, c->told ? "t" : ""); o += b; }
    xs_obs("%d %d %s", broken, refused, o.c_str());
}
