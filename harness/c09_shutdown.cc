// C09: shutting a server or a client down returns, ends its threads and is final; nothing stays open.
#define CLIENT
#include "reactor.h"

enum side_kind { SERVER, CLI, BOTH, NEVER_RUN };
enum peer_kind { IDLE, SENDS, SENDS_CLOSES, CLOSES, READS_FLOOD, UNREAD_FLOOD };
enum when_kind { ATONCE, LATER, BEFORE, DURING, THREAD, LATE };
enum { HOLD = 1, USER_CLOSE = 2, CLIENT_FIRST = 4, CLOSED_BY_TARGET = 8, REFUSED_TOO = 16, AGAIN = 32 };
struct scenario { const char *name; side_kind side; int workers, fronts; vector<peer_kind> peers; int n; when_kind when; int flags, bound, deep; };
static const scenario all[] = {
    {"server: at once", SERVER, 1, 1, {}, 0, ATONCE, 0, 6, 12},
    {"server: when it is idle", SERVER, 1, 1, {}, 0, LATER, 0, 6, 12},
    {"server: two workers, two acceptors", SERVER, 2, 2, {}, 0, ATONCE, 0, 2, 4},
    {"server: no acceptor", SERVER, 2, 0, {}, 0, ATONCE, 0, 5, 7},
    {"server: while a peer connects", SERVER, 1, 1, {IDLE}, 0, ATONCE, 0, 4, 6},
    {"server: while a peer sends", SERVER, 1, 1, {SENDS}, 0, ATONCE, 0, 3, 5},
    {"server: after a peer was served", SERVER, 1, 1, {SENDS}, 0, LATER, 0, 5, 7},
    {"server: while a peer sends and closes", SERVER, 1, 1, {SENDS_CLOSES}, 0, ATONCE, 0, 3, 4},
    {"server: while a peer closes", SERVER, 1, 1, {CLOSES}, 0, ATONCE, 0, 3, 5},
    {"server: while two peers connect and send", SERVER, 1, 1, {SENDS, CLOSES}, 0, ATONCE, 0, 2, 3},
    {"server: two workers, two peers", SERVER, 2, 1, {SENDS, IDLE}, 0, ATONCE, 0, 1, 2},
    {"server: two acceptors, two peers", SERVER, 1, 2, {SENDS, IDLE}, 0, ATONCE, 0, 1, 2},
    {"server: while a lot is written", SERVER, 1, 1, {READS_FLOOD}, 0, ATONCE, 0, 3, 4},
    {"server: a peer does not read", SERVER, 1, 1, {UNREAD_FLOOD}, 0, LATER, 0, 5, 7},
    {"server: the user holds a handle", SERVER, 1, 1, {SENDS}, 0, ATONCE, HOLD, 3, 4},
    {"server: the user holds handles of two peers", SERVER, 1, 1, {SENDS, IDLE}, 0, LATER, HOLD, 2, 4},
    {"server: the user closes while shutting down", SERVER, 1, 1, {SENDS}, 0, ATONCE, USER_CLOSE, 3, 4},
    {"server: the user closes and holds", SERVER, 1, 1, {SENDS_CLOSES}, 0, ATONCE, USER_CLOSE | HOLD, 3, 4},
    {"server: one after the other", SERVER, 1, 1, {SENDS}, 0, ATONCE, AGAIN, 1, 3},
    {"server: never run", NEVER_RUN, 2, 2, {IDLE}, 0, ATONCE, 0, 4, 6},
    {"client: at once", CLI, 1, 1, {}, 0, ATONCE, 0, 6, 12},
    {"client: two workers, two connectors", CLI, 2, 2, {}, 0, ATONCE, 0, 2, 3},
    {"client: connections requested before", CLI, 1, 1, {}, 2, BEFORE, 0, 3, 4},
    {"client: connections requested while it runs", CLI, 1, 1, {}, 1, DURING, 0, 3, 4},
    {"client: connections requested by another thread", CLI, 1, 1, {}, 2, THREAD, 0, 2, 4},
    {"client: connections requested by another thread, two connectors", CLI, 1, 2, {}, 2, THREAD, 0, 1, 2},
    {"client: when connected", CLI, 1, 1, {}, 2, LATER, 0, 3, 4},
    {"client: while targets close", CLI, 1, 1, {}, 2, DURING, CLOSED_BY_TARGET, 3, 4},
    {"client: while connections are under way", CLI, 1, 1, {}, 1, LATE, 0, 2, 4},
    {"client: while connections fail", CLI, 1, 1, {}, 1, DURING, REFUSED_TOO, 3, 4},
    {"client: the user holds a handle", CLI, 1, 1, {}, 1, DURING, HOLD, 3, 4},
    {"client: the user closes while shutting down", CLI, 1, 1, {}, 1, DURING, USER_CLOSE, 3, 4},
    {"client: two workers, two connections", CLI, 2, 1, {}, 2, DURING, 0, 2, 3},
    {"client and server, server first", BOTH, 1, 1, {}, 1, DURING, 0, 2, 3},
    {"client and server, client first", BOTH, 1, 1, {}, 1, DURING, CLIENT_FIRST, 2, 3},
    {"client and server when idle, server first", BOTH, 1, 1, {}, 1, LATER, 0, 2, 3},
    {"client and server when idle, client first", BOTH, 1, 1, {}, 1, LATER, CLIENT_FIRST, 2, 3},
};
int xs_nscenarios(void) { return sizeof all / sizeof *all; }
const char *xs_scenario_name(int i) { return all[i].name; }
int xs_bound(int i, int deep) { return deep ? all[i].deep : all[i].bound; }

namespace
{
const scenario *S;
vector<conn_ptr> kept;
bool over, unread_over;
int peer_fds;                          // descriptors the harness itself has open
bool server_shut, client_shut;
int env(int call, int fd, size_t, long *ret, int *err, size_t *, const void *data)
{
    if (call == XC_CONNECT && ((const struct sockaddr *)data)->sa_family != AF_UNIX) return virtual_connect(fd, (const struct sockaddr *)data, ret, err);
    return 0;
}
void check_open(int base, const char *when)
{
    quiet_t q;
    int held = 0, n = open_count();
    for (auto &i : kept) held += !i->is_closed();
    if (n != base + peer_fds + held)
        xs_fail("%s %d descriptors are open: %d from before, %d of the peers, %d of handles the user holds", when, n, base, peer_fds, held);
}
void run_peer(peer_kind k, int path)
{
    peer p;
    bool ok = p.dial(path);
    { quiet_t q; peer_fds++; }
    if (ok) switch (k)
    {
    case IDLE: p.recv_all(); break;
    case SENDS: if (p.send("abc")) p.recv_all(); break;
    case SENDS_CLOSES: p.send("abc"); break;
    case CLOSES: break;
    case READS_FLOOD: p.recv_all(); break;
    case UNREAD_FLOOD: xs_wait_until([](void *) -> int { return unread_over; }, nullptr, "the peer does not read"); break;
    }
    else if (errno != ECONNREFUSED && errno != ENOENT && errno != EAGAIN) xs_fail("a peer cannot connect: errno %d", errno);
    p.hang_up();
    quiet_t q;
    peer_fds--;
}
void handlers()
{
    bool flood = false;
    for (auto k : S->peers) flood = flood || k == READS_FLOOD || k == UNREAD_FLOOD;
    do_accept = [flood](const conn_ptr &i, conn &c)
    {
        if (S->flags & HOLD) { quiet_t q; kept.push_back(i); }
        if (flood) { small_buffer(i); user_write(i, c, string(9000, 'x')); }
        if (S->side == CLI) user_write(i, c, "hello");
    };
    do_read = [](const conn_ptr &i, conn &c)
    {
        if (S->flags & USER_CLOSE) { user_close(i, c); return; }
        if (i->rbuffer().size()) user_write(i, c, i->rbuffer().get_string(-1, false));
    };
}
void check_ended(int from, int to, const char *what)
{
    for (int t = from; t < to; ++t) if (!xs_thread_ended(t)) xs_fail("the shutdown of a %s has returned, thread T%d still runs", what, t);
}
void server(int base)
{
    handlers();
    for (int round = 0; round < (S->flags & AGAIN ? 2 : 1); ++round)
    {
        vector<std::thread> t;
        vector<string> paths;
        shut = false;
        {
            R::tcp_server srv(S->workers);
            srv.set_on_accept(cb_accept);
            srv.set_on_read_complete(cb_read);
            srv.set_on_write_complete(cb_written);
            srv.set_on_closed(cb_closed);
            for (int k = 0; k < S->fronts; ++k) srv.listen_unix(sock_path(k), true);
            if (S->side == NEVER_RUN) { for (size_t k = 0; k < S->peers.size(); ++k) t.emplace_back(run_peer, S->peers[k], (int)k % S->fronts); }
            else
            {
                int from = xs_nthreads();
                srv.run();
                int to = xs_nthreads();
                for (size_t k = 0; k < S->peers.size(); ++k) t.emplace_back(run_peer, S->peers[k], (int)k % S->fronts);
                if (S->when == LATER) xs_settle();
                srv.shutdown();
                check_ended(from, to, "server");
                shut = true;
            }
        }
        unread_over = true;
        xs_settle();
        check_open(base, "after a server is gone");
        { quiet_t q; kept.clear(); }
        for (auto &x : t) x.join();
        check_open(base, "after the peers are gone");
        quiet_t q;
        for (auto &c : conns) { if (c->depth) xs_fail("a callback never returned"); c->over = true; }
        for (int k = 0; k < S->fronts; ++k) unlink(sock_path(k).c_str());
    }
}
void client(int base)
{
    handlers();
    shut = false;
    int lfd = listen_at(0);
    static int lfd_;
    lfd_ = lfd;
    int base2;
    { quiet_t q; base2 = base + 1; peer_fds = 0; }
    // takes connections, answers, closes them or waits for their end
    std::thread target([&]
    {
        vector<std::unique_ptr<peer>> in;
        for (;;)
        {
            auto ready = [](void *) -> int { return over || nready(lfd_, POLLIN); };
            if (!ready(nullptr)) xs_wait_until(ready, nullptr, "the target waits for connections");
            if (over) break;
            int fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
            if (fd < 0) xs_fail("accept");
            { quiet_t q; peer_fds++; in.push_back(std::make_unique<peer>()); in.back()->fd = fd; }
            in.back()->send("abc");
            if (S->flags & CLOSED_BY_TARGET) { in.back()->hang_up(); quiet_t q; peer_fds--; }
        }
        for (auto &p : in) if (p->fd >= 0) { p->recv_all(); p->hang_up(); quiet_t q; peer_fds--; }
    });
    vector<std::thread> t;
    {
        R::tcp_client cli(S->workers, S->fronts);
        cli.set_on_connect(cb_accept);
        cli.set_on_read_complete(cb_read);
        cli.set_on_write_complete(cb_written);
        cli.set_on_closed(cb_closed);
        string path = sock_path(0);
        if (S->when == BEFORE) cli.add_unix(path, S->n);
        int from = xs_nthreads();
        cli.run();
        int to = xs_nthreads();
        if (S->when == DURING || S->when == LATER) cli.add_unix(path, S->n);
        if (S->flags & REFUSED_TOO) { cli.add("127.0.0.1", REFUSED, family::ipv4, 1); cli.add("127.0.0.1", LATE_REFUSED, family::ipv4, 1); }
        if (S->when == THREAD) t.emplace_back([&] { for (int k = 0; k < S->n; ++k) cli.add_unix(path, S->fronts); });
        if (S->when == LATE)
        {
            cli.add("127.0.0.1", LATE_GOOD, family::ipv4, S->n);
            cli.add("127.0.0.1", GOOD, family::ipv4, 1);
            // the handshakes end some time, or never
            t.emplace_back([&]
            {
                auto ready = [](void *) -> int { return over || some_filled(nullptr); };
                while (!over)
                {
                    if (!ready(nullptr)) xs_wait_until(ready, nullptr, "the network is idle");
                    if (!over) complete_handshakes();
                }
            });
        }
        if (S->when == LATER) xs_settle();
        cli.shutdown();
        check_ended(from, to, "client");
        shut = true;
        if (S->when == THREAD) for (auto &x : t) x.join();
    }
    if (S->when == LATE) { over = true; for (auto &x : t) x.join(); }
    for (auto &v : vnet) { ::close(v.fd); }
    xs_settle();
    check_open(base2, "after a client is gone");
    { quiet_t q; kept.clear(); }
    over = true;
    target.join();
    ::close(lfd);
    check_open(base, "after the targets are gone");
    quiet_t q;
    unlink(sock_path(0).c_str());
}
void both(int base)
{
    do_accept = [](const conn_ptr &i, conn &c) { (void)i; (void)c; };
    do_read = [](const conn_ptr &i, conn &c) { if (i->rbuffer().size()) user_write(i, c, i->rbuffer().get_string(-1, false)); };
    int answers = 0;
    {
        R::tcp_server srv(S->workers);
        R::tcp_client cli(S->workers, S->fronts);
        auto s = [](void (*f)(const conn_ptr &)) { return [f](const conn_ptr &i) { if (server_shut) xs_fail("a callback of the server runs after its shutdown has returned"); f(i); }; };
        auto c = [](void (*f)(const conn_ptr &)) { return [f](const conn_ptr &i) { if (client_shut) xs_fail("a callback of the client runs after its shutdown has returned"); f(i); }; };
        srv.set_on_accept(s(cb_accept));
        srv.set_on_read_complete(s(cb_read));
        srv.set_on_write_complete(s(cb_written));
        srv.set_on_closed(s(cb_closed));
        cli.set_on_connect(c([](const conn_ptr &i) { conn &k = begin_conn(i, "on-connect"); user_write(i, k, "ping"); leave(k); }));
        cli.set_on_read_complete([&](const conn_ptr &i)
        {
            if (client_shut) xs_fail("a callback of the client runs after its shutdown has returned");
            conn &k = the_conn(i, "on-read-complete");
            { quiet_t q; k.in.append(i->rbuffer().rawbuf(), i->rbuffer().size()); if (k.in == "ping") answers++; }
            leave(k);
        });
        cli.set_on_write_complete(c(cb_written));
        cli.set_on_closed(c(cb_closed));
        srv.listen_unix(sock_path(0), true);
        int a = xs_nthreads();
        srv.run();
        int b = xs_nthreads();
        cli.run();
        int d = xs_nthreads();
        cli.add_unix(sock_path(0), S->n);
        if (S->when == LATER) { xs_settle(); if (answers != S->n) xs_fail("%d requests were made, %d were answered", S->n, answers); }
        if (S->flags & CLIENT_FIRST) { cli.shutdown(); client_shut = true; check_ended(b, d, "client"); srv.shutdown(); server_shut = true; check_ended(a, b, "server"); }
        else { srv.shutdown(); server_shut = true; check_ended(a, b, "server"); cli.shutdown(); client_shut = true; check_ended(b, d, "client"); }
    }
    xs_settle();
    check_open(base, "after client and server are gone");
    quiet_t q;
    unlink(sock_path(0).c_str());
}
}
void xs_scenario(int si)
{
    S = &all[si];
    if (S->side == CLI) begun = "on-connect";
    reactor_init();
    conns.clear();
    kept.reserve(8);
    vnet.reserve(32);
    xs_env(env);
    xs_norace(&over, sizeof over);
    xs_norace(&unread_over, sizeof unread_over);
    xs_norace(&shut, sizeof shut);
    xs_norace(&server_shut, sizeof server_shut);
    xs_norace(&client_shut, sizeof client_shut);
    int base = open_count();
    if (S->side == CLI) client(base);
    else if (S->side == BOTH) both(base);
    else server(base);
    string o;
    { quiet_t q; for (auto &c : conns) { char b[64]; snprintf(b, sizeof b, "%zu/%zu%s ", c->in.size(), c->out.size(), c->told ? "t" : ""); o += b; } }
    xs_obs("%s", o.c_str());
}
