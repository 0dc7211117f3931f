// C08: a client makes exactly the requested connections and announces each established one once.
#define CLIENT
#include "reactor.h"

enum target { U0, U1, GONE, UNHEARD, T4, T6, TLATE, TREF, TFAIL, T4B, NTARGETS };
struct request { target t; int n; };
enum { BEFORE, DURING, THREADS, CALLBACK, RECONNECT, EVERY };
struct scenario
{
    const char *name;
    int workers, connectors, when;
    vector<vector<request>> req;      // by requesting thread
    bool eintr, closes;               // pipe calls interrupted; targets close what they accept
    int bound, deep;
};
static const scenario all[] = {
    {"one connection, requested before", 1, 1, BEFORE, {{{U0, 1}}}, false, false, 5, 7},
    {"one connection, requested while running", 1, 1, DURING, {{{U0, 1}}}, false, false, 5, 7},
    {"no connection", 1, 1, DURING, {{{U0, 0}}}, false, false, 5, 7},
    {"three connections, one request", 1, 1, DURING, {{{U0, 3}}}, false, false, 3, 5},
    {"three connections, two workers", 2, 1, DURING, {{{U0, 3}}}, false, false, 2, 3},
    {"three connections, three requests", 1, 1, DURING, {{{U0, 1}, {U0, 1}, {U0, 1}}}, false, false, 3, 5},
    {"two targets", 1, 1, DURING, {{{U0, 2}, {U1, 1}}}, false, false, 3, 5},
    {"same port, different families", 1, 1, DURING, {{{T4, 1}, {T6, 2}}}, false, false, 3, 5},
    {"same family, different ports", 1, 1, DURING, {{{T4, 2}, {T4B, 1}}}, false, false, 3, 5},
    {"two connectors, three connections", 1, 2, DURING, {{{U0, 3}}}, false, false, 3, 5},
    {"two connectors, one connection", 1, 2, DURING, {{{U0, 1}}}, false, false, 3, 5},
    {"two connectors, two connections, requested before", 1, 2, BEFORE, {{{U0, 2}}}, false, false, 3, 5},
    {"three connectors, five connections, requested before", 1, 3, BEFORE, {{{U0, 5}}}, false, false, 2, 3},
    {"two requesting threads, same target", 1, 1, THREADS, {{{U0, 1}}, {{U0, 1}}}, false, false, 3, 5},
    {"two requesting threads, two targets", 1, 1, THREADS, {{{U0, 1}}, {{U1, 2}}}, false, false, 3, 5},
    {"two requesting threads, two requests each", 1, 1, THREADS, {{{U0, 1}, {U1, 1}}, {{U1, 1}, {U0, 1}}}, false, false, 2, 3},
    {"two requesting threads, two connectors", 1, 2, THREADS, {{{U0, 2}}, {{U0, 3}}}, false, false, 1, 3},
    {"requested by on-connect", 1, 1, CALLBACK, {{{U0, 1}}, {{U1, 2}}}, false, false, 4, 6},
    {"requested by on-connect, two connectors", 1, 2, CALLBACK, {{{U0, 1}}, {{U1, 3}}}, false, false, 3, 5},
    {"requested again by on-closed", 1, 1, RECONNECT, {{{U0, 1}}}, false, true, 3, 5},
    {"a missing target", 1, 1, DURING, {{{GONE, 2}}}, false, false, 4, 6},
    {"a missing target and a good one", 1, 1, DURING, {{{GONE, 1}, {U0, 1}}}, false, false, 4, 6},
    {"a refusing target and a good one, requested before", 1, 1, BEFORE, {{{UNHEARD, 2}, {U0, 1}, {TREF, 1}}}, false, false, 4, 6},
    {"a refusing target and a good one, two threads", 1, 1, THREADS, {{{TREF, 1}}, {{U0, 1}}}, false, false, 3, 5},
    {"a late connection", 1, 1, DURING, {{{TLATE, 1}}}, false, false, 4, 6},
    {"late connections to two targets", 1, 1, DURING, {{{TLATE, 2}, {T4, 1}}}, false, false, 3, 5},
    {"a connection that fails late", 1, 1, DURING, {{{TFAIL, 1}}}, false, false, 4, 6},
    {"a connection that fails late among others", 1, 1, DURING, {{{TFAIL, 2}, {T4, 1}, {U0, 1}}}, false, false, 3, 5},
    {"a connection that fails late, two workers", 2, 1, DURING, {{{TFAIL, 1}, {U0, 1}}}, false, false, 3, 5},
    {"everything at once", 1, 1, BEFORE, {{{TFAIL, 1}, {T4, 1}, {U0, 1}, {GONE, 1}, {TREF, 1}, {TLATE, 1}, {T6, 1}}}, false, false, 3, 5},
    {"targets that close", 1, 1, DURING, {{{U0, 2}}}, false, true, 3, 5},
    {"interrupted calls", 1, 1, DURING, {{{U0, 1}, {U0, 1}}}, true, false, 3, 5},
    {"interrupted calls, two threads", 1, 1, THREADS, {{{U0, 1}}, {{U1, 1}}}, true, false, 3, 5},
    {"every number of connections, one connector", 1, 1, EVERY, {{}}, false, false, 1, 2},
    {"every number of connections, two connectors", 1, 2, EVERY, {{}}, false, false, 0, 1},
    {"every number of connections, three connectors", 1, 3, EVERY, {{}}, false, false, 0, 1},
    {"every number of connections, four connectors", 2, 4, EVERY, {{}}, false, false, 0, 1},
};
int xs_nscenarios(void) { return sizeof all / sizeof *all; }
const char *xs_scenario_name(int i) { return all[i].name; }
int xs_bound(int i, int deep) { return deep ? all[i].deep : all[i].bound; }

namespace
{
const scenario *S;
R::tcp_client *C;
bool quiet_env;
int want[NTARGETS];
string tname(target t)
{
    switch (t)
    {
    case U0: return sock_path(0);
    case U1: return sock_path(1);
    case GONE: return sock_path(8);
    case UNHEARD: return sock_path(2);
    case T4: return "127.0.0.1 1001";
    case T4B: return "127.0.0.1 1002";
    case T6: return "::1 1001";
    case TLATE: return "127.0.0.1 2001";
    case TREF: return "127.0.0.1 3001";
    default: return "127.0.0.1 4001";
    }
}
void ask(const request &r)
{
    { quiet_t q; want[r.t] += r.n; }
    string s = tname(r.t);
    switch (r.t)
    {
    case U0: case U1: case GONE: case UNHEARD: C->add_unix(s, r.n); break;
    case T6: C->add("::1", 1001, family::ipv6, r.n); break;
    default: C->add("127.0.0.1", atoi(s.c_str() + 10), family::ipv4, r.n);
    }
}
int env(int call, int fd, size_t len, long *ret, int *err, size_t *, const void *data)
{
    if (quiet_env) return 0;
    if (call == XC_CONNECT) return virtual_connect(fd, (const struct sockaddr *)data, ret, err);
    if (S->eintr && len == 1 && (call == XC_READ || call == XC_WRITE) && xs_choose(2, 1)) { *ret = -1; *err = EINTR; return 1; }
    return 0;
}
vector<string> announced;
void check_counts()
{
    quiet_t q;
    std::map<string, int> est, ann;
    for (int k = 0; k < 2; ++k) est[sock_path(k)] = 0;
    for (auto &v : vnet) est[v.name]++;
    for (auto &a : announced) ann[a]++;
    for (int t = 0; t < NTARGETS; ++t)
    {
        string n = tname((target)t);
        if (attempts[n] != want[t]) xs_fail("%d connections to target %d were requested, %d were attempted", want[t], t, attempts[n]);
        int good = t == GONE || t == UNHEARD || t == TREF || t == TFAIL ? 0 : attempts[n];
        if (ann[n] != good) xs_fail("%d connections to target %d were established, on-connect ran for %d", good, t, ann[n]);
    }
    for (auto &c : conns)
    {
        if (c->depth) xs_fail("a callback never returned");
        if (S->closes && !c->told) xs_fail("target closed connection %d, on-closed never ran", c->id);
        if (!S->closes && c->told) xs_fail("on-closed of connection %d ran, which is open", c->id);
    }
}
int lfd[3];
}
void xs_scenario(int si)
{
    late_menu = strstr(all[si].name, "fails late") && !strstr(all[si].name, "others");
    S = &all[si];
    vector<vector<request>> req = S->req;
    bool before = S->when == BEFORE;
    if (S->when == EVERY)
    {
        static const target ts[] = {U0, T4, T6, TREF};
        target t = ts[xs_choose(4, 0)];
        req = {{{t, xs_choose(9, 0)}}};
        if (xs_choose(2, 0)) req[0].push_back({t, 2});
        before = xs_choose(2, 0);
    }
    begun = "on-connect";
    reactor_init();
    conns.clear();
    vnet.reserve(32);
    xs_env(env);
    xs_norace(want, sizeof want);
    for (int k = 0; k < 3; ++k) lfd[k] = listen_at(k);
    close(lfd[2]);
    bool asked = false;
    xs_norace(&asked, sizeof asked);
    int again = 0;
    do_accept = [&](const conn_ptr &i, conn &)
    {
        {
            quiet_t q;
            auto p = i->connpeer();
            announced.push_back(std::get<2>(p) == family::local ? std::get<0>(p) : std::get<0>(p) + " " + std::to_string(std::get<1>(p)));
            if (S->when != CALLBACK || asked) return;
            asked = true;
        }
        for (auto &r : req[1]) ask(r);
    };
    do_closed = [&](const conn_ptr &, conn &)
    {
        if (S->when == RECONNECT && again++ < 2) ask({U0, 1});
    };
    {
        R::tcp_client cli(S->workers, S->connectors);
        C = &cli;
        cli.set_on_connect(cb_accept);
        cli.set_on_read_complete(cb_read);
        cli.set_on_write_complete(cb_written);
        cli.set_on_closed(cb_closed);
        if (before) for (auto &r : req[0]) ask(r);
        cli.run();
        vector<std::thread> t;
        bool over = false;
        xs_norace(&over, sizeof over);
        bool late = false;
        for (auto &v : req) for (auto &r : v) late = late || r.t == TLATE;
        struct acc { bool *over; } acc_arg = {&over};
        if (late) t.emplace_back([&]
        {
            for (;;)
            {
                if (!some_filled(nullptr) && !over) xs_wait_until([](void *p) -> int { return some_filled(nullptr) || *((acc *)p)->over; }, &acc_arg, "the network is idle");
                if (over) break;
                complete_handshakes();
            }
        });
        if (S->closes) t.emplace_back([&]
        {
            for (;;)
            {
                if (!nready(lfd[0], POLLIN) && !over) xs_wait_until([](void *p) -> int { return nready(lfd[0], POLLIN) || *((acc *)p)->over; }, &acc_arg, "the target waits for connections");
                if (over) break;
                int fd = accept4(lfd[0], nullptr, nullptr, SOCK_CLOEXEC);
                if (fd < 0) xs_fail("accept");
                close(fd);
            }
        });
        if ((S->when == EVERY && !before) || S->when == DURING || S->when == CALLBACK || S->when == RECONNECT) for (auto &r : req[0]) ask(r);
        if (S->when == THREADS) for (auto &v : req) t.emplace_back([&v] { for (auto &r : v) ask(r); });
        xs_settle();
        check_counts();
        over = true;
        for (auto &x : t) x.join();
        cli.shutdown();
        shut = true;
        check_counts();
    }
    quiet_t q;
    for (int k = 0; k < 3; ++k)
    {
        if (k < 2)
        {
            int n = 0;
            for (; !S->closes; ++n) { int fd = accept4(lfd[k], nullptr, nullptr, SOCK_NONBLOCK); if (fd < 0) break; close(fd); }
            if (!S->closes && n != want[k]) xs_fail("%d connections to a listener were requested, it got %d", want[k], n);
            close(lfd[k]);
        }
        unlink(sock_path(k).c_str());
    }
    string o;
    for (auto &a : announced) o += a[0] == 's' ? "u" + a.substr(a.size() - 1) + " " : a + ", ";
    for (auto &c : conns) o += std::to_string(c->thread) + (c->told ? "t " : " ");
    xs_obs("%s", o.c_str());
}
