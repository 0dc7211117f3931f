// C07: every byte arrives once and in order, in both directions, and write-complete runs exactly when the buffer is drained.
#include "reactor.h"

enum what { ON_ACCEPT, ON_READ, CHAIN, TWICE, ACCEPT_AND_READ, ECHO, LATE, OTHER, ALL, WRITTEN_OTHER, ONLY_READ, PIECES, CHAIN_READ, REFILL };
struct scenario
{
    const char *name;
    bool client;
    what how;
    int size;                 // of the messages of the reactor
    vector<int> pieces;       // what each peer sends
    int npeers;
    bool small, io, closes;   // small socket buffer; deviating reads and writes; peers close right after sending
    int bound, deep;
};
static const scenario all[] = {
    {"a small message in on-accept", false, ON_ACCEPT, 3, {}, 1, false, true, false, 2, 4},
    {"a message of one chunk less a byte", false, ON_ACCEPT, 1023, {}, 1, false, true, false, 2, 3},
    {"a message of one chunk", false, ON_ACCEPT, 1024, {}, 1, false, true, false, 2, 3},
    {"a message of one chunk and a byte", false, ON_ACCEPT, 1025, {}, 1, false, true, false, 2, 3},
    {"a message of two chunks", false, ON_ACCEPT, 2048, {}, 1, false, true, false, 2, 3},
    {"a large message in on-accept", false, ON_ACCEPT, 12000, {}, 1, true, false, false, 2, 4},
    {"a large message in on-accept, deviating calls", false, ON_ACCEPT, 7000, {}, 1, true, true, false, 2, 3},
    {"a large message on read", false, ON_READ, 9000, {3}, 1, true, false, false, 2, 3},
    {"a large message on read, deviating calls", false, ON_READ, 5000, {3}, 1, true, true, false, 2, 3},
    {"messages chained by on-write-complete", false, CHAIN, 3, {}, 1, false, true, false, 2, 3},
    {"large messages chained by on-write-complete", false, CHAIN, 5000, {}, 1, true, false, false, 2, 3},
    {"large messages chained by on-write-complete, deviating calls", false, CHAIN, 3000, {}, 1, true, true, false, 2, 3},
    {"chained messages started by a read", false, CHAIN_READ, 4000, {3}, 1, true, true, false, 2, 3},
    {"two writes in one callback", false, TWICE, 3, {}, 1, false, true, false, 2, 4},
    {"two large writes in one callback", false, TWICE, 5000, {}, 1, true, false, false, 2, 4},
    {"two large writes in one callback, deviating calls", false, TWICE, 3000, {}, 1, true, true, false, 2, 3},
    {"writes in on-accept and on read", false, ACCEPT_AND_READ, 5000, {3, 4}, 1, true, false, false, 2, 3},
    {"writes in on-accept and on read, deviating calls", false, ACCEPT_AND_READ, 1500, {3}, 1, true, true, false, 2, 3},
    {"reading", false, ONLY_READ, 0, {3}, 1, false, true, false, 2, 4},
    {"reading pieces", false, ONLY_READ, 0, {3, 1, 5}, 1, false, true, false, 2, 3},
    {"reading around the chunk size", false, ONLY_READ, 0, {1023, 1, 1, 1023, 1024}, 1, false, false, false, 3, 5},
    {"reading one chunk, deviating calls", false, ONLY_READ, 0, {1024}, 1, false, true, false, 2, 3},
    {"reading one chunk and a byte, deviating calls", false, ONLY_READ, 0, {1025}, 1, false, true, false, 2, 3},
    {"reading two chunks, the peer closes", false, ONLY_READ, 0, {2048}, 1, false, true, true, 3, 4},
    {"reading until the peer closes", false, ONLY_READ, 0, {3, 4}, 1, false, true, true, 3, 5},
    {"reading a lot until the peer closes", false, ONLY_READ, 0, {5000}, 1, false, true, true, 2, 3},
    {"echo", false, ECHO, 0, {3, 4}, 1, false, true, false, 2, 3},
    {"echo of a lot", false, ECHO, 0, {9000}, 1, true, false, false, 2, 3},
    {"echo of a lot in pieces", false, ECHO, 0, {3000, 3000, 3000}, 1, true, false, false, 2, 3},
    {"echo of a lot, deviating calls", false, ECHO, 0, {2500}, 1, true, true, false, 2, 3},
    {"a reply to all that was read", false, LATE, 4000, {3, 4}, 1, true, true, false, 2, 3},
    {"greeting a peer that sends and closes", false, ON_ACCEPT, 3, {3}, 1, false, true, true, 3, 4},
    {"flooding a peer that sends and closes", false, ON_ACCEPT, 9000, {3}, 1, true, false, true, 3, 4},
    {"flooding a peer that sends and closes, deviating calls", false, ON_ACCEPT, 3000, {3}, 1, true, true, true, 2, 3},
    {"flooding a peer that sends a lot and closes", false, ON_ACCEPT, 9000, {3000}, 1, true, false, true, 3, 4},
    {"flooding a peer that sends a lot and closes, deviating calls", false, ON_ACCEPT, 3000, {1500, 1500}, 1, true, true, true, 1, 2},
    {"replying to a peer that sends and closes", false, ON_READ, 9000, {3, 4}, 1, true, false, true, 3, 4},
    {"echo to a peer that sends and closes", false, ECHO, 0, {3, 4, 5}, 1, false, true, true, 3, 4},
    {"pieces put in the buffer one by one", false, PIECES, 3, {}, 1, false, true, false, 2, 4},
    {"the buffer is refilled while a write is pending", false, REFILL, 5000, {3, 4}, 1, true, false, false, 2, 3},
    {"to the other connection", false, OTHER, 0, {3}, 2, false, false, false, 2, 3},
    {"a lot to the other connection", false, OTHER, 0, {5000}, 2, true, false, false, 2, 3},
    {"a lot to all connections", false, ALL, 0, {3000}, 2, true, false, false, 2, 3},
    {"to the other connection in on-write-complete", false, WRITTEN_OTHER, 3000, {}, 2, true, false, false, 2, 3},
    {"client: a message in on-connect", true, ON_ACCEPT, 3, {}, 1, false, true, false, 2, 3},
    {"client: a large message in on-connect", true, ON_ACCEPT, 9000, {}, 1, true, false, false, 2, 3},
    {"client: large messages chained", true, CHAIN, 4000, {}, 1, true, false, false, 2, 3},
    {"client: echo of a lot", true, ECHO, 0, {5000}, 1, true, false, false, 2, 3},
    {"client: reading until the peer closes", true, ONLY_READ, 0, {3, 4}, 1, false, true, true, 3, 4},
};
int xs_nscenarios(void) { return sizeof all / sizeof *all; }
const char *xs_scenario_name(int i) { return all[i].name; }
int xs_bound(int i, int deep) { return deep ? all[i].deep : all[i].bound; }

namespace
{
vector<std::pair<conn_ptr, conn *>> kept;
const scenario *S;
int salt;
string fresh(int n)                    // bytes by which position and message are recognised
{
    quiet_t q;
    string s;
    ++salt;
    for (int i = 0; i < n; ++i) s += (char)(i == 0 ? 0x80 + salt : i < 3 ? 'A' + (salt + i) % 26 : (i * 131 + i / 251 + salt * 17) & 0x7f);
    return s;
}
struct side { peer p; string sent, expect; bool over = false; } sides[2];
bool known_conn(int fd)
{
    for (auto &c : conns) if (!c->over && c->fd == fd) return true;
    return false;
}
thread_local bool is_peer;
int env(int call, int fd, size_t len, long *ret, int *err, size_t *lim, const void *)
{
    if (is_peer || !S->io || (call != XC_READ && call != XC_WRITE) || !known_conn(fd)) return 0;
    // a read finds no data only if there is none, which needs no help
    int menu[4], n = 0;
    menu[n++] = EINTR;
    if (call == XC_WRITE) menu[n++] = EAGAIN;
    if (len > 1) menu[n++] = 1000;
    if (len > 2) menu[n++] = 1001;
    int k = xs_choose(n + 1, 1);
    if (k) switch (menu[k - 1])
    {
    case 1000: *lim = 1; return 2;
    case 1001: *lim = len - 1; return 2;
    default: *ret = -1; *err = menu[k - 1]; return 1;
    }
    return 0;
}
conn *peer_of(conn &c) { for (auto &k : kept) if (k.second != &c && !k.second->over) return k.second; return nullptr; }
conn_ptr ptr_of(conn *c) { for (auto &k : kept) if (k.second == c) return k.first; return nullptr; }
void keep(const conn_ptr &i, conn &c) { quiet_t q; kept.push_back({i, &c}); }
void write_to(conn *c, const string &s) { conn_ptr i; { quiet_t q; i = ptr_of(c); } user_write(i, *c, s); }
void install()
{
    int n = S->size;
    auto data = [](const conn_ptr &i) { return i->rbuffer().get_string(-1, false); };
    switch (S->how)
    {
    case ON_ACCEPT: do_accept = [n](const conn_ptr &i, conn &c) { if (S->small) small_buffer(i); user_write(i, c, fresh(n)); }; break;
    case TWICE: do_accept = [n](const conn_ptr &i, conn &c) { if (S->small) small_buffer(i); user_write(i, c, fresh(n)); if (!c.over) user_write(i, c, fresh(n)); }; break;
    case PIECES:
        do_accept = [n](const conn_ptr &i, conn &c) { string s = fresh(n); for (char x : s) if (!c.over) user_write(i, c, string(1, x)); };
        break;
    case CHAIN:
        do_accept = [n](const conn_ptr &i, conn &c) { if (S->small) small_buffer(i); user_write(i, c, fresh(n)); };
        do_written = [n](const conn_ptr &i, conn &c) { if (c.completions < 3) user_write(i, c, fresh(n)); };
        break;
    case CHAIN_READ:
        do_accept = [n](const conn_ptr &i, conn &) { if (S->small) small_buffer(i); };
        do_read = [n](const conn_ptr &i, conn &c) { if (i->rbuffer().size()) user_write(i, c, fresh(n)); };
        do_written = [n](const conn_ptr &i, conn &c) { if (c.completions < 2) user_write(i, c, fresh(n)); };
        break;
    case ACCEPT_AND_READ: case REFILL:
        do_accept = [n](const conn_ptr &i, conn &c) { if (S->small) small_buffer(i); user_write(i, c, fresh(n)); };
        do_read = [n](const conn_ptr &i, conn &c) { if (i->rbuffer().size()) user_write(i, c, fresh(n)); };
        if (S->how == REFILL) do_written = [n](const conn_ptr &i, conn &c) { if (c.completions == 1) { user_write(i, c, fresh(n)); if (!c.over) user_write(i, c, fresh(5)); } };
        break;
    case ON_READ:
        do_accept = [n](const conn_ptr &i, conn &) { if (S->small) small_buffer(i); };
        do_read = [n](const conn_ptr &i, conn &c) { if (i->rbuffer().size()) user_write(i, c, fresh(n)); };
        break;
    case ECHO:
        do_accept = [](const conn_ptr &i, conn &) { if (S->small) small_buffer(i); };
        do_read = [data](const conn_ptr &i, conn &c) { if (i->rbuffer().size()) user_write(i, c, data(i)); };
        break;
    case LATE:
        do_accept = [](const conn_ptr &i, conn &) { if (S->small) small_buffer(i); };
        do_read = [n](const conn_ptr &i, conn &c) { if (c.in.size() == 7 && i->rbuffer().size()) user_write(i, c, fresh(n)); };
        break;
    case OTHER:
        do_accept = [](const conn_ptr &i, conn &c) { if (S->small) small_buffer(i); keep(i, c); };
        do_read = [data](const conn_ptr &i, conn &c) { if (i->rbuffer().size() && peer_of(c)) write_to(peer_of(c), data(i)); };
        break;
    case ALL:
        do_accept = [](const conn_ptr &i, conn &c) { if (S->small) small_buffer(i); keep(i, c); };
        do_read = [data](const conn_ptr &i, conn &)
        {
            if (!i->rbuffer().size()) return;
            string s = data(i);
            for (size_t k = 0; k < kept.size(); ++k) if (!kept[k].second->over) write_to(kept[k].second, s);
        };
        break;
    case WRITTEN_OTHER:
        do_accept = [n](const conn_ptr &i, conn &c) { if (S->small) small_buffer(i); keep(i, c); if (kept.size() == 2) write_to(kept[0].second, fresh(n)); };
        do_written = [n](const conn_ptr &, conn &c) { if (c.write_done == 1 && peer_of(c)) write_to(peer_of(c), fresh(n)); };
        break;
    default: break;
    }
}
// sends what it has to, reads whatever arrives until main calls it off
int calm(void *) { return 1; }
bool stop;
struct both { int fd; bool sending; };
int either(void *p) { both *b = (both *)p; return stop || nready(b->fd, POLLIN) || (b->sending && nready(b->fd, POLLOUT)); }
void talk(side &d)
{
    is_peer = true;
    size_t at = 0, piece = 0;
    string out;
    while (!d.p.eof && !d.p.reset)
    {
        if (out.empty() && piece < S->pieces.size()) { out = fresh(S->pieces[piece++]); at = 0; quiet_t q; d.sent += out; }
        if (out.empty() && S->closes) break;
        both b = {d.p.fd, !out.empty()};
        if (!either(&b)) xs_wait_until(either, &b, "a peer with nothing to do");
        if (stop) break;
        if (!S->closes && nready(d.p.fd, POLLIN)) { d.p.recv_some(); continue; }
        if (!out.empty() && nready(d.p.fd, POLLOUT))
        {
            ssize_t n = ::send(d.p.fd, out.data() + at, out.size() - at, MSG_NOSIGNAL);
            if (n < 0 && errno == EAGAIN) continue;
            if (n < 0) { d.p.reset = true; break; }
            at += n;
            if (at == out.size()) out.clear();
        }
    }
    if (S->closes) { d.p.hang_up(); d.over = true; }
}
bool prefix(const string &a, const string &b) { return b.compare(0, a.size(), a) == 0; }
size_t mismatch(const string &a, const string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return i; }
// which connection belongs to which peer: by the bytes themselves
void check_all(bool complete)
{
    quiet_t q;
    if ((int)conns.size() != S->npeers) xs_fail("%d peers, %zu connections", S->npeers, conns.size());
    vector<bool> used(S->npeers);
    for (auto &c : conns)
    {
        int found = -1;
        for (int k = 0; k < S->npeers && found < 0; ++k)
            if (!used[k] && c->in == sides[k].sent && (S->closes ? prefix(sides[k].p.got, c->out) : sides[k].p.got == c->out)) found = k;
        if (found >= 0) { used[found] = true; continue; }
        if (S->npeers > 1) xs_fail("connection %d was handed %zu bytes and wrote %zu bytes, which no peer has sent and received", c->id, c->in.size(), c->out.size());
        side &d = sides[0];
        if (c->in != d.sent) xs_fail("the peer sent %zu bytes, the read callback was handed %zu bytes, different from byte %zu on", d.sent.size(), c->in.size(), mismatch(c->in, d.sent));
        xs_fail("%zu bytes were given to async_write, the reading peer got %zu bytes, different from byte %zu on", c->out.size(), d.p.got.size(), mismatch(c->out, d.p.got));
    }
    if (complete)
        for (auto &c : conns)
            if (!c->over && c->pending) xs_fail("connection %d is waiting for write-complete although everything is written", c->id);
}
int other_blocked(void *) { return 1; }
}
static void frame(R::tcp_server *srv, R::tcp_client *cli)
{
    string path = sock_path();
    int lfd = -1;
    if (cli)
    {
        quiet_t q;
        struct sockaddr_un a;
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        strcpy(a.sun_path, path.c_str());
        unlink(path.c_str());
        lfd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (bind(lfd, (struct sockaddr *)&a, sizeof a) || listen(lfd, 8)) xs_fail("listener");
    }
    if (srv)
    {
        srv->set_on_accept(cb_accept);
        srv->set_on_read_complete(cb_read);
        srv->set_on_write_complete(cb_written);
        srv->set_on_closed(cb_closed);
        srv->listen_unix(path, true);
        srv->run();
    }
    else
    {
        cli->set_on_connect(cb_accept);
        cli->set_on_read_complete(cb_read);
        cli->set_on_write_complete(cb_written);
        cli->set_on_closed(cb_closed);
        cli->run();
        cli->add_unix(path, 1);
    }
    vector<std::thread> t;
    for (int k = 0; k < S->npeers; ++k)
        t.emplace_back([&, k]
        {
            is_peer = true;
            if (srv) { if (!sides[k].p.dial()) xs_fail("a peer cannot connect: errno %d", errno); }
            else
            {
                want_t w = {lfd, POLLIN};
                if (!nready(lfd, POLLIN)) xs_wait_until(want_ready, &w, "the listener waits for a connection");
                sides[k].p.fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
                if (sides[k].p.fd < 0) xs_fail("accept");
            }
            talk(sides[k]);
        });
    xs_settle();
    check_all(true);
    stop = true;
    for (auto &x : t) x.join();
    for (int k = 0; k < S->npeers; ++k) if (!sides[k].over) sides[k].p.hang_up();
    kept.clear();
    if (srv) srv->shutdown(); else cli->shutdown();
    shut = true;
    check_all(false);
    quiet_t q;
    if (lfd >= 0) close(lfd);
    unlink(path.c_str());
}
void xs_scenario(int si)
{
    S = &all[si];
    reactor_init();
    conns.clear();
    kept.clear();
    install();
    xs_env(env);
    xs_norace(&stop, sizeof stop);
    xs_norace(sides, sizeof sides);
    xs_norace(&salt, sizeof salt);
    is_peer = true;
    if (S->client)
    {
        begun = "on-connect";
        R::tcp_client cli(1);
        frame(nullptr, &cli);
    }
    else
    {
        R::tcp_server srv(1);
        frame(&srv, nullptr);
    }
    string o;
    for (auto &c : conns) { char b[64]; snprintf(b, sizeof b, "%d:%zu/%zu/%d%s ", c->id, c->in.size(), c->out.size(), c->completions, c->told ? "t" : ""); o += b; }
    xs_obs("%s", o.c_str());
}
