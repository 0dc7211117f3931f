// C06: life of the connections of a TCP server: every peer accepted once, callbacks in order, on one worker, the end told once.
#include "reactor.h"

enum peer_kind { CLOSE_ATONCE, SEND_CLOSE, SEND_HALF, ECHO, UNREAD, UNTIL_EOF, HALF_ONLY, SEND_TWICE, TWO_ECHOES, ASK };
enum server_kind { IDLE, ECHOING, GREET, CLOSE_ON_ACCEPT, GREET_CLOSE, CLOSE_ON_READ, CLOSE_ON_WRITTEN, CLOSE_ON_CLOSED, FLOOD, CLOSE_OTHERS, FLOOD_CLOSE,
    GREET_CLOSE_WRITTEN, KEEP_POINTERS, CLOSE_TWICE, CLOSE_AGAIN, MIX_IDLE, MIX_GREET, MIX_FLOOD };
struct scenario { const char *name; int workers; server_kind server; vector<peer_kind> peers; int bound, deep; bool early; };
static const scenario all[] = {
    {"a peer connects and closes at once", 1, IDLE, {CLOSE_ATONCE}, 4, 6, false},
    {"a peer sends and closes", 1, IDLE, {SEND_CLOSE}, 4, 6, false},
    {"a peer sends, half-closes, waits for the end", 1, IDLE, {SEND_HALF}, 4, 6, false},
    {"echo", 1, ECHOING, {ECHO}, 4, 6, false},
    {"echo to a peer that half-closes", 1, ECHOING, {SEND_HALF}, 4, 6, false},
    {"echo to a peer that closes without reading", 1, ECHOING, {SEND_CLOSE}, 4, 6, false},
    {"greeting, the peer closes at once", 1, GREET, {CLOSE_ATONCE}, 4, 6, false},
    {"greeting, the peer resets", 1, GREET, {UNREAD}, 4, 6, false},
    {"greeting, the peer half-closes", 1, GREET, {HALF_ONLY}, 4, 6, false},
    {"closed in on-accept", 1, CLOSE_ON_ACCEPT, {UNTIL_EOF}, 4, 6, false},
    {"closed in on-accept, the peer closes too", 1, CLOSE_ON_ACCEPT, {SEND_CLOSE}, 4, 6, false},
    {"greeting and close in on-accept", 1, GREET_CLOSE, {UNTIL_EOF}, 4, 6, false},
    {"closed in on-read-complete", 1, CLOSE_ON_READ, {SEND_CLOSE}, 4, 6, false},
    {"closed in on-read-complete, the peer half-closes", 1, CLOSE_ON_READ, {SEND_HALF}, 4, 6, false},
    {"closed in on-write-complete of an echo", 1, CLOSE_ON_WRITTEN, {ECHO}, 4, 6, false},
    {"closed in on-write-complete of an echo, half-close", 1, CLOSE_ON_WRITTEN, {SEND_HALF}, 4, 6, false},
    {"closed in on-write-complete of a greeting", 1, GREET_CLOSE_WRITTEN, {UNTIL_EOF}, 4, 6, false},
    {"closed in on-closed", 1, CLOSE_ON_CLOSED, {SEND_CLOSE}, 4, 6, false},
    {"closed in on-closed, the peer half-closes", 1, CLOSE_ON_CLOSED, {SEND_HALF}, 4, 6, false},
    {"a flooded peer closes", 1, FLOOD, {CLOSE_ATONCE}, 4, 6, false},
    {"a flooded peer resets", 1, FLOOD, {UNREAD}, 4, 6, false},
    {"a flooded peer sends and closes", 1, FLOOD, {SEND_CLOSE}, 4, 6, false},
    {"a flooding server closes while data is pending", 1, FLOOD_CLOSE, {UNTIL_EOF}, 4, 6, false},
    {"two peers, one worker", 1, ECHOING, {ECHO, SEND_CLOSE}, 2, 3, false},
    {"two peers, two workers", 2, ECHOING, {SEND_CLOSE, CLOSE_ATONCE}, 2, 3, false},
    {"two peers, two workers, closed in on-read-complete", 2, CLOSE_ON_READ, {SEND_CLOSE, SEND_CLOSE}, 2, 3, false},
    {"two peers, closed by each other's callbacks", 1, CLOSE_OTHERS, {SEND_CLOSE, SEND_CLOSE}, 2, 3, false},
    {"two peers, handles are kept", 2, KEEP_POINTERS, {SEND_CLOSE, SEND_CLOSE}, 2, 3, false},
    {"a peer waits before the server runs", 1, ECHOING, {ECHO}, 4, 6, true},
    {"two peers wait before the server runs", 2, ECHOING, {SEND_CLOSE, SEND_CLOSE}, 2, 3, true},
    {"three peers, two workers", 2, IDLE, {CLOSE_ATONCE, SEND_CLOSE, CLOSE_ATONCE}, 1, 3, false},
    {"a peer sends twice", 1, ECHOING, {SEND_TWICE}, 4, 6, false},
    {"closed twice", 1, CLOSE_TWICE, {SEND_CLOSE}, 4, 6, false},
    {"two peers one after the other", 1, ECHOING, {TWO_ECHOES}, 3, 4, false},
    {"two peers one after the other, the first is closed again", 1, CLOSE_AGAIN, {TWO_ECHOES}, 3, 4, false},
    {"three peers at once, one worker", 1, ECHOING, {SEND_CLOSE, ECHO, CLOSE_ATONCE}, 2, 3, true},
    {"every mix of callbacks and peers", 1, MIX_IDLE, {CLOSE_ATONCE}, 1, 2, false},
    {"every mix of callbacks and peers, after a greeting", 1, MIX_GREET, {CLOSE_ATONCE}, 1, 2, false},
    {"every mix of callbacks and peers, after a flood", 1, MIX_FLOOD, {CLOSE_ATONCE}, 1, 2, false},
};
int xs_nscenarios(void) { return sizeof all / sizeof *all; }
const char *xs_scenario_name(int i) { return all[i].name; }
int xs_bound(int i, int deep) { return deep ? all[i].deep : all[i].bound; }

static vector<std::pair<conn_ptr, conn *>> kept;
static void handlers(server_kind k)
{
    static const string greeting = "hello", flood(12000, 'f');
    switch (k)
    {
    case GREET: do_accept = [](const conn_ptr &i, conn &c) { user_write(i, c, greeting); }; break;
    case CLOSE_ON_ACCEPT: do_accept = [](const conn_ptr &i, conn &c) { user_close(i, c); }; break;
    case GREET_CLOSE: do_accept = [](const conn_ptr &i, conn &c) { user_write(i, c, greeting); user_close(i, c); }; break;
    case FLOOD: do_accept = [](const conn_ptr &i, conn &c) { small_buffer(i); user_write(i, c, flood); }; break;
    case FLOOD_CLOSE: do_accept = [](const conn_ptr &i, conn &c) { small_buffer(i); user_write(i, c, flood); user_close(i, c); }; break;
    case GREET_CLOSE_WRITTEN:
        do_accept = [](const conn_ptr &i, conn &c) { user_write(i, c, greeting); };
        do_written = [](const conn_ptr &i, conn &c) { user_close(i, c); };
        break;
    case CLOSE_ON_READ: do_read = [](const conn_ptr &i, conn &c) { user_close(i, c); }; break;
    case CLOSE_ON_WRITTEN: do_written = [](const conn_ptr &i, conn &c) { user_close(i, c); }; // fall through
    case ECHOING: do_read = [](const conn_ptr &i, conn &c) { if (i->rbuffer().size()) user_write(i, c, i->rbuffer().get_string(-1, false)); }; break;
    case CLOSE_ON_CLOSED: do_closed = [](const conn_ptr &i, conn &c) { user_close(i, c); }; break;
    case CLOSE_TWICE: do_read = [](const conn_ptr &i, conn &c) { user_close(i, c); i->close(); }; break;
    case CLOSE_OTHERS:
        do_accept = [](const conn_ptr &i, conn &c) { quiet_t q; kept.push_back({i, &c}); };
        do_read = [](const conn_ptr &i, conn &)
        {
            for (auto &k : kept) if (k.first != i && !k.second->over) { user_close(k.first, *k.second); break; }
        };
        break;
    case KEEP_POINTERS: do_accept = [](const conn_ptr &i, conn &c) { quiet_t q; kept.push_back({i, &c}); }; break;
    case CLOSE_AGAIN:
        do_accept = [](const conn_ptr &i, conn &c) { for (auto &k : kept) R::safely_close(k.first); quiet_t q; kept.push_back({i, &c}); };
        do_read = [](const conn_ptr &i, conn &c)
        {
            if (i->rbuffer().size()) user_write(i, c, i->rbuffer().get_string(-1, false));
            user_close(i, c);
        };
        break;
    default: break;
    }
}
// on-read-complete, on-write-complete, on-closed and the peer are chosen; the peer
static peer_kind mix(server_kind k)
{
    static const string greeting = "hello", flood(12000, 'f');
    if (k == MIX_GREET) do_accept = [](const conn_ptr &i, conn &c) { user_write(i, c, greeting); };
    if (k == MIX_FLOOD) do_accept = [](const conn_ptr &i, conn &c) { small_buffer(i); user_write(i, c, flood); };
    int r = xs_choose(5, 0), w = xs_choose(3, 0), e = xs_choose(3, 0), p = xs_choose(6, 0);
    static const peer_kind all[] = {CLOSE_ATONCE, SEND_CLOSE, SEND_HALF, HALF_ONLY, SEND_TWICE, ASK};
    static const action echo = [](const conn_ptr &i, conn &c) { if (i->rbuffer().size()) user_write(i, c, i->rbuffer().get_string(-1, false)); };
    static const action close = [](const conn_ptr &i, conn &c) { user_close(i, c); };
    static bool again;
    again = true;
    switch (r)
    {
    case 1: do_read = echo; break;
    case 2: do_read = close; break;
    case 3: do_read = [](const conn_ptr &i, conn &c) { echo(i, c); if (!i->is_closed()) user_close(i, c); }; break;
    case 4: do_read = [](const conn_ptr &i, conn &c) { user_write(i, c, "x"); if (!i->is_closed()) user_write(i, c, "y"); }; break;
    }
    switch (w)
    {
    case 1: do_written = close; break;
    case 2: do_written = [](const conn_ptr &i, conn &c) { if (again) { again = false; user_write(i, c, "more"); } }; break;
    }
    switch (e)
    {
    case 1: do_closed = close; break;
    case 2: do_closed = [](const conn_ptr &i, conn &) { R::safely_close(i); R::safely_close(i); }; break;
    }
    if (all[p] == ASK && r == 0) xs_discard();     // it would wait for ever
    return all[p];
}
static void run_peer(peer_kind k)
{
    peer p;
    if (k == TWO_ECHOES) { run_peer(ECHO); run_peer(ECHO); return; }
    if (!p.dial()) xs_fail("a peer cannot connect: errno %d", errno);
    switch (k)
    {
    case CLOSE_ATONCE: break;
    case SEND_CLOSE: p.send("abc"); break;
    case SEND_TWICE: p.send("abc"); p.send("def"); break;
    case SEND_HALF: p.send("abc"); p.done_sending(); p.recv_all(); break;
    case HALF_ONLY: p.done_sending(); p.recv_all(); break;
    case ECHO: p.send("abc"); p.recv(3); if (!p.reset && p.got != "abc") xs_fail("the echo is \"%s\"", p.got.c_str()); break;
    case ASK: p.send("abc"); p.recv(1); break;
    case UNREAD: p.recv(1); p.send("abc"); break;
    case UNTIL_EOF: p.recv_all(); break;
    default: break;
    }
    p.hang_up();
}
static void check_ends(size_t n)
{
    quiet_t q;
    if (conns.size() != n) xs_fail("%zu peers connected, %zu connections were announced by on-accept", n, conns.size());
    for (auto &c : conns)
    {
        if (c->depth) xs_fail("a callback of connection %d never returned", c->id);
        if (!c->told && !c->user_closed) xs_fail("the peer of connection %d has closed it, on-closed never ran", c->id);
    }
}
void xs_scenario(int si)
{
    const scenario &s = all[si];
    reactor_init();
    conns.clear();
    kept.clear();
    handlers(s.server);
    vector<peer_kind> peers = s.peers;
    if (s.server >= MIX_IDLE) peers[0] = mix(s.server);
    string path = sock_path();
    {
        R::tcp_server srv(s.workers);
        srv.set_on_accept(cb_accept);
        srv.set_on_read_complete(cb_read);
        srv.set_on_write_complete(cb_written);
        srv.set_on_closed(cb_closed);
        srv.listen_unix(path, true);
        if (!s.early) srv.run();
        vector<std::thread> t;
        for (size_t k = 0; k < peers.size(); ++k) t.emplace_back([&, k] { run_peer(peers[k]); });
        if (s.early) { xs_settle(); srv.run(); }
        for (auto &x : t) x.join();
        xs_settle();
        size_t n = peers.size() + (peers[0] == TWO_ECHOES);
        check_ends(n);
        srv.shutdown();
        shut = true;
        check_ends(n);
    }
    kept.clear();
    quiet_t q;
    unlink(path.c_str());
    string o;
    for (auto &c : conns) { char b[64]; snprintf(b, sizeof b, "%d:%zu/%zu/%d%s ", c->id, c->in.size(), c->out.size(), c->completions, c->told ? "t" : ""); o += b; }
    xs_obs("%s", o.c_str());
}
