// C25: listening, accepting, names, options, shutdown of stream sockets, against plain kernel sockets.
#include "seq.h"
#include "ports.h"
#include "cppev/nio.h"
#include <deque>
#include <errno.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <memory>
#include <system_error>
using namespace cppev;
using std::string;

static const char *names[] = {"accept: arrival order and batches, IPv4", "accept, IPv6", "accept, local",
    "names of both ends", "connect attempts", "options, IPv4", "options, IPv6", "options, local",
    "shutdown, IPv4", "shutdown, IPv6", "shutdown, local", "unusable addresses", "blocking mode"};
int seq_nscenarios() { return 13; }
const char *seq_scenario_name(int i) { return names[i]; }

static int acc_err, acc_at = -1;
extern "C" {
int __real_accept(int, sockaddr *, socklen_t *); int __real_accept4(int, sockaddr *, socklen_t *, int);
static bool broken()
{
    if (acc_at < 0 || acc_at-- != 0) return false;
    seq::log("accept fails with %d", acc_err);
    errno = acc_err;
    return true;
}
int __wrap_accept(int a, sockaddr *b, socklen_t *c) { return broken() ? -1 : __real_accept(a, b, c); }
int __wrap_accept4(int a, sockaddr *b, socklen_t *c, int f) { return broken() ? -1 : __real_accept4(a, b, c, f); }
}
namespace
{
void scratch()
{
    static bool done;
    if (done) return;
    done = true;
    string d = "w" + std::to_string(getpid());
    if (mkdir(d.c_str(), 0700) || chdir(d.c_str())) abort();
}
family fams[] = {family::ipv4, family::ipv6, family::local};
const char *ip(family f) { return f == family::ipv4 ? "127.0.0.1" : "::1"; }
int port_of(family f)
{
    static int p;
    if (!p) p = claim_port("..", SOCK_STREAM);
    return p;
}
int af(family f) { return f == family::ipv4 ? AF_INET : f == family::ipv6 ? AF_INET6 : AF_UNIX; }
struct addr { sockaddr_storage s; socklen_t l; };
addr make_addr(family f, int port, const char *path)
{
    addr a;
    memset(&a, 0, sizeof a);
    a.s.ss_family = af(f);
    if (f == family::ipv4) { auto *x = (sockaddr_in *)&a.s; x->sin_port = htons(port); inet_pton(AF_INET, ip(f), &x->sin_addr); a.l = sizeof *x; }
    else if (f == family::ipv6) { auto *x = (sockaddr_in6 *)&a.s; x->sin6_port = htons(port); inet_pton(AF_INET6, ip(f), &x->sin6_addr); a.l = sizeof *x; }
    else { strcpy(((sockaddr_un *)&a.s)->sun_path, path); a.l = sizeof(sockaddr_un); }
    return a;
}
std::tuple<string, int> local_name(int fd, bool peer = false)
{
    sockaddr_storage s;
    socklen_t l = sizeof s;
    if (peer ? getpeername(fd, (sockaddr *)&s, &l) : getsockname(fd, (sockaddr *)&s, &l)) return {"?", errno};
    char b[100] = "";
    int port = 0;
    if (s.ss_family == AF_INET) { inet_ntop(AF_INET, &((sockaddr_in *)&s)->sin_addr, b, sizeof b); port = ntohs(((sockaddr_in *)&s)->sin_port); }
    else if (s.ss_family == AF_INET6) { inet_ntop(AF_INET6, &((sockaddr_in6 *)&s)->sin6_addr, b, sizeof b); port = ntohs(((sockaddr_in6 *)&s)->sin6_port); }
    return {b, port};
}
std::shared_ptr<nsocktcp> server(family f, const char *path = "srv", int backlog = 16)
{
    auto s = nio_factory::get_nsocktcp(f);
    if (f == family::local) s->bind_unix(path, true);
    else if (seq::choose(2)) s->bind(string(ip(f)), port_of(f));
    else s->bind(port_of(f));
    s->listen(backlog);
    return s;
}
bool wait_for(int fd, short ev)
{
    pollfd p = {fd, ev, 0};
    return poll(&p, 1, 5000) == 1;
}
// established connections queued at a listening socket
void wait_queue(int fd, family f, size_t n)
{
    if (f == family::local) return;
    for (int i = 0; i < 5000; ++i)
    {
        tcp_info ti;
        socklen_t l = sizeof ti;
        if (getsockopt(fd, IPPROTO_TCP, TCP_INFO, &ti, &l) || ti.tcpi_unacked >= n) return;
        usleep(1000);
    }
}
void no_timewait(int fd)
{
    linger lg = {1, 0};
    setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
}

void accepting(family f)
{
    auto srv = server(f);
    struct client { std::shared_ptr<nsocktcp> s; int id; };
    std::deque<client> waiting;
    std::vector<std::shared_ptr<nsocktcp>> keep;
    struct tidy { std::vector<std::shared_ptr<nsocktcp>> &k; ~tidy() { for (auto &x : k) if (!x->is_closed()) no_timewait(x->fd()); } } t{keep};
    int id = 0, depth = seq::bound(4, 5);
    acc_at = -1;
    for (int d = 0; d < depth; ++d)
    {
        int op = seq::choose(6);
        switch (op)
        {
        case 0: case 1:   // one or two clients connect
            for (int k = 0; k <= op; ++k)
            {
                auto c = nio_factory::get_nsocktcp(f);
                bool ok = f == family::local ? c->connect_unix("srv") : c->connect(ip(f), port_of(f));
                SEQ_CHECK(ok, "connect to a listening socket fails");
                if (f != family::local) SEQ_CHECK(wait_for(c->fd(), POLLOUT), "never connected");
                SEQ_CHECK(c->check_connect(), "connect to a listening socket fails");
                c->wbuffer().put_string(string(1, 'A' + id));
                c->write_all();
                keep.push_back(c);
                waiting.push_back({c, id++});
            }
            seq::log("%d connect", op + 1);
            break;
        case 2: case 3: case 4: case 5:
        {
            int batch = op == 2 ? 1 : op == 3 ? 2 : 0x7fffffff;
            int skip = 0;
            acc_at = -1;
            if (op == 5)
            {
                static const int errs[] = {EINTR, ECONNABORTED, EMFILE, ENFILE};
                acc_err = errs[seq::choose(4)];
                acc_at = seq::choose(3);
                if (acc_at > (int)waiting.size()) return;
                skip = acc_at;
            }
            wait_queue(srv->fd(), f, waiting.size());
            size_t want = std::min<size_t>(batch, waiting.size());
            bool threw = false;
            std::vector<std::shared_ptr<nsocktcp>> got;
            try { got = batch == 0x7fffffff && seq::choose(2) ? srv->accept() : srv->accept(batch); }
            catch (const std::system_error &e) { threw = true; }
            seq::log("accept(%d) gives %zu%s", batch, got.size(), threw ? " and an error" : "");
            acc_at = -1;
            if (op == 5 && (acc_err == EMFILE || acc_err == ENFILE))
            {
                // what was accepted before the failure is not lost; a failure is an error
                want = skip;
                SEQ_CHECK(threw == (skip == 0), "accept with error %d after %d connections: error raised %d", acc_err, skip, threw);
            }
            else SEQ_CHECK(!threw, "accept raises an error");
            SEQ_CHECK(got.size() == want, "accept(%d) gives %zu connections, %zu are waiting", batch, got.size(), waiting.size());
            for (auto &c : got)
            {
                client &w = waiting.front();
                SEQ_CHECK(c->sockfamily() == f, "accepted socket has another family");
                SEQ_CHECK(fcntl(c->fd(), F_GETFL) & O_NONBLOCK, "accepted socket would block");
                SEQ_CHECK(wait_for(c->fd(), POLLIN), "nothing to read");
                c->read_all();
                string x = c->rbuffer().get_string();
                SEQ_CHECK(x == string(1, 'A' + w.id), "accepted %s before connection %c", seq::show(x).c_str(), 'A' + w.id);
                auto sn = c->sockname(), pn = c->peername();
                auto cs = w.s->sockname(), cp = w.s->peername();
                if (f != family::local)
                {
                    SEQ_CHECK(pn == cs && sn == cp, "the names of both ends differ");
                    SEQ_CHECK(std::get<0>(sn) == ip(f) && std::get<1>(sn) == port_of(f) && std::get<2>(sn) == f, "accepted at another address");
                    SEQ_CHECK(std::make_tuple(std::get<0>(cs), std::get<1>(cs)) == local_name(w.s->fd()), "sockname is wrong");
                    SEQ_CHECK(std::make_tuple(std::get<0>(cp), std::get<1>(cp)) == local_name(w.s->fd(), true), "peername is wrong");
                }
                else SEQ_CHECK(std::get<0>(sn) == "srv" && std::get<0>(pn) == "srv" && std::get<2>(sn) == f, "path of a local connection is wrong");
                keep.push_back(c);
                waiting.pop_front();
            }
            break;
        }
        }
        seq::state(waiting.size() * 100 + id);
    }
}
void naming()
{
    family f = fams[seq::choose(3)];
    static const char *paths[] = {"p", "a.longer.path.of.a.local.socket", "q0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345"};
    const char *path = paths[seq::choose(3)];
    auto srv = nio_factory::get_nsocktcp(f);
    string bound;
    if (f == family::local) { srv->bind_unix(path, true); bound = path; }
    else
    {
        static const char *v4[] = {"127.0.0.1", "0.0.0.0", "127.0.0.1"}, *v6[] = {"::1", "::", "::1"};
        int k = seq::choose(3);
        bound = f == family::ipv4 ? v4[k] : v6[k];
        if (k == 1) srv->bind(port_of(f)); else srv->bind(bound, port_of(f));
    }
    srv->listen();
    auto sn = srv->sockname();
    SEQ_CHECK(std::get<0>(sn) == bound && std::get<2>(sn) == f, "listening at %s instead of %s", std::get<0>(sn).c_str(), bound.c_str());
    if (f != family::local) SEQ_CHECK(std::get<1>(sn) == port_of(f), "listening at port %d", std::get<1>(sn));
    int n = 1 + seq::choose(2);
    for (int i = 0; i < n; ++i)
    {
        auto c = nio_factory::get_nsocktcp(f);
        bool ok = f == family::local ? (seq::choose(2) ? c->connect_unix(path) : c->connect_unix(string(path)))
                                     : (seq::choose(2) ? c->connect(ip(f), port_of(f)) : c->connect(string(ip(f)), port_of(f)));
        SEQ_CHECK(ok, "connect fails");
        if (f != family::local) SEQ_CHECK(wait_for(c->fd(), POLLOUT), "never connected");
        SEQ_CHECK(c->check_connect() && c->get_so_error() == 0, "connect fails");
        auto cp = c->connpeer(), pn = c->peername();
        SEQ_CHECK(std::get<0>(cp) == (f == family::local ? path : ip(f)) && std::get<2>(cp) == f, "connpeer reports %s", std::get<0>(cp).c_str());
        SEQ_CHECK(std::get<0>(pn) == std::get<0>(cp), "peername reports %s", std::get<0>(pn).c_str());
        if (f != family::local) SEQ_CHECK(std::get<1>(cp) == port_of(f) && std::get<1>(pn) == port_of(f), "wrong peer port");
        wait_queue(srv->fd(), f, 1);
        auto a = srv->accept(1);
        SEQ_CHECK(a.size() == 1, "not accepted");
        auto as = a[0]->sockname(), ap = a[0]->peername();
        if (f == family::local) SEQ_CHECK(std::get<0>(as) == path, "accepted socket named %s", std::get<0>(as).c_str());
        else SEQ_CHECK(as == pn && ap == c->sockname(), "the names of both ends differ");
        no_timewait(c->fd());
        no_timewait(a[0]->fd());
    }
}
void connecting()
{
    family f = fams[seq::choose(3)];
    auto c = nio_factory::get_nsocktcp(f);
    int kind = seq::choose(f == family::local ? 4 : 2);
    std::shared_ptr<nsocktcp> srv;
    std::vector<std::shared_ptr<nsocktcp>> fill;
    bool expect = false;
    if (kind == 1) { srv = server(f); expect = true; }
    if (kind == 2) { srv = nio_factory::get_nsocktcp(f); srv->bind_unix("srv", true); }      // bound, not listening
    if (kind == 0 && f == family::local) ::unlink("srv");
    if (kind == 3)
    {
        srv = server(f, "srv", 0);
        for (int i = 0; i < 20; ++i) { fill.push_back(nio_factory::get_nsocktcp(f)); if (!fill.back()->connect_unix("srv")) break; }
    }
    bool ok = f == family::local ? c->connect_unix("srv") : c->connect(ip(f), port_of(f));
    bool established = false;
    if (ok)
    {
        SEQ_CHECK(wait_for(c->fd(), POLLOUT), "the attempt never ends");
        established = c->check_connect();
    }
    std::tuple<string, int> p = {"", 0};
    sockaddr_storage s;
    socklen_t l = sizeof s;
    bool real = getpeername(c->fd(), (sockaddr *)&s, &l) == 0;
    seq::log("connect kind %d: %d %d", kind, ok, established);
    SEQ_CHECK(established == real, "connect reports %s, the connection is %s", established ? "success" : "failure", real ? "there" : "not there");
    SEQ_CHECK(established == expect, "connect reports %s", established ? "success" : "failure");
    auto cp = c->connpeer();
    if (f != family::local) SEQ_CHECK(std::get<0>(cp) == ip(f) && std::get<1>(cp) == port_of(f), "connpeer reports another target");
    else SEQ_CHECK(std::get<0>(cp) == "srv", "connpeer reports another target");
    if (established) no_timewait(c->fd());
}
// -- options: every setter against a twin set up by plain system calls ---------------------------------
struct opt { const char *name; int level, key; };
const opt opts[] = {{"reuseaddr", SOL_SOCKET, SO_REUSEADDR}, {"reuseport", SOL_SOCKET, SO_REUSEPORT}, {"rcvbuf", SOL_SOCKET, SO_RCVBUF},
    {"sndbuf", SOL_SOCKET, SO_SNDBUF}, {"rcvlowat", SOL_SOCKET, SO_RCVLOWAT}, {"sndlowat", SOL_SOCKET, SO_SNDLOWAT}, {"keepalive", SOL_SOCKET, SO_KEEPALIVE},
    {"nodelay", IPPROTO_TCP, TCP_NODELAY}, {"linger", SOL_SOCKET, SO_LINGER}};
constexpr int NO = 9;
string option_state(int fd)
{
    string s;
    for (auto &o : opts)
    {
        int v[2] = {0, 0};
        socklen_t l = o.key == SO_LINGER && o.level == SOL_SOCKET ? sizeof(linger) : sizeof(int);
        int r = getsockopt(fd, o.level, o.key, v, &l);
        s += string(o.name) + "=" + (r ? "error" : std::to_string(v[0]) + "," + std::to_string(v[1])) + " ";
    }
    return s;
}
void options(family f)
{
    auto s = nio_factory::get_nsocktcp(f);
    int twin = socket(af(f), SOCK_STREAM, 0);
    struct closer { int fd; ~closer() { ::close(fd); } } cl{twin};
    static const int sizes[] = {4096, 10000, 1, 300000};
    int depth = seq::bound(3, 4);
    for (int d = 0; d < depth; ++d)
    {
        int o = seq::choose(NO), v;
        int raw, raw_err, err = 0;
        string before = option_state(s->fd());
        if (o == 8)
        {
            static const int lv[] = {0, 1, 30};
            bool on = seq::choose(2);
            int t = lv[seq::choose(3)];
            linger lg = {on, t};
            raw = setsockopt(twin, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
            raw_err = raw ? errno : 0;
            try { if (t == 0 && seq::choose(2)) s->set_so_linger(on); else s->set_so_linger(on, t); } catch (const std::system_error &e) { err = e.code().value(); }
            v = on * 100 + t;
        }
        else
        {
            bool flag = o == 0 || o == 1 || o == 6 || o == 7;
            v = flag ? seq::choose(2) : sizes[seq::choose(o == 4 ? 3 : 4)];
            raw = setsockopt(twin, opts[o].level, opts[o].key, &v, sizeof v);
            raw_err = raw ? errno : 0;
            try
            {
                switch (o)
                {
                case 0: if (v && seq::choose(2)) s->set_so_reuseaddr(); else s->set_so_reuseaddr(v); break;
                case 1: if (v && seq::choose(2)) s->set_so_reuseport(); else s->set_so_reuseport(v); break;
                case 2: s->set_so_rcvbuf(v); break;
                case 3: s->set_so_sndbuf(v); break;
                case 4: s->set_so_rcvlowat(v); break;
                case 5: s->set_so_sndlowat(v); break;
                case 6: if (v && seq::choose(2)) s->set_so_keepalive(); else s->set_so_keepalive(v); break;
                case 7: if (v && seq::choose(2)) s->set_tcp_nodelay(); else s->set_tcp_nodelay(v); break;
                }
            }
            catch (const std::system_error &e) { err = e.code().value(); }
        }
        seq::log("set %s %d: %d", opts[o].name, v, err);
        SEQ_CHECK(err == raw_err, "setting %s to %d: error %d, the system says %d", opts[o].name, v, err, raw_err);
        string got = option_state(s->fd()), want = option_state(twin);
        SEQ_CHECK(got == want, "after setting %s to %d: %s instead of %s", opts[o].name, v, got.c_str(), want.c_str());
        seq::state(seq::hash(got));
        // the getters
        auto rawget = [&](int k, int &e) { int x[2] = {0, 0}; socklen_t l = k == 8 ? sizeof(linger) : sizeof(int); e = getsockopt(twin, opts[k].level, opts[k].key, x, &l) ? errno : 0; return std::make_pair(x[0], x[1]); };
        for (int k = 0; k < NO; ++k)
        {
            int e, ge = 0, x = 0, y = 0;
            auto r = rawget(k, e);
            try
            {
                switch (k)
                {
                case 0: x = s->get_so_reuseaddr(); break;
                case 1: x = s->get_so_reuseport(); break;
                case 2: x = s->get_so_rcvbuf(); break;
                case 3: x = s->get_so_sndbuf(); break;
                case 4: x = s->get_so_rcvlowat(); break;
                case 5: x = s->get_so_sndlowat(); break;
                case 6: x = s->get_so_keepalive(); break;
                case 7: x = s->get_tcp_nodelay(); break;
                case 8: std::tie(x, y) = s->get_so_linger(); break;
                }
            }
            catch (const std::system_error &ex) { ge = ex.code().value(); }
            SEQ_CHECK(ge == e, "reading %s: error %d, the system says %d", opts[k].name, ge, e);
            if (!e) SEQ_CHECK(x == r.first && y == r.second, "reading %s gives %d,%d instead of %d,%d", opts[k].name, x, y, r.first, r.second);
        }
        SEQ_CHECK(s->get_so_error() == 0, "error state");
    }
}
// -- shutdown: against a twin pair shut down by plain system calls ---------------------------------------
void pair_up(family f, int fd[2])
{
    int l = socket(af(f), SOCK_STREAM, 0), one = 1;
    setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    ::unlink("pair");
    addr a = make_addr(f, port_of(f), "pair");
    if (bind(l, (sockaddr *)&a.s, a.l) || listen(l, 4)) { perror("bind"); abort(); }
    fd[0] = socket(af(f), SOCK_STREAM, 0);
    if (connect(fd[0], (sockaddr *)&a.s, a.l)) { perror("connect"); abort(); }
    fd[1] = __real_accept(l, nullptr, nullptr);
    ::close(l);
    for (int i = 0; i < 2; ++i) no_timewait(fd[i]);
}
void shutting(family f)
{
    int p[2], q[2];
    pair_up(f, p);
    pair_up(f, q);
    for (int i = 0; i < 2; ++i) fcntl(q[i], F_SETFL, O_NONBLOCK);
    nsocktcp s[2] = {nsocktcp(p[0], f), nsocktcp(p[1], f)};
    struct closer { int *q; ~closer() { ::close(q[0]); ::close(q[1]); } } cl{q};
    int sent[2] = {0, 0};
    bool wr[2] = {true, true}, rd[2] = {true, true}, broken_[2] = {false, false};
    bool teof[2] = {false, false}, teop[2] = {false, false}, treset[2] = {false, false};
    int depth = seq::bound(4, 5);
    for (int d = 0; d < depth; ++d)
    {
        int op = seq::choose(5), i = seq::choose(2);
        if (op < 3)
        {
            static const shut_mode modes[] = {shut_mode::shut_rd, shut_mode::shut_wr, shut_mode::shut_rdwr};
            static const int raw[] = {SHUT_RD, SHUT_WR, SHUT_RDWR};
            s[i].shutdown(modes[op]);
            ::shutdown(q[i], raw[op]);
            if (op != 1) rd[i] = false;
            if (op != 0) wr[i] = false;
            seq::log("%d shuts down %s", i, op == 0 ? "reading" : op == 1 ? "writing" : "both");
        }
        else if (op == 3)
        {
            s[i].wbuffer().clear();
            s[i].wbuffer().put_string("hello");
            int n = s[i].write_all();
            int m = send(q[i], "hello", 5, MSG_NOSIGNAL), e = m < 0 ? errno : 0;
            if (m < 0) { if (e == EPIPE) teop[i] = true; else if (e == ECONNRESET) treset[i] = true; m = 0; }
            seq::log("%d writes: %d", i, n);
            SEQ_CHECK(n == m, "end %d could write %d bytes, %d expected", i, n, m);
            sent[i] += n;
        }
        else
        {
            // readable when there is data, an end of file or a reset
            if (sent[1 - i] || !wr[1 - i] || !rd[i]) { if (f != family::local) { wait_for(p[i], POLLIN); wait_for(q[i], POLLIN); } }
            int n = s[i].read_all();
            char b[100];
            int m, total = 0;
            while ((m = read(q[i], b, sizeof b)) > 0) total += m;
            if (m == 0) teof[i] = true;
            else if (errno == ECONNRESET) treset[i] = true;
            seq::log("%d reads: %d", i, n);
            SEQ_CHECK(n == total, "end %d read %d bytes, %d expected", i, n, total);
            sent[1 - i] = 0;
        }
        SEQ_CHECK(s[i].eof() == teof[i] && s[i].eop() == teop[i] && s[i].is_reset() == treset[i], "end %d: flags eof %d broken %d reset %d, expected %d %d %d",
            i, s[i].eof(), s[i].eop(), s[i].is_reset(), teof[i], teop[i], treset[i]);
        seq::state(sent[0] + 100 * sent[1] + 10000 * (rd[0] + 2 * rd[1] + 4 * wr[0] + 8 * wr[1] + 16 * teof[0] + 32 * teof[1]));
    }
}
void unusable()
{
    family f = fams[seq::choose(3)];
    auto s = nio_factory::get_nsocktcp(f);
    string what;
    bool refused = false, connecting = seq::choose(2);
    auto name0 = local_name(s->fd());
    bool failed_connect = false;
    try
    {
        if (f == family::local)
        {
            int k = seq::choose(5);
            string p;
            if (k < 3) { static const int ls[] = {108, 109, 5000}; p = string(ls[k], 'x'); }
            else if (k == 3) p = "missing/dir/sock";
            else { p = "existing"; int fd = open("existing", O_CREAT | O_WRONLY, 0600); ::close(fd); }
            what = p.substr(0, 30);
            if (connecting) failed_connect = !s->connect_unix(p);
            else s->bind_unix(p);
            if (k < 3) { struct stat st; SEQ_CHECK(stat(p.substr(0, 107).c_str(), &st), "a path too long was cut"); }
        }
        else
        {
            static const char *bad4[] = {"", "localhost", "256.0.0.1", "1.2.3", "::1", "127.0.0.1 "}, *bad6[] = {"", "localhost", "127.0.0.1", ":::1", "::g", "::1 "};
            static const int ports[] = {-1, 65536, 65536 + 80, -65000};
            int k = seq::choose(10);
            string i = k < 6 ? (f == family::ipv4 ? bad4[k] : bad6[k]) : ip(f);
            int port = k < 6 ? port_of(f) : ports[k - 6];
            what = i + " " + std::to_string(port);
            if (connecting) failed_connect = !s->connect(i, port);
            else s->bind(i, port);
        }
    }
    catch (const std::exception &e) { refused = true; }
    SEQ_CHECK(refused || failed_connect, "%s %s not refused", connecting ? "connect" : "bind", what.c_str());
    if (f != family::local) SEQ_CHECK(local_name(s->fd()) == name0, "bound all the same");
    seq::log("%s %s refused", connecting ? "connect" : "bind", what.c_str());
}
void blocking()
{
    int p[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort();
    nsocktcp s(p[0], family::local);
    for (int d = 0; d < 5; ++d)
    {
        SEQ_CHECK(fcntl(p[0], F_GETFL) & O_NONBLOCK || d, "not non-blocking after construction");
        bool nb = seq::choose(2);
        int fl = fcntl(p[0], F_GETFL);
        if (seq::choose(2)) fcntl(p[0], F_SETFL, fl ^ O_APPEND);
        fl = fcntl(p[0], F_GETFL);
        if (nb) s.set_io_nonblock(); else s.set_io_block();
        SEQ_CHECK(fcntl(p[0], F_GETFL) == (nb ? fl | O_NONBLOCK : fl & ~O_NONBLOCK), "flags %x after setting %s", fcntl(p[0], F_GETFL), nb ? "non-blocking" : "blocking");
    }
    ::close(p[1]);
}
}
void seq_run(int sc)
{
    scratch();
    signal(SIGPIPE, SIG_IGN);
    acc_at = -1;
    switch (sc)
    {
    case 0: case 1: case 2: accepting(fams[sc]); break;
    case 3: naming(); break;
    case 4: connecting(); break;
    case 5: case 6: case 7: options(fams[sc - 5]); break;
    case 8: case 9: case 10: shutting(fams[sc - 8]); break;
    case 11: unusable(); break;
    case 12: blocking(); break;
    }
}
