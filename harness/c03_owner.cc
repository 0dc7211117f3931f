// C03: every sequence of create/close/move/destroy operations; failing factories.
#include "seq.h"
#include "cppev/nio.h"
#include "cppev/event_loop.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <memory>
#include <map>
#include <set>
#include <string>
#include <system_error>
using namespace cppev;
using std::string;

static const char *names[] = {"streams", "TCP sockets", "UDP sockets", "streams and TCP sockets through their bases",
    "failing factories", "event loop and its registrations", "descriptor limit reached"};
int seq_nscenarios() { return 7; }
const char *seq_scenario_name(int i) { return names[i]; }
bool in_lib;
bool counting = false;
int fail_at = -1, fail_err, ncalls;
static bool inject(const char *what)
{
    if (!counting) return false;
    if (ncalls++ != fail_at) return false;
    seq::log("%s fails with errno %d", what, fail_err);
    errno = fail_err;
    return true;
}
extern "C" {
int __real_socket(int, int, int); int __real_pipe(int *); int __real_pipe2(int *, int); int __real_accept(int, sockaddr *, socklen_t *);
int __real_accept4(int, sockaddr *, socklen_t *, int); int __real_fcntl(int, int, ...); int __real_open(const char *, int, ...);
int __real_mkfifo(const char *, mode_t); int __real_ioctl(int, unsigned long, ...); int __real_close(int);
int __wrap_socket(int a, int b, int c) { return inject("socket") ? -1 : __real_socket(a, b, c); }
int __wrap_pipe(int *p) { return inject("pipe") ? -1 : __real_pipe(p); }
int __wrap_pipe2(int *p, int f) { return inject("pipe2") ? -1 : __real_pipe2(p, f); }
int __wrap_accept(int a, sockaddr *b, socklen_t *c) { return inject("accept") ? -1 : __real_accept(a, b, c); }
int __wrap_accept4(int a, sockaddr *b, socklen_t *c, int f) { return inject("accept4") ? -1 : __real_accept4(a, b, c, f); }
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long x = va_arg(ap, long); va_end(ap);
    return inject("fcntl") ? -1 : __real_fcntl(fd, cmd, x);
}
int __wrap_ioctl(int fd, unsigned long cmd, ...)
{
    va_list ap; va_start(ap, cmd); long x = va_arg(ap, long); va_end(ap);
    return inject("ioctl") ? -1 : __real_ioctl(fd, cmd, x);
}
int __wrap_open(const char *p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    return inject("open") ? -1 : __real_open(p, fl, m);
}
int __wrap_mkfifo(const char *p, mode_t m) { return inject("mkfifo") ? -1 : __real_mkfifo(p, m); }
}
// every close of a descriptor number must hit a descriptor of the object closing it
static std::map<int, string> *live_fds;    // number -> identity, as the model sees it
static std::set<string> *closed_now;
static string ident(int fd)
{
    struct stat st;
    if (syscall(SYS_fstat, fd, &st)) return "";
    return std::to_string(st.st_dev) + ":" + std::to_string(st.st_ino);
}
static bool watch;
extern "C" int __wrap_close(int fd)
{
    if (watch)
    {
        string id = ident(fd);
        SEQ_CHECK(id != "", "closes descriptor %d which is not open", fd);
        SEQ_CHECK(live_fds->count(fd) && (*live_fds)[fd] == id, "closes descriptor %d which belongs to somebody else by now", fd);
        live_fds->erase(fd);
    }
    return __real_close(fd);
}
namespace
{
string scratch;
void in_scratch()
{
    if (!scratch.empty()) return;
    scratch = "w" + std::to_string(getpid());     // inside the scratch directory of the check
    if (mkdir(scratch.c_str(), 0700) || chdir(scratch.c_str())) abort();
}
std::set<std::pair<int, string>> open_fds()
{
    std::set<std::pair<int, string>> r;
    for (int i = 0; i < 200; ++i) { string s = ident(i); if (s != "") r.insert({i, s}); }
    return r;
}

struct slot_model
{
    bool exists = false, owns = false, closed = false;
    int fd = -1;
    string r, w, path;
    bool eof = false, eop = false, reset = false;
    family fam = family::local;
};
template <typename T> struct kit;
template <> struct kit<nstream>
{
    static nstream *make(int fd, family) { return new nstream(fd); }
    static constexpr bool stream = true, sock = false;
    static int type() { return SOCK_STREAM; }
};
template <> struct kit<nsocktcp>
{
    static nsocktcp *make(int fd, family f) { return new nsocktcp(fd, f); }
    static constexpr bool stream = true, sock = true;
    static int type() { return SOCK_STREAM; }
};
template <> struct kit<nsockudp>
{
    static nsockudp *make(int fd, family f) { return new nsockudp(fd, f); }
    static constexpr bool stream = false, sock = true;
    static int type() { return SOCK_DGRAM; }
};
constexpr int N = 3;
int pathno;
template <typename T> string address(T &x)
{
    if constexpr (std::is_same<T, nsocktcp>::value) return std::get<0>(x.connpeer());
    return "";
}
void set_address(nsocktcp &x, const string &p) { x.bind_unix(p, true); }
void set_address(nsockudp &x, const string &p) { x.bind_unix(p, true); }
void set_address(nstream &x, const string &p) {}

event_loop *loops[2];

template <typename T> void run(bool)
{
    std::map<int, string> live;
    live_fds = &live;
    std::vector<int> mine;         // descriptors of the harness
    std::map<int, string> victims; // opened into numbers that were closed
    std::unique_ptr<T> o[N];
    slot_model m[N];
    string put = "abc";
    int evno[N] = {-1, -1, -1};
    auto base = open_fds();
    struct tidy
    {
        std::vector<int> &a; std::map<int, string> &b;
        ~tidy() { for (int f : a) __real_close(f); for (auto &v : b) __real_close(v.first); }
    } tidy_up{mine, victims};
    auto check = [&](const char *op)
    {
        watch = false;
        for (int i = 0; i < N; ++i)
        {
            if (!m[i].exists) continue;
            T &x = *o[i];
            if (m[i].owns)
            {
                SEQ_CHECK(live.count(m[i].fd) && ident(m[i].fd) == live[m[i].fd], "after %s: descriptor of object %d is not open any more", op, i);
                SEQ_CHECK(x.fd() == m[i].fd, "after %s: object %d has descriptor %d instead of %d", op, i, x.fd(), m[i].fd);
                SEQ_CHECK(!x.is_closed(), "after %s: object %d says it is closed", op, i);
                if (evno[i] >= 0) SEQ_CHECK(&x.evlp() == loops[evno[i]], "after %s: object %d lost its event loop", op, i);
            }
            else SEQ_CHECK(x.is_closed(), "after %s: object %d says it is open but owns nothing", op, i);
            SEQ_CHECK(x.rbuffer().get_string(-1, false) == m[i].r, "after %s: object %d has unread %s instead of %s", op, i,
                seq::show(x.rbuffer().get_string(-1, false)).c_str(), seq::show(m[i].r).c_str());
            SEQ_CHECK(x.wbuffer().get_string(-1, false) == m[i].w, "after %s: object %d has unsent %s instead of %s", op, i,
                seq::show(x.wbuffer().get_string(-1, false)).c_str(), seq::show(m[i].w).c_str());
            if constexpr (kit<T>::stream)
                if (m[i].owns) SEQ_CHECK(x.eof() == m[i].eof && x.is_reset() == m[i].reset && x.eop() == m[i].eop, "after %s: object %d lost its status flags", op, i);
            if constexpr (kit<T>::sock)
                if (m[i].owns)
                {
                    SEQ_CHECK(x.sockfamily() == m[i].fam, "after %s: object %d lost its family", op, i);
                    if constexpr (std::is_same<T, nsocktcp>::value)
                        SEQ_CHECK(std::get<0>(x.connpeer()) == m[i].path && std::get<0>(x.sockname()) == m[i].path,
                            "after %s: object %d has address %s instead of %s", op, i, std::get<0>(x.connpeer()).c_str(), m[i].path.c_str());
                }
        }
        for (auto &v : victims) SEQ_CHECK(ident(v.first) == v.second, "after %s: descriptor %d of an uninvolved user was closed", op, v.first);
        std::set<std::pair<int, string>> want = base;
        for (auto &l : live) want.insert(l);
        for (auto &v : victims) want.insert(v);
        for (int f : mine) want.insert({f, ident(f)});
        // what live says is open is exactly what objects own
        size_t owned = 0;
        for (int i = 0; i < N; ++i) owned += m[i].exists && m[i].owns;
        SEQ_CHECK(live.size() == owned, "after %s: %zu descriptors are open, %zu are owned by an object", op, live.size(), owned);
        SEQ_CHECK(open_fds() == want, "after %s: unexpected set of open descriptors", op);
        uint64_t h = 0;
        for (int i = 0; i < N; ++i)
            h = seq::hash(m[i].r + "|" + m[i].w, h * 31 + m[i].exists + 2 * m[i].owns + 4 * m[i].eof + 32 * m[i].eop + 64 * m[i].reset + 8 * (m[i].path != "") + 16 * m[i].closed);
        seq::state(h);
    };
    // a descriptor number was given back: somebody else takes it at once
    auto reuse = [&]
    {
        if (victims.size() < 4)
        {
            int v = __real_socket(AF_UNIX, SOCK_DGRAM, 0);
            victims[v] = ident(v);
        }
    };
    auto lose = [&](int i) { if (m[i].owns) { m[i].owns = false; return true; } return false; };
    int depth = kit<T>::stream && kit<T>::sock ? seq::bound(5, 6) : seq::bound(5, 6);
    int made = 0;
    for (int d = 0; d < depth; ++d)
    {
        int op = seq::choose(8);
        int i = 0, j = 0;
        char what[80];
        bool freed = false;
        switch (op)
        {
        case 0: // create in the first free slot
        {
            for (i = 0; i < N && m[i].exists; ++i) ;
            if (i == N || made == 3) return;
            ++made;
            int p[2];
            if (socketpair(AF_UNIX, kit<T>::type(), 0, p)) abort();
            mine.push_back(p[1]);
            live[p[0]] = ident(p[0]);
            o[i].reset(kit<T>::make(p[0], family::local));
            m[i] = slot_model();
            m[i].exists = m[i].owns = true;
            m[i].fd = p[0];
            if constexpr (kit<T>::stream)
            {
                // the flags differ, too: end of file, broken pipe, reset
                if (made == 2)
                {
                    __real_close(p[1]);
                    mine.pop_back();
                    o[i]->wbuffer().put_string("q");
                    o[i]->write_all();
                    o[i]->wbuffer().clear();
                    m[i].eop = true;
                }
                else if (made == 3)
                {
                    if (::write(p[0], "q", 1) != 1) abort();
                    __real_close(p[1]);      // closed with something unread
                    mine.pop_back();
                    o[i]->read_all();
                    o[i]->rbuffer().clear();
                    m[i].reset = o[i]->is_reset();
                    SEQ_CHECK(m[i].reset, "a reset is not noticed");
                    m[i].eof = o[i]->eof();
                }
            }
            // contents differ between the objects
            string x = put.substr(0, made) + "r", y = put.substr(made - 1) + string("\0w", 2);
            o[i]->rbuffer().put_string(x); m[i].r = x;
            o[i]->wbuffer().put_string(y); m[i].w = y;
            evno[i] = made % 2;
            o[i]->set_evlp(*loops[evno[i]]);
            if (made == 1)
            {
                if constexpr (kit<T>::stream)
                {
                    __real_close(p[1]);
                    mine.pop_back();
                    o[i]->read_all();
                    m[i].eof = true;
                }
            }
            if (made != 2)
            {
                if constexpr (kit<T>::sock)
                {
                    m[i].path = string("p") + std::to_string(made);
                    set_address(*o[i], m[i].path);
                }
            }
            snprintf(what, sizeof what, "create %d", i);
            break;
        }
        case 1: // close
            i = seq::choose(N);
            if (!m[i].exists) return;
            watch = true;
            o[i]->close();
            watch = false;
            freed = lose(i);
            m[i].closed = true;
            snprintf(what, sizeof what, "close %d", i);
            break;
        case 2: // destroy
            i = seq::choose(N);
            if (!m[i].exists) return;
            watch = true;
            o[i].reset();
            watch = false;
            freed = lose(i);
            m[i] = slot_model();
            snprintf(what, sizeof what, "destroy %d", i);
            break;
        case 3: case 4: // move assignment (3), move construction (4)
        {
            i = seq::choose(N); j = seq::choose(N);
            if (!m[i].exists || i == j || m[j].exists != (op == 3)) return;
            watch = true;
            if (op == 3) *o[j] = std::move(*o[i]);
            else o[j].reset(new T(std::move(*o[i])));
            watch = false;
            bool f = m[j].owns;
            freed = f;
            m[j] = m[i];
            evno[j] = evno[i];
            m[i].owns = false;
            m[i].r = m[i].w = "";
            m[i].closed = true;
            snprintf(what, sizeof what, "move %s %d -> %d", op == 3 ? "assignment" : "construction", i, j);
            break;
        }
        case 5: // move onto itself
        {
            i = seq::choose(N);
            if (!m[i].exists) return;
            watch = true;
            T &a = *o[i], &b = *o[i];
            a = std::move(b);
            watch = false;
            snprintf(what, sizeof what, "self move of %d", i);
            break;
        }
        case 6: // swap
            i = seq::choose(N - 1); j = i + 1 + seq::choose(N - 1 - i);
            if (!m[i].exists || !m[j].exists) return;
            watch = true;
            std::swap(*o[i], *o[j]);
            watch = false;
            std::swap(m[i], m[j]);
            std::swap(evno[i], evno[j]);
            snprintf(what, sizeof what, "swap %d %d", i, j);
            break;
        case 7: // use the buffers of an object, also of one that was moved from
            i = seq::choose(N);
            if (!m[i].exists) return;
            o[i]->wbuffer().put_string("Z"); m[i].w += "Z";
            o[i]->rbuffer().put_string("Y"); m[i].r += "Y";
            o[i]->rbuffer().consume(1); m[i].r = m[i].r.substr(1);
            snprintf(what, sizeof what, "use buffers of %d", i);
            break;
        }
        seq::log("%s", what);
        check(what);
        if (freed) { reuse(); check("a descriptor number was taken by somebody else"); }
    }
    for (int i = 0; i < N; ++i)
        if (m[i].exists)
        {
            watch = true; o[i].reset(); watch = false;
            bool f = lose(i); m[i] = slot_model();
            if (f) reuse();
            check("destruction at the end");
        }
}

void factories()
{
    static const int errs[] = {EMFILE, ENFILE, EINVAL};
    fail_err = errs[seq::choose(3)];
    int which = seq::choose(10);
    std::shared_ptr<nsocktcp> srv;
    std::vector<int> clients;
    unlink("ff"); unlink("ls");
    if (which == 9)
    {
        srv = nio_factory::get_nsocktcp(family::local);
        srv->bind_unix("ls", true);
        srv->listen();
        for (int i = 0; i < 2; ++i)
        {
            int c = __real_socket(AF_UNIX, SOCK_STREAM, 0);
            sockaddr_un a = {AF_UNIX, "ls"};
            if (connect(c, (sockaddr *)&a, sizeof a)) abort();
            clients.push_back(c);
        }
    }
    auto before = open_fds();
    fail_at = seq::choose(14) - 1;      // -1: no failure
    ncalls = 0;
    bool threw = false;
    auto call = [&]
    {
        switch (which)
        {
        case 0: { counting = true; auto x = nio_factory::get_nsocktcp(family::ipv4); counting = false; SEQ_CHECK(x->fd() >= 0 && !x->is_closed(), "no socket"); break; }
        case 1: { counting = true; auto x = nio_factory::get_nsocktcp(family::ipv6); counting = false; SEQ_CHECK(x->sockfamily() == family::ipv6, "wrong family"); break; }
        case 2: { counting = true; auto x = nio_factory::get_nsocktcp(family::local); counting = false; SEQ_CHECK(x->sockfamily() == family::local, "wrong family"); break; }
        case 3: { counting = true; auto x = nio_factory::get_nsockudp(family::ipv4); counting = false; break; }
        case 4: { counting = true; auto x = nio_factory::get_nsockudp(family::ipv6); counting = false; break; }
        case 5: { counting = true; auto x = nio_factory::get_nsockudp(family::local); counting = false; break; }
        case 6: { counting = true; auto x = nio_factory::get_pipes(); counting = false; SEQ_CHECK(x.size() == 2, "not two ends"); break; }
        case 7: { counting = true; auto x = nio_factory::get_fifos("ff"); counting = false; SEQ_CHECK(x.size() == 2, "not two ends"); break; }
        case 8: { mkdir("dd", 0700); counting = true; auto x = nio_factory::get_fifos("dd"); counting = false; break; }
        case 9:
        {
            counting = true;
            auto x = srv->accept();
            counting = false;
            auto y = srv->accept();
            // with one failing call in between, a connection may be dropped, never more
            SEQ_CHECK(x.size() + y.size() + (fail_at >= 0 ? 1 : 0) >= 2, "connections lost by accept");
            break;
        }
        }
    };
    try { call(); }
    catch (const std::exception &e) { threw = true; }
    counting = false;
    if (fail_at >= ncalls) seq::discard();
    seq::log("factory %d, call %d of %d fails: %s", which, fail_at, ncalls, threw ? "error raised" : "ok");
    if (fail_at < 0) SEQ_CHECK(threw == (which == 8), "factory %d failed without reason", which);
    auto after = open_fds();
    SEQ_CHECK(after == before, "factory %d, failure of call %d: %zu descriptors open instead of %zu", which, fail_at, after.size(), before.size());
    for (int c : clients) __real_close(c);
    seq::state(which * 1000 + fail_at * 10 + threw);
}
}
#include <sys/resource.h>
namespace
{
// real failures: every number of free descriptors
void limits()
{
    int which = seq::choose(8), spare = seq::choose(4);
    unlink("ff");
    auto before = open_fds();
    rlimit old;
    getrlimit(RLIMIT_NOFILE, &old);
    int top = 0;
    for (auto &f : before) top = std::max(top, f.first);
    rlimit r = old;
    // fill the holes so that exactly `spare` numbers are left
    std::vector<int> fill;
    for (int k = (int)before.size(); k <= top; ++k) fill.push_back(__real_socket(AF_UNIX, SOCK_DGRAM, 0));
    auto full = open_fds();
    r.rlim_cur = full.rbegin()->first + 1 + spare;
    setrlimit(RLIMIT_NOFILE, &r);
    bool threw = false;
    try
    {
        switch (which)
        {
        case 0: nio_factory::get_nsocktcp(family::ipv4); break;
        case 1: nio_factory::get_nsockudp(family::ipv6); break;
        case 2: nio_factory::get_nsocktcp(family::local); break;
        case 3: nio_factory::get_pipes(); break;
        case 4: nio_factory::get_fifos("ff"); break;
        case 5: { event_loop l; break; }
        case 6: { event_loop l; auto p = nio_factory::get_pipes(); l.fd_register(p[0], fd_event::fd_readable, [](const std::shared_ptr<nio> &) {}); break; }
        case 7: { event_loop l; l.stop_loop_forever(); l.loop_forever(); break; }
        }
    }
    catch (const std::exception &) { threw = true; }
    setrlimit(RLIMIT_NOFILE, &old);
    static const int need[] = {1, 1, 1, 2, 2, 1, 3, 3};
    if (spare >= 3) SEQ_CHECK(!threw, "fails although %d descriptors are free", spare);
    (void)need;
    SEQ_CHECK(open_fds() == full, "case %d with %d free descriptors (error: %d) leaves descriptors open", which, spare, threw);
    for (int f : fill) __real_close(f);
}
// registrations keep the descriptor open as long as they exist, and no longer
void loop_run()
{
    auto before = open_fds();
    {
        std::unique_ptr<event_loop> l(new event_loop);
        auto p = nio_factory::get_pipes();
        std::shared_ptr<nio> rd = p[0], wr = p[1];
        int fr = rd->fd();
        string id = ident(fr);
        bool reg = false, gone = false;
        int depth = seq::bound(4, 6);
        for (int d = 0; d < depth && !gone; ++d)
        {
            int op = seq::choose(5);
            if (op == 0 && rd && !reg && !rd->is_closed()) { l->fd_register(rd, fd_event::fd_readable, [](const std::shared_ptr<nio> &) {}); reg = true; }
            else if (op == 1 && rd && reg && rd->evlp().ev_loads() == 1) { l->fd_remove(rd); reg = false; }
            else if (op == 2 && rd) { rd.reset(); p.clear(); wr.reset(); if (!reg) gone = true; }
            else if (op == 3) { if (l->ev_loads()) l->loop_once(0); }
            else if (op == 4) { l.reset(); gone = true; break; }
            else return;
            bool open = ident(fr) == id;
            if (rd || reg) SEQ_CHECK(open, "descriptor closed although it is still in use");
            else SEQ_CHECK(!open, "descriptor still open although nobody owns it");
        }
    }
    SEQ_CHECK(open_fds() == before, "descriptors left open");
}
}
void seq_run(int sc)
{
    signal(SIGPIPE, SIG_IGN);
    in_scratch();
    watch = counting = false;
    if (!loops[0]) { loops[0] = new event_loop; loops[1] = new event_loop; }
    switch (sc)
    {
    case 0: run<nstream>(true); break;
    case 1: run<nsocktcp>(true); break;
    case 2: run<nsockudp>(false); break;
    case 3:
    {
        // a socket moved into a stream through the common base
        int p[2];
        auto before = open_fds();
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort();
        {
            nsocktcp t(p[0], family::local);
            t.rbuffer().put_string("r"); t.wbuffer().put_string("w");
            int how = seq::choose(3);
            if (how == 0)
            {
                nstream s(std::move(t));
                SEQ_CHECK(s.fd() == p[0] && s.rbuffer().get_string() == "r" && s.wbuffer().get_string() == "w" && t.is_closed(), "socket moved into a stream lost something");
            }
            else if (how == 1)
            {
                nstream s(p[1]);
                static_cast<nstream &>(t) = std::move(s);
                SEQ_CHECK(t.fd() == p[1] && ident(p[0]) == "" && s.is_closed() && t.rbuffer().size() == 0, "stream moved into a socket through its base lost something");
                p[1] = -1;
            }
            else
            {
                nsock s(std::move(static_cast<nsock &>(t)));
                SEQ_CHECK(s.fd() == p[0] && s.rbuffer().get_string() == "r" && s.wbuffer().get_string() == "w" && t.is_closed(), "socket moved into its base lost something");
            }
        }
        if (p[1] >= 0) __real_close(p[1]);
        SEQ_CHECK(open_fds() == before, "descriptors left open");
        break;
    }
    case 4: factories(); break;
    case 5: loop_run(); break;
    case 6: limits(); break;
    }
}
