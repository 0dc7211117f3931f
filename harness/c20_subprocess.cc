// C20: a subprocess' output, input and status under every interleaving with the parent's polling. The child is a real forked
// process whose descriptors are operated, step by step, by a controlled thread (the driver).
#include "xs.h"
#include "cppev/subprocess.h"
#include <errno.h>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <string>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <system_error>
#include <thread>
#include <unistd.h>
#include <vector>
using cppev::subp_open;

namespace
{
// ---- the child: hands its standard streams to the driver and waits to be told how to end
const int CTL = 810;                // child's end of the control socket, driver's is CTL + 1
void child_main()
{
    for (int fd = 0; fd < 400; ++fd)
        if (fd > 2 && syscall(SYS_fcntl, fd, F_GETFD) >= 0 && (syscall(SYS_fcntl, fd, F_GETFD) & FD_CLOEXEC)) syscall(SYS_close, fd);
    char c = 'x';
    struct iovec v = {&c, 1};
    union { char b[CMSG_SPACE(3 * sizeof(int))]; struct cmsghdr h; } u;
    memset(&u, 0, sizeof u);
    struct msghdr m;
    memset(&m, 0, sizeof m);
    m.msg_iov = &v; m.msg_iovlen = 1; m.msg_control = u.b; m.msg_controllen = sizeof u.b;
    struct cmsghdr *h = CMSG_FIRSTHDR(&m);
    h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(3 * sizeof(int));
    int fds[3] = {0, 1, 2};
    memcpy(CMSG_DATA(h), fds, sizeof fds);
    if (syscall(SYS_sendmsg, CTL, &m, 0) != 1) syscall(SYS_exit_group, 99);
    for (int fd = 0; fd < 800; ++fd) syscall(SYS_close, fd);
    syscall(SYS_close, CTL + 1);
    syscall(SYS_write, CTL, "y", 1);          // nothing but the driver holds the streams now
    unsigned char cmd[2];
    if (syscall(SYS_read, CTL, cmd, 2) != 2) syscall(SYS_exit_group, 98);
    if (cmd[0] == 'k')
    {
        struct { void *h; unsigned long f; void *r; unsigned long mask; } sa = {nullptr, 0, nullptr, 0};
        syscall(SYS_rt_sigaction, cmd[1], &sa, nullptr, 8);
        unsigned long none = 0;
        syscall(SYS_rt_sigprocmask, SIG_SETMASK, &none, nullptr, 8);
        syscall(SYS_kill, syscall(SYS_getpid), cmd[1]);
        for (;;) syscall(SYS_pause);
    }
    syscall(SYS_exit_group, cmd[1]);
}
// ---- the driver
struct op { char k; int fd; std::string s; int n; };      // w: write s to fd; r: read n bytes; e: echo n bytes from 0 to fd; c: close fd; x: exit n; p: pause; z: pipe of n bytes
std::vector<op> script;
int sig_pending;
std::string got;                     // what the child read
bool ended;
int status_expected;
int cfd[3];
struct want { int fd; short ev; } waiting;
int ready(void *p)
{
    want *w = (want *)p;
    if (sig_pending) return 1;
    if (w->fd < 0) return 0;
    struct pollfd f = {w->fd, w->ev, 0};
    return syscall(SYS_poll, &f, 1, 0) > 0;
}
int kid_up(void *p) { return xs_nkids() > *(int *)p; }
void end_child(char how, int n, int kid)
{
    for (int i = 0; i < 3; ++i) if (cfd[i] >= 0) { close(cfd[i]); cfd[i] = -1; }
    xs_point(&ended);
    if (how == 'x' && sig_pending) { how = 'k'; n = sig_pending; }
    unsigned char cmd[2] = {(unsigned char)how, (unsigned char)n};
    if (syscall(SYS_write, CTL + 1, cmd, 2) != 2) xs_fail("the driver lost its child");
    siginfo_t si;
    syscall(SYS_waitid, P_PID, xs_real_pid(kid), &si, WEXITED | WNOWAIT, 0);
    status_expected = how == 'x' ? n << 8 : n;
    ended = true;
    xs_point(&ended);
}
bool wait_for(int fd, short ev) { want w = {fd, ev}; xs_wait_until(ready, &w, "child io"); return !sig_pending; }
void put(int fd, const std::string &s, bool &alive)
{
    size_t at = 0;
    while (alive && at < s.size())
    {
        if (!(alive = wait_for(cfd[fd], POLLOUT))) return;
        int in = 0;
        ioctl(cfd[fd], FIONREAD, &in);
        size_t room = in ? 4096 : (size_t)fcntl(cfd[fd], F_GETPIPE_SZ);
        ssize_t n = write(cfd[fd], s.data() + at, std::min(room, s.size() - at));
        if (n <= 0) xs_fail("the child cannot write to its descriptor %d: %s", fd, strerror(errno));
        at += n;
    }
}
void driver(int kid)
{
    xs_vproc(1 + kid);
    xs_wait_until(kid_up, &kid, "fork");
    char c; struct iovec v = {&c, 1};
    union { char b[CMSG_SPACE(3 * sizeof(int))]; struct cmsghdr h; } u;
    struct msghdr m;
    memset(&m, 0, sizeof m);
    m.msg_iov = &v; m.msg_iovlen = 1; m.msg_control = u.b; m.msg_controllen = sizeof u.b;
    if (syscall(SYS_recvmsg, CTL + 1, &m, MSG_CMSG_CLOEXEC) != 1 || !CMSG_FIRSTHDR(&m)) xs_fail("the child did not come up with three standard streams");
    char y = 0;
    if (syscall(SYS_read, CTL + 1, &y, 1) != 1 || y != 'y') xs_fail("the child did not come up");
    int in[3];
    memcpy(in, CMSG_DATA(CMSG_FIRSTHDR(&m)), sizeof in);
    for (int i = 0; i < 3; ++i)
    {
        cfd[i] = (int)syscall(SYS_fcntl, in[i], F_DUPFD_CLOEXEC, 820);
        syscall(SYS_close, in[i]);
        syscall(SYS_fcntl, cfd[i], F_SETPIPE_SZ, 4096);
    }
    bool alive = true;
    for (auto &o : script)
    {
        if (!alive) break;
        switch (o.k)
        {
        case 'w': put(o.fd, o.s, alive); break;
        case 'r': case 'e':
            for (int left = o.n; alive && left; )
            {
                if (!(alive = wait_for(cfd[0], POLLIN))) break;
                char b[4096];
                ssize_t n = read(cfd[0], b, std::min<int>(left, sizeof b));
                if (n <= 0) { alive = false; break; }
                got.append(b, n);
                left -= n;
                if (o.k == 'e') put(o.fd, std::string(b, n), alive);
            }
            break;
        case 'z': fcntl(cfd[o.fd], F_SETPIPE_SZ, o.n); break;
        case 'c': close(cfd[o.fd]); cfd[o.fd] = -1; break;
        case 'p': alive = wait_for(-1, 0); break;
        case 's': { struct timespec t = {0, o.n * 1000000l}; nanosleep(&t, nullptr); break; }
        case 'x': end_child('x', o.n, kid); return;
        }
        if (sig_pending) alive = false;
    }
    end_child('k', sig_pending ? sig_pending : SIGPIPE, kid);
}
#ifdef FDS
int nfds() { int n = 0; for (int i = 0; i < 256; ++i) n += syscall(SYS_fcntl, i, F_GETFD) >= 0; return n; }
#else
int nfds() { return 0; }     // descriptors are judged by C21
#endif
std::vector<int> fail_call; int fail_err, nth, count_;
int env(int call, int, size_t len, long *ret, int *err, size_t *, const void *)
{
    if (call == XC_KILL) { sig_pending = (int)len; *ret = 0; return 1; }
    for (int c : fail_call)
        if (c == call && count_++ == nth) { *ret = -1; *err = fail_err; return 1; }
    return 0;
}
std::string blob(int n, int seed) { std::string s; for (int i = 0; i < n; ++i) s += (char)((i * 7 + seed + i / 256) & 0xff); return s; }

struct scen { const char *name; std::vector<op> script; std::string out, err, in; int mode, bound, deep; };
enum { WAIT, CMD, INPUT, INPUT2, KILL, TERM, POLLING, LATE, MOVED, TERM_LATE, INPUT_LATE, INTERVAL };
const std::vector<scen> &scens()
{
    static const std::string B = blob(9000, 1), C = blob(5000, 77), Z = std::string("a\0b\0\0c", 6), D = blob(65536, 5), E = blob(20000, 9);
    static const std::vector<scen> v = {
        {"exit at once", {{'x', 0, "", 0}}, "", "", "", WAIT, 4, 7},
        {"exit with a status", {{'x', 0, "", 3}}, "", "", "", WAIT, 4, 7},
        {"short output", {{'w', 1, "hello", 0}, {'x', 0, "", 0}}, "hello", "", "", WAIT, 4, 6},
        {"output and errors", {{'w', 1, "out", 0}, {'w', 2, "err", 0}, {'w', 1, "put", 0}, {'x', 0, "", 255}}, "output", "err", "", WAIT, 3, 5},
        {"long output", {{'w', 1, B, 0}, {'x', 0, "", 1}}, B, "", "", WAIT, 2, 4},
        {"long errors, then output", {{'w', 2, B, 0}, {'w', 1, "x", 0}, {'x', 0, "", 0}}, "x", B, "", WAIT, 2, 4},
        {"long both", {{'w', 1, C, 0}, {'w', 2, B, 0}, {'x', 0, "", 0}}, C, B, "", WAIT, 2, 3},
        {"outputs closed early", {{'w', 1, "x", 0}, {'c', 1, "", 0}, {'w', 2, "y", 0}, {'c', 2, "", 0}, {'s', 0, "", 120}, {'x', 0, "", 9}}, "x", "y", "", WAIT, 3, 5},
        {"NUL bytes", {{'w', 1, Z, 0}, {'w', 2, Z, 0}, {'x', 0, "", 0}}, Z, Z, "", WAIT, 3, 5},
        {"exec_cmd", {{'w', 1, "out", 0}, {'w', 2, "err", 0}, {'x', 0, "", 2}}, "out", "err", "", CMD, 4, 6},
        {"exec_cmd, NUL bytes", {{'w', 1, Z, 0}, {'w', 2, Z, 0}, {'x', 0, "", 0}}, Z, Z, "", CMD, 3, 5},
        {"exec_cmd, long output", {{'w', 1, B, 0}, {'w', 2, C, 0}, {'x', 0, "", 0}}, B, C, "", CMD, 2, 3},
        {"killed by itself", {{'w', 1, "x", 0}}, "x", "", "", WAIT, 3, 5},
        {"input echoed", {{'e', 1, "", 5}, {'x', 0, "", 0}}, "input", "", "input", INPUT, 3, 5},
        {"long input echoed", {{'e', 1, "", 9000}, {'x', 0, "", 0}}, B, "", B, INPUT, 1, 3},
        {"long input read late", {{'s', 0, "", 120}, {'r', 0, "", 9000}, {'x', 0, "", 4}}, "", "", B, INPUT, 2, 4},
        {"input in two parts", {{'r', 0, "", 9000}, {'w', 1, "done", 0}, {'x', 0, "", 0}}, "done", "", B, INPUT2, 2, 4},
        {"input with NUL bytes", {{'e', 2, "", 6}, {'x', 0, "", 0}}, "", Z, Z, INPUT, 3, 5},
        {"input not read", {{'w', 1, "no", 0}, {'x', 0, "", 0}}, "no", "", "", INPUT_LATE, 3, 5},
        {"killed", {{'w', 1, "up", 0}, {'p', 0, "", 0}}, "up", "", "", KILL, 3, 5},
        {"terminated", {{'p', 0, "", 0}}, "", "", "", TERM, 3, 5},
        {"terminated or ended by itself", {{'w', 1, "x", 0}, {'x', 0, "", 5}}, "", "", "", TERM_LATE, 4, 6},
        {"polled", {{'w', 1, "x", 0}, {'x', 0, "", 7}}, "x", "", "", POLLING, 4, 6},
        {"polled late", {{'w', 1, "x", 0}, {'w', 2, "y", 0}, {'x', 0, "", 7}}, "x", "y", "", LATE, 4, 6},
        {"a full pipe of output", {{'z', 1, "", 65536}, {'w', 1, D, 0}, {'x', 0, "", 1}}, D, "", "", WAIT, 2, 4},
        {"bursts on both outputs", {{'z', 1, "", 65536}, {'z', 2, "", 65536}, {'w', 1, E, 0}, {'w', 2, D, 0}, {'x', 0, "", 0}}, E, D, "", WAIT, 2, 4},
        {"more than a full pipe of output", {{'z', 1, "", 65536}, {'w', 1, D + E, 0}, {'x', 0, "", 0}}, D + E, "", "", WAIT, 2, 4},
        {"exec_cmd, bursts", {{'z', 1, "", 65536}, {'z', 2, "", 65536}, {'w', 2, E, 0}, {'w', 1, D, 0}, {'x', 0, "", 6}}, D, E, "", CMD, 2, 4},
        {"a burst of input", {{'z', 0, "", 65536}, {'r', 0, "", 20000}, {'x', 0, "", 0}}, "", "", E, INPUT, 2, 4},
        {"a burst of input echoed", {{'z', 0, "", 65536}, {'z', 1, "", 65536}, {'e', 1, "", 20000}, {'x', 0, "", 0}}, E, "", E, INPUT, 2, 3},
        {"polled, then a burst to collect", {{'z', 1, "", 65536}, {'z', 2, "", 65536}, {'w', 1, D, 0}, {'w', 2, E, 0}, {'x', 0, "", 7}}, D, E, "", LATE, 3, 5},
        {"waited for at other intervals", {{'w', 1, "x", 0}, {'s', 0, "", 25}, {'w', 2, C, 0}, {'x', 0, "", 7}}, "x", C, "", INTERVAL, 2, 4},
        {"moved handle", {{'w', 1, "x", 0}, {'e', 2, "", 3}, {'x', 0, "", 7}}, "x", "abc", "abc", MOVED, 3, 5},
    };
    return v;
}
const std::vector<scen> &early = scens();       // built before the exploration starts
const std::string unread = blob(6000, 3);
const char *fails[] = {"fork fails", "a pipe cannot be made", "waitpid fails in poll", "waitpid fails in wait", "waitpid is interrupted"};
}
int xs_nscenarios(void) { return (int)scens().size() + 5; }
const char *xs_scenario_name(int i) { return i < (int)scens().size() ? scens()[i].name : fails[i - scens().size()]; }
int xs_bound(int i, int deep) { return i < (int)scens().size() ? (deep ? scens()[i].deep : scens()[i].bound) : 0; }

static void same(const char *what, const char *p, const std::string &s, bool prefix)
{
    if (prefix) { XS_CHECK(strncmp(p, s.c_str(), strlen(p)) == 0, "%s is not what the child wrote", what); return; }
    XS_CHECK(memcmp(p, s.data(), s.size()) == 0, "%s is not what the child wrote", what);
    XS_CHECK(p[s.size()] == 0, "%s has more than what the child wrote", what);
}
void xs_scenario(int s)
{
    int sv[2];
    socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sv);
    dup2(sv[0], CTL); dup2(sv[1], CTL + 1);
    close(sv[0]); close(sv[1]);
    for (int *p : {&sig_pending, &status_expected, &count_}) xs_norace(p, sizeof *p);
    xs_norace(&ended, sizeof ended);
    xs_norace(&cfd, sizeof cfd);
    xs_children(child_main);
    xs_env(env);
    int fds = nfds();
    int nsc = (int)scens().size();
    if (s >= nsc)
    {
        int k = s - nsc;
        // failing system calls raise errors and leak nothing
        if (k <= 1)
        {
            fail_call = {k == 0 ? XC_FORK : XC_PIPE};
            fail_err = k == 0 ? EAGAIN : EMFILE;
            nth = k == 0 ? 0 : xs_choose(3, 0);
            int code = 0;
            try { subp_open p("x", {}); }
            catch (const std::system_error &e) { code = e.code().value(); }
            XS_CHECK(code == fail_err, "a failing %s raised error %d instead of %d", k ? "pipe" : "fork", code, fail_err);
            XS_CHECK(nfds() == fds, "a failing %s left %d descriptors", k ? "pipe" : "fork", nfds() - fds);
            XS_CHECK(xs_nkids() == 0, "a child is left");
            return;
        }
        script = {{'w', 1, "x", 0}, {'x', 0, "", 1}};
        std::thread d(driver, 0);
        {
            subp_open p("x", {});
            d.join();
            fail_call = {XC_WAITPID};
            fail_err = k == 4 ? EINTR : ECHILD;
            nth = 0;
            int code = 0;
            try { if (k == 2) p.poll(); else p.wait(); }
            catch (const std::system_error &e) { code = e.code().value(); }
            if (k < 4) XS_CHECK(code == fail_err, "a failing waitpid raised error %d instead of %d", code, fail_err);
            fail_call.clear();
            p.wait();
            XS_CHECK(p.returncode() == 1 << 8, "status %d", p.returncode());
            same("standard output", p.stdout(), "x", false);
        }
        XS_CHECK(nfds() == fds, "%d descriptors left", nfds() - fds);
        return;
    }
    const scen &sc = scens()[s];
    script = sc.script;
    std::thread d(driver, 0);
    bool cut = false;
    if (sc.mode == CMD)
    {
        auto r = cppev::subprocess::exec_cmd("x", {"A=B"});
        XS_CHECK(ended, "returned before the child ended");
        XS_CHECK(std::get<0>(r) == status_expected, "status %#x reported as %#x", status_expected, std::get<0>(r));
        XS_CHECK(std::get<1>(r) == sc.out, "standard output is not what the child wrote (%zu of %zu bytes)", std::get<1>(r).size(), sc.out.size());
        XS_CHECK(std::get<2>(r) == sc.err, "standard error is not what the child wrote (%zu of %zu bytes)", std::get<2>(r).size(), sc.err.size());
    }
    else
    {
        auto p = std::make_unique<subp_open>("x", std::vector<std::string>{});
        switch (sc.mode)
        {
        case INPUT: p->communicate(sc.in); break;
        case INPUT_LATE: p->communicate("some input that nobody reads"); p->communicate(unread); break;
        case INPUT2: p->communicate(sc.in.data(), 6000); p->communicate(); p->communicate(sc.in.data() + 6000, (int)sc.in.size() - 6000); break;
        case KILL: case TERM: case TERM_LATE:
            if (sc.mode == KILL) { while (!*p->stdout()) { p->communicate(); struct timespec t = {0, 1000000}; nanosleep(&t, nullptr); } p->kill(); }
            else p->terminate();
            cut = sc.mode != KILL;
            break;
        case POLLING:
            while (!p->poll()) { struct timespec t = {0, 10000000}; nanosleep(&t, nullptr); }
            XS_CHECK(ended, "poll reported completion before the child ended");
            XS_CHECK(p->returncode() == status_expected, "status %#x reported as %#x", status_expected, p->returncode());
            break;
        case LATE:
            d.join();
            XS_CHECK(p->poll(), "poll does not report completion of an ended child");
            break;
        case MOVED:
        {
            subp_open q(std::move(*p));
            q.communicate(sc.in);
            *p = std::move(q);
            break;
        }
        }
        if (sc.mode == INTERVAL)
        {
            static const int every[] = {1, 7, 1000};
            p->wait(std::chrono::milliseconds(every[xs_choose(3, 0)]));
        }
        else p->wait();
        XS_CHECK(ended, "wait returned before the child ended");
        for (int again = 0; again < 2; ++again)
        {
            XS_CHECK(p->returncode() == status_expected, "status %#x reported as %#x", status_expected, p->returncode());
            same("standard output", p->stdout(), sc.mode == TERM_LATE ? "x" : sc.out, cut);
            same("standard error", p->stderr(), sc.err, false);
            if (again) break;
            XS_CHECK(p->poll(), "poll after completion returned false");
            p->wait();
        }
        XS_CHECK(xs_kid_reaped(0), "the child was not collected");
    }
    if (d.joinable()) d.join();
    if (!cut && sc.mode != INPUT_LATE) XS_CHECK(got == sc.in, "the child read %zu of %zu bytes of input, or others", got.size(), sc.in.size());
    XS_CHECK(nfds() == fds, "%d descriptors left", nfds() - fds);
}
