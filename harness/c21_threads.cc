// C21: subprocesses started and ended by several threads at a time: no child holds a descriptor of another handle.
#include "xs.h"
#include "cppev/subprocess.h"
#include <fcntl.h>
#include <memory>
#include <string.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
using cppev::subp_open;

namespace
{
bool before[800];
bool open_(int fd) { return syscall(SYS_fcntl, fd, F_GETFD) >= 0; }
// what the started program would find: everything that is not closed by exec
void child_main()
{
    int extra = 0;
    for (int fd = 3; fd < 800; ++fd)
    {
        long f = syscall(SYS_fcntl, fd, F_GETFD);
        if (f >= 0 && !(f & FD_CLOEXEC) && !before[fd]) ++extra;
    }
    for (int fd = 0; fd < 3; ++fd)
    {
        long f = syscall(SYS_fcntl, fd, F_GETFL);
        if (f < 0) extra = 60;
        else if (f & O_NONBLOCK) extra = 61;      // a program that reads or writes would fail instead of waiting
    }
    syscall(SYS_exit_group, extra ? 100 + extra : 7 + xs_nkids());
}
struct scen { const char *name; int starters, rounds; bool keep, mover; int bound, deep; };
const scen scens[] = {
    {"two threads start a subprocess", 2, 1, false, false, 3, 5},
    {"two threads start a subprocess each and keep the handles", 2, 1, true, false, 3, 5},
    {"three threads start a subprocess", 3, 1, false, false, 2, 3},
    {"two threads start two subprocesses, one after the other", 2, 2, false, false, 2, 3},
    {"two threads start and move handles", 2, 2, true, true, 2, 3},
};
std::vector<std::unique_ptr<subp_open>> kept[3];
void finish(subp_open &p)
{
    siginfo_t si;
    syscall(SYS_waitid, P_PID, xs_real_pid(p.pid() - 5000), &si, WEXITED | WNOWAIT, 0);
    p.wait();
    int rc = p.returncode();
    XS_CHECK(rc != 160 << 8 && rc != 161 << 8, rc == 160 << 8 ? "a standard stream is closed in the subprocess" : "a standard stream of the subprocess is non-blocking");
    XS_CHECK(rc == (7 + p.pid() - 5000) << 8, rc > 100 << 8 && rc < 160 << 8 ? "the subprocess holds %d foreign descriptors" : "the subprocess ended with status %d", rc > 100 << 8 ? (rc >> 8) - 100 : rc);
}
void starter(const scen *s, int id)
{
    for (int r = 0; r < s->rounds; ++r)
    {
        auto p = std::make_unique<subp_open>("x", std::vector<std::string>{});
        if (s->mover) { subp_open q(std::move(*p)); *p = std::move(q); }
        if (s->keep) kept[id].push_back(std::move(p));
        else finish(*p);
    }
}
int nfds() { int n = 0; for (int i = 0; i < 800; ++i) n += open_(i); return n; }
}
int xs_nscenarios(void) { return sizeof scens / sizeof *scens; }
const char *xs_scenario_name(int i) { return scens[i].name; }
int xs_bound(int i, int deep) { return deep ? scens[i].deep : scens[i].bound; }
void xs_scenario(int i)
{
    const scen &s = scens[i];
    for (int fd = 0; fd < 800; ++fd) { long f = syscall(SYS_fcntl, fd, F_GETFD); before[fd] = f >= 0 && !(f & FD_CLOEXEC); }
    xs_children(child_main);
    xs_fd_points(1);
    int fds = nfds();
    {
        std::vector<std::thread> t;
        for (int k = 0; k < s.starters; ++k) t.emplace_back(starter, &s, k);
        for (auto &x : t) x.join();
        for (int k = 0; k < s.starters; ++k) { for (auto &p : kept[k]) finish(*p); kept[k].clear(); }
    }
    XS_CHECK(nfds() == fds, "%d descriptors left", nfds() - fds);
    XS_CHECK(xs_nkids() == s.starters * s.rounds, "%d subprocesses instead of %d", xs_nkids(), s.starters * s.rounds);
    for (int k = 0; k < xs_nkids(); ++k) XS_CHECK(xs_kid_reaped(k), "a child was not collected");
}
