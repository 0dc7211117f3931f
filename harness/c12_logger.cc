// C12: asynchronous logger under all interleavings and with partial or interrupted writes.
#include "xs.h"
#include "cppev/async_logger.h"
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <poll.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <vector>
using cppev::async_logger;
using cppev::log::endl;

static const char *names[] = {
    "nothing logged", "1 line", "2 lines", "1 line after the logger fell asleep", "2 threads, 1 line each", "2 threads, 2 lines each", "3 threads, 1 line each",
    "an unfinished line at destruction", "an unfinished line of several parts", "1 line, partial writes", "2 lines, partial writes", "2 threads, partial writes", "long lines, partial writes",
    "all types and empty lines", "a line with NUL bytes", "2 loggers, 2 threads", "a line in parts with pauses, 2 threads", "lines from an ended thread", "200 byte lines of 2 threads",
    "a descriptor that would block", "other descriptor", "large and negative numbers", "a descriptor that takes nothing for seconds", "a full descriptor and several threads",
};
int xs_nscenarios(void) { return sizeof names / sizeof *names; }
const char *xs_scenario_name(int i) { return names[i]; }
int xs_bound(int i, int deep)
{
    switch (i)
    {
    case 6: case 15: case 18: return deep ? 2 : 1;
    case 5: case 16: case 23: return deep ? 3 : 2;
    case 0: case 1: case 2: case 3: case 7: case 8: return deep ? 8 : 5;
    case 11: return deep ? 4 : 2;
    default: return deep ? 5 : 3;
    }
}
namespace
{
int rd[3] = {-1, -1, -1};          // reading ends for descriptor 1, 2 and 50
int mode;                          // 0 plain, 1 partial and interrupted, 2 would block as well
std::string early;                 // what was read before the end
int index_of(int fd) { return fd == 1 ? 0 : fd == 2 ? 1 : fd == 50 ? 2 : -1; }
int env(int call, int fd, size_t len, long *ret, int *err, size_t *lim, const void *)
{
    if (call != XC_WRITE || index_of(fd) < 0 || !mode) return 0;
    int n = mode == 2 ? 5 : 4;
    switch (xs_choose(n, 1))
    {
    case 1: *lim = 1; return 2;
    case 2: *lim = len > 1 ? len - 1 : 1; return 2;
    case 3: *ret = -1; *err = EINTR; return 1;
    case 4: *ret = -1; *err = EAGAIN; return 1;
    default: return 0;
    }
}
void plumb(int fd)
{
    int p[2];
    if (pipe(p) != 0) xs_fail("pipe");
    fcntl(p[1], F_SETPIPE_SZ, 1 << 18);
    int r = 60 + index_of(fd);
    dup2(p[0], r);
    dup2(p[1], fd);
    close(p[0]); close(p[1]);
    fcntl(r, F_SETFL, O_NONBLOCK);
    rd[index_of(fd)] = r;
}
std::string output(int fd)
{
    std::string s = early;
    early.clear();
    char b[4096];
    for (;;)
    {
        long n = syscall(SYS_read, rd[index_of(fd)], b, sizeof b);
        if (n <= 0) break;
        s.append(b, n);
    }
    return s;
}
// The reading side takes its time: `rounds` times a sleep, then everything there is.
void slow_reader(int fd, int ms, int rounds)
{
    for (int i = 0; i < rounds; ++i)
    {
        struct timespec t = {ms / 1000, ms % 1000 * 1000000l};
        nanosleep(&t, nullptr);
        std::string s = output(fd);
        early = s;
        xs_point(&early);
    }
}
struct line { int thread; std::string text; };
// What must have come out: all lines, each once, whole, with a header, and those of one thread in order.
void judge(int fd, const std::vector<std::vector<std::string>> &per_thread, bool open_line = false, const std::string &open_text = "")
{
    std::string s = output(fd);
    std::vector<size_t> pos(per_thread.size(), 0);
    std::vector<std::string> tid(per_thread.size());
    size_t at = 0;
    while (at < s.size())
    {
        // header
        std::string head = fd == 1 ? "- [INFO] [" : "- [ERROR] [";
        if (s.compare(at, head.size(), head) != 0) xs_fail("no header at byte %zu of the output: %s", at, s.substr(at, 60).c_str());
        size_t t = s.find("] [LWP ", at), e = t == std::string::npos ? t : s.find("] ", t + 7);
        if (e == std::string::npos || t - at > 64 || e - t > 32) xs_fail("a broken header: %s", s.substr(at, 80).c_str());
        std::string who = s.substr(t + 7, e - t - 7);
        at = e + 2;
        bool found = false;
        for (size_t k = 0; k < per_thread.size() && !found; ++k)
        {
            if (pos[k] >= per_thread[k].size()) continue;
            const std::string &want = per_thread[k][pos[k]];
            if (s.compare(at, want.size() + 1, want + "\n") == 0)
            {
                at += want.size() + 1;
                ++pos[k];
                found = true;
                XS_CHECK(tid[k].empty() || tid[k] == who, "one thread is named %s and %s", tid[k].c_str(), who.c_str());
                tid[k] = who;
            }
        }
        if (!found && open_line && s.compare(at, std::string::npos, open_text.substr(0, s.size() - at)) == 0) { at = s.size(); break; }
        if (!found) xs_fail("unexpected, repeated, mixed or disordered text: %s", s.substr(at, 80).c_str());
    }
    for (size_t k = 0; k < per_thread.size(); ++k)
        XS_CHECK(pos[k] == per_thread[k].size(), "%zu of %zu lines of thread %zu came out", pos[k], per_thread[k].size(), k);
}
std::string txt(int t, int i) { return "line " + std::to_string(i) + " of " + std::to_string(t); }
void threads(int s, int nthreads, int lines, int fd, bool paused = false, size_t extra = 0)
{
    (void)s;
    std::vector<std::vector<std::string>> want(nthreads);
    {
        async_logger lg(fd);
        std::vector<std::thread> t;
        for (int k = 0; k < nthreads; ++k)
        {
            for (int i = 0; i < lines; ++i) want[k].push_back(txt(k, i) + std::string(extra, (char)('a' + k)));
            t.emplace_back([&, k]
            {
                for (int i = 0; i < lines; ++i)
                {
                    lg << "line " << i;
                    if (paused) xs_point(&lg);
                    lg << std::string(" of ") << (long)k << std::string(extra, (char)('a' + k)) << endl;
                }
            });
        }
        for (auto &x : t) x.join();
    }
    judge(fd, want);
}
}
void xs_scenario(int s)
{
    xs_norace(&mode, sizeof mode);
    plumb(1); plumb(2); plumb(50);
    xs_std_io(1);
    xs_env(env);
    switch (s)
    {
    case 0: { { async_logger lg(1); } judge(1, {}); break; }
    case 1: { { async_logger lg(1); lg << "x" << endl; } judge(1, {{"x"}}); break; }
    case 2: { { async_logger lg(2); lg << "x" << endl; lg << "y" << " z" << endl; } judge(2, {{"x", "y z"}}); break; }
    case 3:
    {
        {
            async_logger lg(1);
            xs_settle();
            lg << "x" << endl;
            xs_settle();
            judge(1, {{"x"}});       // a sleeping logger is woken up
            lg << "y" << endl;
        }
        judge(1, {{"y"}});
        break;
    }
    case 4: threads(s, 2, 1, 1); break;
    case 5: threads(s, 2, 2, 1); break;
    case 6: threads(s, 3, 1, 2); break;
    case 7: { { async_logger lg(1); lg << "x" << endl; lg << "open"; } judge(1, {{"x"}}, true, "open"); break; }
    case 8: { { async_logger lg(1); lg << "open" << 1 << std::string("b"); } judge(1, {}, true, "open1b"); break; }
    case 9: mode = 1; { { async_logger lg(1); lg << "some text" << endl; } mode = 0; judge(1, {{"some text"}}); } break;
    case 10: mode = 1; { { async_logger lg(2); lg << "some text" << endl; lg << "more text" << endl; } mode = 0; judge(2, {{"some text", "more text"}}); } break;
    case 11: mode = 1; threads(s, 2, 1, 1); break;
    case 12:
    {
        mode = 1;
        std::string a(70000, 'a'), b(10, 'b');
        { async_logger lg(1); lg << a << endl; lg << b << endl; }
        mode = 0;
        judge(1, {{a, b}});
        break;
    }
    case 13:
    {
        { async_logger lg(1); lg << endl; lg << "c" << std::string("s") << 1 << -2l << 1.5 << 2.25f << "" << std::string() << endl; lg << endl; }
        judge(1, {{"", "cs1-21.5000002.250000", ""}});
        break;
    }
    case 14:
    {
        std::string z("a\0b\0", 4);
        { async_logger lg(1); lg << z << endl; lg << "after" << endl; }
        judge(1, {{z, "after"}});
        break;
    }
    case 15:
    {
        {
            async_logger a(1), b(2);
            std::thread t([&] { b << "b0" << endl; a << "a0" << endl; }), u([&] { a << "a1" << endl; b << "b1" << endl; });
            t.join(); u.join();
        }
        judge(1, {{"a0"}, {"a1"}});
        judge(2, {{"b0"}, {"b1"}});
        break;
    }
    case 16: threads(s, 2, 1, 1, true); break;
    case 17:
    {
        {
            async_logger lg(1);
            std::thread([&] { lg << "x" << endl; }).join();
            std::thread([&] { lg << "y" << endl; }).join();
        }
        judge(1, {{"x"}, {"y"}});
        break;
    }
    case 18: threads(s, 2, 2, 1, false, 200); break;
    case 19: mode = 2; { { async_logger lg(1); lg << "some text" << endl; } mode = 0; judge(1, {{"some text"}}); } break;
    case 20: threads(s, 2, 1, 50); break;
    case 21:
    {
        long big = 0x7fffffffffffffffl, small = -big - 1, mid = 5000000000l;
        int i = 0x7fffffff, j = -i - 1;
        { async_logger lg(1); lg << big << " " << small << " " << mid << endl; lg << i << " " << j << " " << 0 << " " << -1l << endl; }
        judge(1, {{"9223372036854775807 -9223372036854775808 5000000000", "2147483647 -2147483648 0 -1"}});
        break;
    }
    case 22: case 23:
    {
        fcntl(1, F_SETPIPE_SZ, 4096);
        fcntl(1, F_SETFL, O_NONBLOCK);
        std::string a(9000, 'a'), b(3000, 'b'), c(10, 'c');
        std::thread r;
        {
            async_logger lg(1);
            r = std::thread(slow_reader, 1, 4000, 5);
            if (s == 22) { lg << a << endl; lg << c << endl; }
            else
            {
                std::thread t([&] { lg << a << endl; }), u([&] { lg << b << endl; });
                t.join(); u.join();
            }
        }
        r.join();
        if (s == 22) judge(1, {{a, c}});
        else judge(1, {{a}, {b}});
        break;
    }
    }
}
