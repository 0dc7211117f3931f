// C21: real commands. This program is its own helper: started as "<path> --c21-child <mode> ..." it reports what it was given.
#include "seq.h"
#include "cppev/subprocess.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <system_error>
#include <time.h>
#include <unistd.h>
#include <vector>
using cppev::subp_open;
using std::string;
using std::vector;

// ---- the helper -----------------------------------------------------------------------------------------------------------
static void put(int fd, const string &s)
{
    for (size_t i = 0; i < s.size(); )
    {
        ssize_t n = write(fd, s.data() + i, s.size() - i);
        if (n <= 0) _exit(90);
        i += n;
    }
}
static string escaped(const char *p)
{
    string r;
    for (; *p; ++p)
        if (*p > 32 && *p < 127 && *p != '%') r += *p;
        else { char b[4]; snprintf(b, sizeof b, "%%%02x", (unsigned char)*p); r += b; }
    return r;
}
extern "C" __attribute__((constructor(101))) void c21_child(int argc, char **argv, char **envp)
{
    if (argc < 3 || strcmp(argv[1], "--c21-child")) return;
    string mode = argv[2];
    if (mode == "report")
    {
        string out = "argc " + std::to_string(argc) + "\n";
        for (int i = 0; i < argc; ++i) out += "arg " + escaped(argv[i]) + "\n";
        for (char **e = envp; *e; ++e) out += "env " + escaped(*e) + "\n";
        for (int fd = 0; fd < 1024; ++fd)
        {
            struct stat st;
            if (fstat(fd, &st)) continue;
            int fl = fcntl(fd, F_GETFL) & O_ACCMODE;
            out += "fd " + std::to_string(fd) + " " + (S_ISFIFO(st.st_mode) ? "pipe" : "other") + " " + (fl == O_RDONLY ? "r" : fl == O_WRONLY ? "w" : "rw") + " " + std::to_string(st.st_ino) + "\n";
        }
        put(1, out);
        put(2, "this is standard error");
        _exit(7);
    }
    if (mode == "echo")       // copy standard input to standard output until a dot, then note on standard error, end
    {
        string got;
        for (;;)
        {
            char c;
            ssize_t n = read(0, &c, 1);
            if (n <= 0) _exit(n == 0 ? 20 : 91);
            if (c == '.') break;
            got += c;
        }
        put(1, got);
        put(2, "E" + got);
        _exit(argc > 3 ? atoi(argv[3]) : 0);
    }
    _exit(92);
}

// ---- exploration --------------------------------------------------------------------------------------------------------
bool seq_fork_each = true;
int seq_exec_timeout = 30;
static const char *names[] = {"arguments and environments", "forms of the program", "commands that cannot be executed", "standard streams closed in the parent",
    "scarce descriptors", "sequences of open, wait, move, destroy", "many handles at once"};
int seq_nscenarios() { return 7; }
const char *seq_scenario_name(int i) { return names[i]; }

static bool watch;
extern "C" int __real_close(int fd);
extern "C" int __wrap_close(int fd)
{
    if (watch) SEQ_CHECK(syscall(SYS_fcntl, fd, F_GETFD) >= 0, "closes descriptor %d which is not open", fd);
    return __real_close(fd);
}
static const pid_t me_pid = getpid();
static pid_t exec_pid;
static void at_exit_noise() { if (getpid() != exec_pid) put(1, "exit handler of the parent ran in the child"); }

namespace
{
string self()
{
    static string s = [] { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); return string(b, n); }();
    return s;
}
vector<string> fds()
{
    vector<string> r;
    for (int i = 0; i < 1024; ++i)
    {
        struct stat st;
        if (syscall(SYS_fstat, i, &st)) continue;
        r.push_back(std::to_string(i) + ":" + std::to_string(st.st_dev) + ":" + std::to_string(st.st_ino));
    }
    return r;
}
struct report { vector<string> args, env; vector<std::map<string, string>> fd; };
vector<string> words(const string &s, char sep)
{
    vector<string> r(1);
    for (char c : s) if (c == sep) r.emplace_back(); else r.back() += c;
    return r;
}
report parse(const string &s)
{
    report r;
    for (auto &l : words(s, '\n'))
    {
        auto w = words(l, ' ');
        if (w[0] == "arg") r.args.push_back(w[1]);
        else if (w[0] == "env") r.env.push_back(w[1]);
        else if (w[0] == "fd") r.fd.push_back({{"n", w[1]}, {"kind", w[2]}, {"mode", w[3]}, {"ino", w[4]}});
    }
    return r;
}
string list(const vector<string> &v) { string r; for (auto &s : v) r += "[" + s + "]"; return r; }
vector<string> esc(const vector<string> &v) { vector<string> r; for (auto &s : v) r.push_back(escaped(s.c_str())); return r; }

void prepare()
{
    exec_pid = getpid();
    for (int i = 3; i < 1024; ++i) fcntl(i, F_SETFD, FD_CLOEXEC);
    signal(SIGPIPE, SIG_DFL);
    setvbuf(stdout, nullptr, _IOFBF, 4096);
}
void finish(subp_open &p) { p.wait(std::chrono::milliseconds(1)); }
// the helper was started from `cmd`: what must it report?
void judge(const string &out, const string &err, int status, const vector<string> &args, const vector<string> &env)
{
    SEQ_CHECK(status == 7 << 8, "status %#x instead of 0x700 (output %s)", status, seq::show(out).c_str());
    report r = parse(out);
    SEQ_CHECK(r.args == esc(args), "arguments are %s instead of %s", list(r.args).c_str(), list(esc(args)).c_str());
    SEQ_CHECK(r.env == esc(env), "environment is %s instead of %s", list(r.env).c_str(), list(esc(env)).c_str());
    SEQ_CHECK(err == "this is standard error", "standard error is %s", seq::show(err).c_str());
    SEQ_CHECK(r.fd.size() == 3, "the child has %zu descriptors instead of its three standard streams", r.fd.size());
    for (int i = 0; i < 3; ++i)
        SEQ_CHECK(r.fd[i]["n"] == std::to_string(i) && r.fd[i]["kind"] == "pipe" && r.fd[i]["mode"] == (i ? "w" : "r"), "standard stream %d of the child is no pipe of its own", i);
    SEQ_CHECK(r.fd[0]["ino"] != r.fd[1]["ino"] && r.fd[1]["ino"] != r.fd[2]["ino"], "standard streams share a pipe");
}
void run_report(const string &cmd, const vector<string> &args, const vector<string> &env, bool by_exec_cmd)
{
    seq::log("%s, environment %s", seq::show(cmd).c_str(), list(env).c_str());
    auto before = fds();
    watch = true;
    string out, err;
    int status;
    if (by_exec_cmd) std::tie(status, out, err) = cppev::subprocess::exec_cmd(cmd, env);
    else
    {
        subp_open p(cmd, env);
        finish(p);
        out = p.stdout(); err = p.stderr(); status = p.returncode();
    }
    watch = false;
    judge(out, err, status, args, env);
    SEQ_CHECK(fds() == before, "the descriptors of the parent changed: %s before, %s after", list(before).c_str(), list(fds()).c_str());
}
string base(const string &s) { size_t i = s.rfind('/'); return i == string::npos ? s : s.substr(i + 1); }

void arguments()
{
    static const vector<string> pool = {"a", "", "/x/y", "-b=c", "'q", "\t", "$A*\\", "\xc3\xa9%"};
    static const vector<string> epool = {"A=1", "EMPTY=", "noequals", "A=2", "S=a b  c", "N=x\ny"};
    int npool = seq::bound(6, 8), depth = seq::bound(3, 4);
    string cmd = self() + " --c21-child report";
    vector<string> args = {base(self()), "--c21-child", "report"};
    int n = seq::choose(depth + 1);
    for (int i = 0; i < n; ++i) { auto &a = pool[seq::choose(npool)]; args.push_back(a); cmd += " " + a; }
    vector<string> env;
    int nenv = n <= 1 ? 3 : 1;
    for (int i = 0; i < nenv; ++i) { int c = seq::choose((int)epool.size() + 1); if (!c) break; env.push_back(epool[c - 1]); }
    run_report(cmd, args, env, n > 0 && env.size() % 2);
}
void forms()
{
    // a scratch directory with several names for this program
    char dir[] = "c21XXXXXX";
    if (!mkdtemp(dir)) abort();
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) abort();
    string abs = string(cwd) + "/" + dir;
    if (chdir(dir) || mkdir("d", 0755) || mkdir("e", 0755)) abort();
    if (symlink(self().c_str(), "prog") || symlink(self().c_str(), "d/prog") || symlink(self().c_str(), "d/other") || symlink(self().c_str(), "e/other")) abort();
    int form = seq::choose(8), penv = seq::choose(3), by = seq::choose(2);
    const string path = penv == 0 ? abs + "/d" : penv == 1 ? "/nonexistent:" + abs + "/d:" + abs + "/e" : abs + "/e:" + abs + "/d";
    // PATH of the parent and of the child agree, so that it does not matter which is searched
    setenv("PATH", path.c_str(), 1);
    string prog[] = {abs + "/prog", "./prog", "d/prog", "d/../prog", abs + "//d//other", "prog", "other", "./d/other"};
    run_report(prog[form] + " --c21-child report", {base(prog[form]), "--c21-child", "report"}, {"X=1", "PATH=" + path}, by);
    if (chdir("..")) abort();
    for (auto f : {"/d/prog", "/d/other", "/e/other", "/prog"}) unlink((abs + f).c_str());
    rmdir((abs + "/d").c_str()); rmdir((abs + "/e").c_str()); rmdir(abs.c_str());
}
void unusable()
{
    char dir[] = "c21XXXXXX";
    if (!mkdtemp(dir)) abort();
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) abort();
    string abs = string(cwd) + "/" + dir;
    FILE *f = fopen((abs + "/plain").c_str(), "w"); fputs("echo hidden\n", f); fclose(f);      // not executable
    chmod((abs + "/plain").c_str(), 0644);
    if (symlink("loop", (abs + "/loop").c_str())) abort();
    static const char *kinds[] = {"/missing", "", "/plain", "/loop", "/plain/x"};
    int k = seq::choose(10), by = seq::choose(2), noise = seq::choose(2), closed = seq::choose(2);
    string cmd = k < 5 ? abs + kinds[k] : k == 5 ? "" : k == 6 ? "c21-no-such-command" : k == 7 ? "/" : k == 8 ? " " : string(5000, 'x');
    if (seq::choose(2)) cmd += " arg";
    seq::log("%s", seq::show(cmd.substr(0, 80)).c_str());
    int out1 = dup(1);
    if (noise) { atexit(at_exit_noise); printf("buffered output of the parent"); fprintf(stderr, ""); }
    if (closed) { __real_close(2); }
    auto before = fds();
    watch = true;
    string out, err;
    int status;
    if (by) std::tie(status, out, err) = cppev::subprocess::exec_cmd(cmd, {"A=1"});
    else { subp_open p(cmd, {"A=1"}); finish(p); out = p.stdout(); err = p.stderr(); status = p.returncode(); }
    watch = false;
    SEQ_CHECK(status != 0, "a command that cannot be executed yields status 0");
    SEQ_CHECK(out.empty(), "a command that cannot be executed yields output %s", seq::show(out).c_str());
    SEQ_CHECK(err.empty(), "a command that cannot be executed yields errors %s", seq::show(err).c_str());
    SEQ_CHECK(fds() == before, "the descriptors of the parent changed: %s before, %s after", list(before).c_str(), list(fds()).c_str());
    unlink((abs + "/plain").c_str()); unlink((abs + "/loop").c_str()); rmdir(abs.c_str());
    (void)out1;
}
void closed_streams()
{
    int mask = seq::choose(8), extra = seq::choose(3), form = seq::choose(3);
    seq::log("closed in the parent: %d, %d other handles", mask, extra);
    for (int i = 0; i < 3; ++i) if (mask & 1 << i) __real_close(i);
    auto before = fds();
    watch = true;
    {
        vector<subp_open> others;
        for (int i = 0; i < extra; ++i) others.emplace_back(self() + " --c21-child echo 5", vector<string>{});
        string out, err;
        int status;
        string cmd = self() + " --c21-child report";
        if (form == 0) std::tie(status, out, err) = cppev::subprocess::exec_cmd(cmd, {"A=1"});
        else
        {
            subp_open p(cmd, {"A=1"});
            if (form == 2) { subp_open q(std::move(p)); p = std::move(q); }
            finish(p);
            out = p.stdout(); err = p.stderr(); status = p.returncode();
        }
        judge(out, err, status, {base(self()), "--c21-child", "report"}, {"A=1"});
        for (int i = 0; i < extra; ++i)
        {
            string text = "text " + std::to_string(i);
            others[i].communicate(text + ".");
            finish(others[i]);
            SEQ_CHECK(others[i].returncode() == 5 << 8, "status %#x instead of 0x500", others[i].returncode());
            SEQ_CHECK(others[i].stdout() == text && others[i].stderr() == "E" + text, "output %s, errors %s", seq::show(others[i].stdout()).c_str(), seq::show(others[i].stderr()).c_str());
        }
    }
    watch = false;
    SEQ_CHECK(fds() == before, "the descriptors of the parent changed: %s before, %s after", list(before).c_str(), list(fds()).c_str());
}
void scarce()
{
    int mask = seq::choose(8), room = seq::choose(10);
    for (int i = 0; i < 3; ++i) if (mask & 1 << i) __real_close(i);
    // only `room` more descriptors can be opened; the library's own logger etc. have theirs already
    int top = 0, free_below = 0;
    for (int i = 0; i < 1024; ++i) if (syscall(SYS_fcntl, i, F_GETFD) >= 0) top = i;
    for (int i = 0; i < top; ++i) if (syscall(SYS_fcntl, i, F_GETFD) < 0) ++free_below;
    // fill the gaps above 2
    for (int i = 3; i < top; ++i) if (syscall(SYS_fcntl, i, F_GETFD) < 0) { dup2(top, i); fcntl(i, F_SETFD, FD_CLOEXEC); }
    struct rlimit l = {(rlim_t)(top + 1 + std::max(0, room - __builtin_popcount(mask))), 4096};
    if (room < __builtin_popcount(mask)) seq::discard();
    getrlimit(RLIMIT_NOFILE, &l);
    l.rlim_cur = top + 1 + room - __builtin_popcount(mask);
    setrlimit(RLIMIT_NOFILE, &l);
    auto before = fds();
    seq::log("closed in the parent: %d, room for %d descriptors", mask, room);
    watch = true;
    bool threw = false;
    string out, err;
    int status = 0;
    try
    {
        std::tie(status, out, err) = cppev::subprocess::exec_cmd(self() + " --c21-child report", {"A=1"});
    }
    catch (const std::system_error &e)
    {
        threw = true;
        SEQ_CHECK(e.code().value() == EMFILE, "error %d instead of EMFILE", e.code().value());
    }
    watch = false;
    if (room < 6) SEQ_CHECK(threw, "no error although the pipes cannot be made");
    if (room >= 9) SEQ_CHECK(!threw, "an error although there are descriptors enough");
    if (!threw && (status != 127 << 8 || room >= 9)) judge(out, err, status, {base(self()), "--c21-child", "report"}, {"A=1"});
    SEQ_CHECK(fds() == before, "the descriptors of the parent changed: %s before, %s after", list(before).c_str(), list(fds()).c_str());
}
void lifecycles()
{
    enum { OPEN, FEED, WAIT, DESTROY, MOVE, SWAP, NOPS };
    struct slot { std::unique_ptr<subp_open> p; string fed; bool done = false; pid_t pid = -1; int status = 0; };
    auto before = fds();
    vector<pid_t> orphans;
    watch = true;
    {
        slot sl[2];
        int depth = seq::bound(4, 6), serial = 0;
        auto drop = [&](slot &s)      // the handle is gone: its child sees the end of its input, whatever else is running
        {
            if (!s.p) return;
            s.p.reset();
            if (!s.done)
            {
                int st = 0;
                pid_t r = 0;
                for (int t = 0; t < 5000 && (r = waitpid(s.pid, &st, WNOHANG)) == 0; ++t) { struct timespec ts = {0, 1000000}; nanosleep(&ts, nullptr); }
                SEQ_CHECK(r == s.pid, "a child does not see the end of its input although its handle was destroyed");
                SEQ_CHECK(st == 20 << 8, "a child ended with status %#x when its handle was destroyed", st);
            }
            s = slot();
        };
        for (int i = 0; i < depth; ++i)
        {
            int o = seq::choose(NOPS + 1);
            if (o == NOPS) break;
            int k = o == SWAP ? 0 : seq::choose(2);
            slot &s = sl[k], &t = sl[1 - k];
            switch (o)
            {
            case OPEN:
                seq::log("open %d", k);
                if (s.p) drop(s);
                s.status = 3 + serial++;
                s.p = std::make_unique<subp_open>(self() + " --c21-child echo " + std::to_string(s.status), vector<string>{"A=1"});
                s.pid = s.p->pid();
                break;
            case FEED:
                if (!s.p || s.done) seq::discard();
                seq::log("feed %d", k);
                s.p->communicate(string("xy"));
                s.fed += "xy";
                break;
            case WAIT:
                if (!s.p) seq::discard();
                seq::log("wait %d", k);
                if (!s.done) s.p->communicate(string("."));
                finish(*s.p);
                s.done = true;
                SEQ_CHECK(s.p->returncode() == s.status << 8, "status %#x instead of %#x", s.p->returncode(), s.status << 8);
                SEQ_CHECK(s.p->stdout() == s.fed, "output %s instead of %s", seq::show(s.p->stdout()).c_str(), seq::show(s.fed).c_str());
                SEQ_CHECK(s.p->stderr() == "E" + s.fed, "errors %s", seq::show(s.p->stderr()).c_str());
                SEQ_CHECK(s.p->pid() == s.pid, "pid changed");
                break;
            case DESTROY:
                if (!s.p) seq::discard();
                seq::log("destroy %d", k);
                drop(s);
                break;
            case MOVE:
                if (!s.p) seq::discard();
                seq::log("move %d to %d", k, 1 - k);
                if (t.p)
                {
                    slot old; old.done = t.done; old.pid = t.pid;
                    *t.p = std::move(*s.p);
                    if (!old.done)
                    {
                        int st = 0; pid_t r = 0;
                        for (int w = 0; w < 5000 && (r = waitpid(old.pid, &st, WNOHANG)) == 0; ++w) { struct timespec ts = {0, 1000000}; nanosleep(&ts, nullptr); }
                        SEQ_CHECK(r == old.pid && st == 20 << 8, "a child does not see the end of its input although its handle was overwritten");
                    }
                }
                else t.p = std::make_unique<subp_open>(std::move(*s.p));
                t.fed = s.fed; t.done = s.done; t.pid = s.pid; t.status = s.status;
                s = slot();           // destroys the moved-from handle
                break;
            case SWAP:
                if (!sl[0].p || !sl[1].p) seq::discard();
                seq::log("swap");
                std::swap(*sl[0].p, *sl[1].p);
                std::swap(sl[0].fed, sl[1].fed); std::swap(sl[0].done, sl[1].done); std::swap(sl[0].pid, sl[1].pid); std::swap(sl[0].status, sl[1].status);
                break;
            }
        }
        drop(sl[0]);
        drop(sl[1]);
    }
    watch = false;
    SEQ_CHECK(fds() == before, "the descriptors of the parent changed: %s before, %s after", list(before).c_str(), list(fds()).c_str());
}
void many()
{
    int n = 1 + seq::choose(seq::bound(20, 60)), order = seq::choose(2);
    auto before = fds();
    watch = true;
    {
        vector<subp_open> v;
        for (int i = 0; i < n; ++i) v.emplace_back(self() + " --c21-child echo " + std::to_string(i), vector<string>{});
        for (int j = 0; j < n; ++j)
        {
            int i = order ? n - 1 - j : j;
            string t = "t" + std::to_string(i);
            v[i].communicate(t + ".");
            finish(v[i]);
            SEQ_CHECK(v[i].returncode() == i << 8 && v[i].stdout() == t && v[i].stderr() == "E" + t, "handle %d: status %#x, output %s", i, v[i].returncode(), seq::show(v[i].stdout()).c_str());
        }
        for (auto &p : v) SEQ_CHECK(p.poll(), "poll after completion returned false");
    }
    watch = false;
    SEQ_CHECK(fds() == before, "the descriptors of the parent changed: %s before, %s after", list(before).c_str(), list(fds()).c_str());
}
}
void seq_run(int s)
{
    prepare();
    switch (s)
    {
    case 0: arguments(); break;
    case 1: forms(); break;
    case 2: unusable(); break;
    case 3: closed_streams(); break;
    case 4: scarce(); break;
    case 5: lifecycles(); break;
    case 6: many(); break;
    }
}
