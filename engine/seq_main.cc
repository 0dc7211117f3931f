#include "seq.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <exception>
#include <set>
#include <unordered_set>
#include <vector>

// The real system calls, whatever the harness wraps.
#include <sys/syscall.h>

__attribute__((weak)) bool seq_fork_each = false;
__attribute__((weak)) int seq_exec_timeout = 20;

namespace
{
constexpr int MAXC = 2000, MAXW = 32, MSG = 4000, NKEYS = 64;
struct choice { short val, n; };
struct slot   // one worker's shared record
{
    int scen, nch, pos, failed, done, discarded;
    choice ch[MAXC];
    char msg[MSG];
    char trc[MSG];
    uint64_t execs, trans, discards, maxlen, nstates, knownhits[NKEYS];
};
slot *slots, *me;
int njobs = 8, myid = 0, shard_depth = 3;
bool tier_deep = false, log_on = false;
bool in_replay = false;
int skipped;
std::unordered_set<uint64_t> *states;
std::vector<std::string> known_keys;
int only_scen = -1;

void vset(const char *fmt, va_list ap) { vsnprintf(me->msg, MSG, fmt, ap); }

void on_alarm(int)
{
    snprintf(me->msg, MSG, "execution does not end (hang)");
    me->failed = 1;
    _exit(66);
}
[[noreturn]] void on_terminate()
{
    char what[500] = "unknown exception";
    if (auto p = std::current_exception())
    {
        try { std::rethrow_exception(p); }
        catch (const std::exception &e) { snprintf(what, sizeof what, "%s", e.what()); }
        catch (...) {}
    }
    snprintf(me->msg, MSG, "std::terminate called: %s", what);
    me->failed = 1;
    _exit(66);
}
}

namespace seq
{
uint64_t hash(const void *p, size_t n, uint64_t h)
{
    const unsigned char *c = (const unsigned char *)p;
    h ^= 0x9e3779b97f4a7c15ull + n;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
    h *= 0xbf58476d1ce4e5b9ull;
    return h ^ (h >> 32);
}
int choose(int n)
{
    if (n <= 0) { fprintf(stderr, "seq: choose(%d)\n", n); abort(); }
    if (n == 1) return 0;
    if (me->pos < me->nch)
    {
        choice &c = me->ch[me->pos++];
        if (c.n != n)
        {
            if (in_replay && c.val < n) { c.n = n; return c.val; }
            snprintf(me->msg, MSG, "INTERNAL nondeterminism: choice %d had %d alternatives, now %d", me->pos - 1, c.n, n);
            me->failed = 2;
            _exit(67);
        }
        return c.val;
    }
    if (skipped) return 0;
    if (me->pos >= MAXC) { snprintf(me->msg, MSG, "INTERNAL too many choices"); me->failed = 2; _exit(67); }
    me->ch[me->pos].val = 0;
    me->ch[me->pos].n = n;
    me->nch = ++me->pos;
    return 0;
}
// Ownership of a prefix is decided before running it, see next().
void fail(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); vset(fmt, ap); va_end(ap);
    me->failed = 1;
    me->nch = me->pos;
    _exit(66);
}
void fail_key(const char *key, const char *fmt, ...)
{
    for (size_t i = 0; i < known_keys.size(); ++i)
        if (known_keys[i] == key) { me->knownhits[i]++; throw known_t(); }
    va_list ap; va_start(ap, fmt); vset(fmt, ap); va_end(ap);
    me->failed = 1;
    me->nch = me->pos;
    _exit(66);
}
void discard() { throw discard_t(); }
bool logging() { return log_on; }
void log(const char *fmt, ...)
{
    if (!log_on) return;
    char b[1000];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    size_t l = strlen(me->trc);
    if (l + strlen(b) + 3 < MSG) { strcat(me->trc, b); strcat(me->trc, "; "); }
    if (in_replay) { fprintf(stderr, "  %s\n", b); }
}
void state(uint64_t h) { if (!seq_fork_each && states->size() < 20000000) states->insert(h); }
bool thorough() { return tier_deep; }
std::string show(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        if (r.size() > 200) { r += "..."; break; }
    }
    return r + "\"";
}
}

namespace
{
void arm(int s)
{
    struct itimerval it = {};
    it.it_value.tv_sec = s;
    setitimer(ITIMER_REAL, &it, nullptr);
}
// Runs the execution whose prefix is in me->ch[0..nch).
void run_one()
{
    me->pos = 0;
    me->discarded = 0;
    try { seq_run(me->scen); }
    catch (const seq::discard_t &) { me->discarded = 1; }
    catch (const seq::known_t &) { me->discarded = 1; }
    catch (const std::exception &e)
    {
        snprintf(me->msg, MSG, "unexpected exception: %s", e.what());
        me->failed = 1; me->nch = me->pos; _exit(66);
    }
    catch (...)
    {
        snprintf(me->msg, MSG, "unexpected exception of unknown type");
        me->failed = 1; me->nch = me->pos; _exit(66);
    }
}
// Every execution is the extension by zeros of its last non-zero position; the owner of an execution is decided
// by its first shard_depth choices.
bool mine()
{
    uint64_t h = 7;
    for (int i = 0; i < shard_depth && i < me->nch; ++i) h = h * 31 + me->ch[i].val + 1;
    h = seq::hash(&h, sizeof h, me->scen);
    return (int)(h % njobs) == myid;
}
bool advance()   // to the next prefix in depth-first order
{
    while (me->nch > 0)
    {
        choice &c = me->ch[me->nch - 1];
        if (c.val + 1 < c.n) { c.val++; return true; }
        me->nch--;
    }
    return false;
}
void child_setup()
{
    signal(SIGALRM, on_alarm);
    std::set_terminate(on_terminate);
}
void exec_prefix()
{
    if (!seq_fork_each)
    {
        arm(seq_exec_timeout);
        run_one();
        return;
    }
    pid_t p = fork();
    if (p < 0) { snprintf(me->msg, MSG, "INTERNAL fork failed"); me->failed = 2; _exit(67); }
    if (p == 0)
    {
        child_setup();
        arm(seq_exec_timeout);
        run_one();
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (me->failed) _exit(me->failed == 1 ? 66 : 67);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
        if (WIFSIGNALED(st)) snprintf(me->msg, MSG, "execution ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else snprintf(me->msg, MSG, "execution ended with status %d (sanitizer report or exit)", WEXITSTATUS(st));
        me->failed = 1; me->nch = me->pos;
        _exit(66);
    }
}
void worker(int first, int last)
{
    child_setup();
    states = new std::unordered_set<uint64_t>();
    for (int s = first; s < last; ++s)
    {
        if (only_scen >= 0 && s != only_scen) continue;
        me->scen = s;
        me->nch = 0;
        int keep = -1;   // number of leading choices already counted
        (void)keep;
        for (;;)
        {
            int before = me->nch;
            bool own = true;
            if (me->nch >= shard_depth) own = mine();
            if (!own)
            {
                // the prefix belongs to someone else: skip its whole subtree at the shard depth
                me->nch = shard_depth;
                if (!advance()) break;
                continue;
            }
            skipped = 0;
            exec_prefix();
            // executions that ended before the shard depth, or whose first choices were extended by zeros
            if (before < shard_depth && !mine())
            {
                if (me->nch > shard_depth) me->nch = shard_depth;
            }
            else
            {
                me->execs++;
                me->trans += me->nch - (before > 0 ? before - 1 : 0);
                if (me->discarded) me->discards++;
                if ((uint64_t)me->nch > me->maxlen) me->maxlen = me->nch;
            }
            if (!advance()) break;
        }
    }
    arm(0);
    me->nstates = states->size();
    // hand the state set over through a file
    char path[64];
    snprintf(path, sizeof path, "/proc/self/fd/%d", 100 + myid);
    FILE *f = fopen(path, "wb");
    if (f)
    {
        for (uint64_t h : *states) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    me->done = 1;
    fflush(nullptr);
    _exit(0);
}
std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
std::string vec(const slot *s)
{
    std::string r;
    for (int i = 0; i < s->nch; ++i) { char b[32]; snprintf(b, sizeof b, "%s%d/%d", i ? " " : "", s->ch[i].val, s->ch[i].n); r += b; }
    return r;
}
// Runs one choice vector in a fresh process. Returns 0 held, 1 violated, 2 internal; fills msg and trace.
int run_vector(int scen, const std::vector<choice> &v, std::string &msg, std::string &tr, bool verbose)
{
    slot *s = &slots[MAXW];
    memset(s, 0, sizeof *s);
    s->scen = scen;
    s->nch = (int)v.size();
    for (size_t i = 0; i < v.size(); ++i) s->ch[i] = v[i];
    int efd[2];
    if (pipe(efd)) return 2;
    pid_t p = fork();
    if (p == 0)
    {
        me = s;
        close(efd[0]);
        int errcopy = dup(2);
        dup2(efd[1], 2);
        if (verbose) dup2(errcopy, 2);
        close(efd[1]);
        close(errcopy);
        in_replay = verbose;
        log_on = true;
        states = new std::unordered_set<uint64_t>();
        child_setup();
        arm(seq_exec_timeout);
        bool fe = seq_fork_each;
        seq_fork_each = true;  // states are not collected
        (void)fe;
        run_one();
        _exit(0);
    }
    close(efd[1]);
    std::string err;
    char b[4096];
    ssize_t n;
    while ((n = read(efd[0], b, sizeof b)) > 0) err.append(b, n);
    close(efd[0]);
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    tr = s->trc;
    if (s->failed == 2) { msg = s->msg; return 2; }
    if (s->failed == 1) { msg = s->msg; return 1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    size_t a = err.find("ERROR:");
    if (a == std::string::npos) a = err.find("runtime error");
    if (a != std::string::npos && err.rfind('\n', a) != std::string::npos) a = err.rfind('\n', a) + 1;
    msg = "crash: " + (a == std::string::npos ? err.substr(0, 600) : err.substr(a, 600));
    if (WIFSIGNALED(st)) msg += " (signal " + std::to_string(WTERMSIG(st)) + ")";
    return 1;
}
}

int main(int argc, char **argv)
{
    std::string out, replay, repl_out;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--replay-out") repl_out = argv[++i];
        else if (a == "--deep") tier_deep = true;
        else if (a == "--jobs") njobs = atoi(argv[++i]);
        else if (a == "--scen") only_scen = atoi(argv[++i]);
        else if (a == "--known") known_keys.push_back(argv[++i]);
    }
    if (known_keys.size() > NKEYS) return 2;
    if (njobs > MAXW) njobs = MAXW;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    slots = (slot *)mmap(nullptr, sizeof(slot) * (MAXW + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    me = &slots[MAXW];
    if (!replay.empty())
    {
        FILE *f = fopen(replay.c_str(), "r");
        int scen = 0, deep = 0, v, n;
        if (!f || fscanf(f, "scenario %d deep %d choices", &scen, &deep) != 2) { fprintf(stderr, "bad replay file\n"); return 2; }
        tier_deep = deep;
        std::vector<choice> cv;
        while (fscanf(f, " %d/%d", &v, &n) == 2) cv.push_back({(short)v, (short)n});
        fclose(f);
        std::string msg, tr;
        fprintf(stderr, "replaying scenario %d (%s), %zu choices\n", scen, seq_scenario_name(scen), cv.size());
        int r = run_vector(scen, cv, msg, tr, true);
        printf("%s %s\n", r == 1 ? "VIOLATED:" : r == 0 ? "HELD" : "INTERNAL:", msg.c_str());
        return r;
    }
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    int ns = seq_nscenarios();
    std::vector<pid_t> pids(njobs);
    for (int w = 0; w < njobs; ++w)
    {
        int mfd = memfd_create("states", 0);
        dup2(mfd, 100 + w);
        if (mfd != 100 + w) close(mfd);
    }
    fflush(nullptr);
    for (int w = 0; w < njobs; ++w)
        if ((pids[w] = fork()) == 0)
        {
            myid = w;
            me = &slots[w];
            if (!getenv("SEQ_STDERR")) { int nul = open("/dev/null", O_RDWR); dup2(nul, 2); dup2(nul, 1); close(nul); }
            worker(0, ns);
        }
    // wait; stop everyone at the first failure
    int left = njobs;
    bool bad = false;
    std::vector<int> sts(njobs, 0);
    while (left)
    {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        for (int w = 0; w < njobs; ++w)
            if (pids[w] == p)
            {
                pids[w] = -1;
                --left;
                sts[w] = st;
                if (!bad && (!WIFEXITED(st) || WEXITSTATUS(st) != 0))
                {
                    bad = true;
                    if (!slots[w].failed) { slots[w].failed = 1; slots[w].nch = slots[w].pos; }
                    for (pid_t q : pids) if (q > 0) kill(q, SIGKILL);
                }
            }
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    double wall = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9;
    uint64_t execs = 0, trans = 0, disc = 0, maxlen = 0;
    std::vector<uint64_t> kh(known_keys.size(), 0);
    std::vector<uint64_t> all;
    for (int w = 0; w < njobs; ++w)
    {
        execs += slots[w].execs; trans += slots[w].trans; disc += slots[w].discards;
        maxlen = std::max(maxlen, slots[w].maxlen);
        for (size_t i = 0; i < kh.size(); ++i) kh[i] += slots[w].knownhits[i];
        off_t n = lseek(100 + w, 0, SEEK_END);
        size_t o = all.size();
        all.resize(o + n / 8);
        if (n && pread(100 + w, all.data() + o, n, 0) != n) {}
    }
    std::sort(all.begin(), all.end());
    size_t nst = std::unique(all.begin(), all.end()) - all.begin();
    int rc = 0;
    std::string viol;
    if (bad)
    {
        const slot *s = nullptr;
        for (int w = 0; w < njobs; ++w) if (slots[w].failed && (!s || slots[w].failed > s->failed)) s = &slots[w];
        std::vector<choice> cv(s->ch, s->ch + std::min(s->nch, MAXC));
        std::string m1, m2, t1s, t2s;
        int r1 = s->failed == 2 ? 2 : run_vector(s->scen, cv, m1, t1s, false);
        int r2 = s->failed == 2 ? 2 : run_vector(s->scen, cv, m2, t2s, false);
        // an execution that depends on what it finds in memory need not fail every time
        for (int k = 0; k < 4 && s->failed != 2 && r1 != 1; ++k) { m1 = m2; t1s = t2s; r1 = r2; r2 = run_vector(s->scen, cv, m2, t2s, false); }
        if (r1 == 1)
        {
            rc = 1;
            if (!repl_out.empty())
            {
                FILE *f = fopen(repl_out.c_str(), "w");
                fprintf(f, "scenario %d deep %d choices\n%s\nname: %s\nmessage: %s\ntrace: %s\n", s->scen, (int)tier_deep, vec(s).c_str(), seq_scenario_name(s->scen), m1.c_str(), t1s.c_str());
                fclose(f);
            }
            viol = "{\"scenario\":" + jstr(seq_scenario_name(s->scen)) + ",\"message\":" + jstr(m1) + ",\"choices\":" + jstr(vec(s)) + ",\"trace\":" + jstr(t1s) + "}";
            printf("violation in scenario %s: %s\n  choices: %s\n  trace: %s\n", seq_scenario_name(s->scen), m1.c_str(), vec(s).c_str(), t1s.c_str());
        }
        else
        {
            rc = s->failed == 2 || r1 == 2 || r2 == 2 ? 2 : 3;
            if (rc == 3)
                viol = "{\"scenario\":" + jstr(seq_scenario_name(s->scen)) + ",\"message\":" + jstr(s->msg) + ",\"choices\":" + jstr(vec(s)) + ",\"trace\":\"after other executions in the same process\"}";
            printf("INTERNAL: failure not reproduced (%d %d): scenario %s: %s / %s / %s; choices %s\n", r1, r2, seq_scenario_name(s->scen), s->msg, m1.c_str(), m2.c_str(), vec(s).c_str());
        }
    }
    // samples: the default execution and some deterministic other ones per scenario
    std::vector<std::string> samples;
    if (rc == 0)
    {
        uint64_t x = 88172645463325252ull;
        for (int s = 0; s < ns && samples.size() < 12; ++s)
        {
            if (only_scen >= 0 && s != only_scen) continue;
            int per = ns > 6 ? 1 : 2;
            for (int k = 0; k < per; ++k)
            {
                std::vector<choice> cv;
                std::string m, tr;
                // a short random vector made legal by clamping at run time
                for (int i = 0; i < 12; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; cv.push_back({(short)0, (short)0}); }
                slot *sl = &slots[MAXW];
                (void)sl;
                // discover arities step by step
                std::vector<choice> pre;
                for (int step = 0; step < 12; ++step)
                {
                    std::string mm, tt;
                    int r = run_vector(s, pre, mm, tt, false);
                    m = mm; tr = tt;
                    if (r != 0 || slots[MAXW].nch <= (int)pre.size()) break;
                    choice c = slots[MAXW].ch[pre.size()];
                    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                    c.val = (short)(x % c.n);
                    pre.push_back(c);
                }
                samples.push_back(std::string(seq_scenario_name(s)) + ": " + tr);
            }
        }
    }
    std::string j = "{\"executions\":" + std::to_string(execs) + ",\"transitions\":" + std::to_string(trans) + ",\"states\":" + std::to_string(nst) +
        ",\"discarded\":" + std::to_string(disc) + ",\"max_choices\":" + std::to_string(maxlen) + ",\"scenarios\":" + std::to_string(ns) + ",\"wall_s\":" + std::to_string(wall) + ",\"complete\":" + (rc == 0 ? "true" : "false") + ",\"known\":{";
    for (size_t i = 0; i < kh.size(); ++i) j += (i ? "," : "") + jstr(known_keys[i]) + ":" + std::to_string(kh[i]);
    j += "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) j += (i ? "," : "") + jstr(samples[i]);
    j += "],\"violation\":" + (viol.empty() ? std::string("null") : viol) + "}\n";
    if (!out.empty())
    {
        FILE *f = fopen(out.c_str(), "w");
        fputs(j.c_str(), f);
        fclose(f);
    }
    printf("%llu executions, %llu transitions, %zu states, %.1fs, rc=%d\n", (unsigned long long)execs, (unsigned long long)trans, nst, wall, rc);
    return rc;
}
