// Explorer: enumerates all choices of an execution in order of cost, on forked copies of this process.
#include "xs.h"
#include "xs_int.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
using namespace xsi;
extern "C" int xs_bound(int i, int deep) __attribute__((weak));

namespace
{
int jobs = 8, deep = 0;
double budget = 0;
uint64_t max_exec = 0;
std::string scratch;

double mono()
{
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}
struct Worker { pid_t pid; int to, from; Slot *slot; bool busy; };
std::vector<Worker> ws;
Slot *extra;

void clean_dir(const std::string &d)
{
    // the scratch directory of one worker: only plain names inside it
    for (const char *n : {"s", "s2", "c", "c2", "t", "u", "v", "w"}) unlink((d + "/" + n).c_str());
}
void run_in_fork(Slot *s)
{
    pid_t p = fork();
    if (p == 0)
    {
        setpgid(0, 0);
        run_child(s);
        _exit(3);
    }
    int st = 0;
    while (syscall(SYS_wait4, p, &st, 0, nullptr) < 0 && errno == EINTR) {}
    kill(-p, SIGKILL);   // scripted children that are left
    if (s->status == ST_RUNNING)
    {
        s->status = ST_VIOLATION;
        if (WIFSIGNALED(st)) snprintf(s->msg, MSG, "execution ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else snprintf(s->msg, MSG, "execution ended with status %d", WEXITSTATUS(st));
    }
}
void worker_main(int id, int in, int out, Slot *s)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(id % (int)sysconf(_SC_NPROCESSORS_ONLN), &cs);
    sched_setaffinity(0, sizeof cs, &cs);
    std::string d = scratch + "/" + std::to_string(id);
    mkdir(d.c_str(), 0700);
    if (chdir(d.c_str())) _exit(4);
    char c;
    while (syscall(SYS_read, in, &c, 1) == 1)
    {
        clean_dir(d);
        run_in_fork(s);
        c = (char)id;
        if (syscall(SYS_write, out, &c, 1) != 1) break;
    }
    clean_dir(d);
    if (chdir("/")) {}
    rmdir(d.c_str());
    _exit(0);
}
std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
std::string symbolize(const std::string &m)
{
    std::string out;
    size_t i = 0;
    while (i < m.size())
    {
        size_t a = m.find("{pc ", i);
        if (a == std::string::npos) { out += m.substr(i); break; }
        size_t b = m.find('}', a);
        out += m.substr(i, a - i);
        std::string pc = m.substr(a + 4, b - a - 4);
        char cmd[300], line[600] = "";
        snprintf(cmd, sizeof cmd, "addr2line -Cfpse /proc/%d/exe 0x%lx 2>/dev/null", (int)getpid(), strtoul(pc.c_str(), nullptr, 16) - 1);
        if (FILE *f = popen(cmd, "r")) { if (fgets(line, sizeof line, f)) line[strcspn(line, "\n")] = 0; pclose(f); }
        out += line[0] && line[0] != '?' ? line : pc;
        i = b + 1;
    }
    return out;
}
typedef std::basic_string<uint8_t> Bytes;
struct Item { Bytes prefix; uint64_t sig; int n; };
Bytes chosen(const Slot *s)
{
    Bytes b;
    for (int i = 0; i < s->nrec; ++i) b.push_back(s->rec[i].chosen);
    return b;
}
void prep(Slot *s, int scen, const Bytes &p, bool prune, bool trace, const Item *it)
{
    s->scen = scen;
    s->deep = deep;
    s->nprefix = (int)p.size();
    memcpy(s->prefix, p.data(), p.size());
    s->prune = prune;
    s->trace = trace;
    s->expect_n = it ? it->n : 0;
    s->expect_sig = it ? it->sig : 0;
    s->status = ST_RUNNING;
    s->nrec = 0;
}
// One execution outside the search.
void run_single(int scen, const Bytes &p, bool trace)
{
    std::string d = scratch + "/x";
    mkdir(d.c_str(), 0700);
    char old[512];
    if (!getcwd(old, sizeof old)) strcpy(old, "/");
    if (chdir(d.c_str())) exit(4);
    clean_dir(d);
    prep(extra, scen, p, false, trace, nullptr);
    run_in_fork(extra);
    clean_dir(d);
    if (chdir(old)) {}
    rmdir(d.c_str());
}
struct Result
{
    uint64_t execs = 0, states = 0, trans = 0, points = 0, pruned = 0, discarded = 0, validated = 0, known = 0;
    int maxrec = 0, maxthreads = 0, bound = 0, done_bound = -1;
    bool complete = false;
    std::map<std::string, uint64_t> obs;
    std::vector<std::string> samples;
    int rc = 0;
    std::string msg, trace, choices, obs_v;
};
Result explore(int scen)
{
    Result R;
    int bound = xs_bound ? xs_bound(scen, deep) : (deep ? 3 : 2);
    R.bound = bound;
    double t0 = mono();
    memset(visited->tab, 0, (visited->mask + 1) * 8);
    std::vector<std::deque<Item>> q(bound + 1);
    q[0].push_back(Item{Bytes(), 0, 0});
    std::vector<Item> cur(ws.size());
    std::vector<Bytes> keep;     // executions replayed for validation
    int busy = 0;
    bool stop = false;
    int level = 0;
    uint64_t seen_n = 0;
    std::vector<int> cost_of(ws.size());
    while (true)
    {
        // dispatch
        bool starved = true;
        if (!stop)
        {
            while (level <= bound && q[level].empty() && busy == 0) { R.done_bound = level; ++level; }
            if (level > bound) break;
            for (size_t w = 0; w < ws.size() && !q[level].empty(); ++w)
                if (!ws[w].busy)
                {
                    cur[w] = std::move(q[level].front());
                    q[level].pop_front();
                    prep(ws[w].slot, scen, cur[w].prefix, true, false, cur[w].n ? &cur[w] : nullptr);
                    ws[w].busy = true;
                    cost_of[w] = level;
                    ++busy;
                    char c = 'g';
                    if (write(ws[w].to, &c, 1) != 1) exit(5);
                }
        }
        if (!busy) break;
        (void)starved;
        // collect
        char b[64];
        ssize_t k = read(ws[0].from, b, sizeof b);
        if (k <= 0) { if (errno == EINTR) continue; exit(6); }
        for (ssize_t i = 0; i < k; ++i)
        {
            int w = b[i];
            ws[w].busy = false;
            --busy;
            if (stop) continue;
            Slot *s = ws[w].slot;
            R.execs++;
            R.points += s->points;
            R.maxrec = std::max(R.maxrec, s->nrec);
            R.maxthreads = std::max(R.maxthreads, s->nthreads);
            if (s->status == ST_VIOLATION || s->status == ST_INTERNAL)
            {
                stop = true;
                R.rc = s->status == ST_VIOLATION ? 1 : 2;
                R.msg = s->msg;
                Bytes v = chosen(s);
                if (R.rc == 1)
                {
                    // replay twice before believing it
                    std::string m[2];
                    int st[2];
                    for (int r = 0; r < 2; ++r)
                    {
                        run_single(scen, v, true);
                        st[r] = extra->status;
                        m[r] = extra->msg;
                    }
                    for (int r = 0; r < 4 && st[0] != ST_VIOLATION; ++r)
                    {
                        run_single(scen, v, true);
                        st[0] = extra->status;
                        m[0] = extra->msg;
                    }
                    if (st[0] != ST_VIOLATION)
                    {
                        R.rc = 3;
                        R.msg = "violation not reproduced: " + R.msg + " / " + m[0] + " / " + m[1];
                    }
                    else { R.trace = extra->trc; R.msg = m[0]; R.obs_v = extra->obs; }
                }
                for (uint8_t c : v) R.choices += std::to_string(c) + " ";
                continue;
            }
            if (s->keyhit) R.known++;
            if (s->status == ST_DISCARD) R.discarded++;
            else if (s->status == ST_PRUNED) R.pruned++;
            else if (R.obs.size() < 200000) R.obs[s->obs]++;
            // the executions kept for validation: powers of two and some more
            ++seen_n;
            if (s->status == ST_OK && ((seen_n & (seen_n - 1)) == 0 || seen_n % 5003 == 0) && keep.size() < 40) keep.push_back(chosen(s));
            // new alternatives
            int c = 0;
            for (int j = 0; j < s->nrec; ++j)
            {
                Rec &r = s->rec[j];
                if (j >= s->nprefix)
                {
                    if (!insert(visited, r.sig)) break;
                    R.states++;
                    if (R.states > visited->mask / 2) { fprintf(stderr, "state table full\n"); stop = true; R.rc = 0; break; }
                    R.trans++;
                    for (int a = 0; a < r.n; ++a)
                    {
                        if (a == r.chosen) continue;
                        int nc = c + r.cost[a];
                        if (nc > bound) continue;
                        Item it;
                        it.prefix.reserve(j + 1);
                        for (int x = 0; x < j; ++x) it.prefix.push_back(s->rec[x].chosen);
                        it.prefix.push_back((uint8_t)a);
                        it.sig = r.sig;
                        it.n = r.n;
                        R.trans++;
                        q[nc].push_back(std::move(it));
                    }
                }
                c += r.cost[r.chosen];
            }
            if ((budget > 0 && mono() - t0 > budget) || (max_exec && R.execs >= max_exec)) { stop = true; }
        }
    }
    R.complete = !stop;
    if (R.rc == 0)
    {
        // determinism of the machinery: replayed executions end the same way
        for (size_t i = 0; i < keep.size(); ++i)
        {
            run_single(scen, keep[i], true);
            if (extra->status != ST_OK || chosen(extra) != keep[i])
            {
                R.rc = 2;
                R.msg = std::string("a replayed execution ended differently: ") + extra->msg;
                break;
            }
            R.validated++;
            if (i < 1 || (i == keep.size() - 1 && i > 1))
            {
                std::string t = extra->trc;
                std::replace(t.begin(), t.end(), '\n', ';');
                if (t.size() > 900) t = t.substr(0, 900) + "...";
                R.samples.push_back(std::string(xs_scenario_name(scen)) + " | observed: " + std::string(extra->obs).substr(0, 200) + " | schedule: " + t);
            }
        }
    }
    return R;
}
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE))
    {
        if (personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) >= 0 && !getenv("XS_REEXEC"))
        {
            setenv("XS_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    std::string out, replay, repl_out;
    int only = -1;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--replay-out") repl_out = argv[++i];
        else if (a == "--deep") deep = 1;
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--scen") only = atoi(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--max") max_exec = strtoull(argv[++i], nullptr, 10);
        else if (a == "--known" && nknown < 16) { strncpy(known_keys[nknown], argv[++i], 79); nknown++; }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    signal(SIGPIPE, SIG_DFL);
    struct rlimit rl = {1024, 1024};
    setrlimit(RLIMIT_NOFILE, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    char tmpl[] = "/tmp/xs-XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    scratch = tmpl;
    size_t tabn = 1ull << (deep ? 26 : 23);
    visited = (Visited *)mmap(nullptr, 16 + tabn * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    visited->mask = tabn - 1;
    Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * (jobs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    extra = &slots[jobs];
    if (!replay.empty())
    {
        FILE *f = fopen(replay.c_str(), "r");
        int scen = 0, dp = 0, v;
        if (!f || fscanf(f, "scenario %d deep %d choices", &scen, &dp) != 2) { fprintf(stderr, "bad replay file\n"); return 2; }
        deep = dp;
        Bytes p;
        while (fscanf(f, " %d", &v) == 1) p.push_back((uint8_t)v);
        fclose(f);
        run_single(scen, p, true);
        printf("scenario %d: %s\n%s%s: %s\nobserved: %s\n", scen, xs_scenario_name(scen), extra->trc,
            extra->status == ST_VIOLATION ? "VIOLATED" : extra->status == ST_OK ? "HELD" : "OTHER", symbolize(extra->msg).c_str(), extra->obs);
        rmdir(scratch.c_str());
        return extra->status == ST_VIOLATION ? 1 : extra->status == ST_OK ? 0 : 2;
    }
    int back[2];
    if (pipe(back)) return 2;
    for (int i = 0; i < jobs; ++i)
    {
        int to[2];
        if (pipe(to)) return 2;
        pid_t p = fork();
        if (p == 0)
        {
            close(to[1]);
            close(back[0]);
            for (Worker &w : ws) close(w.to);
            // leave 0..2 and high descriptors for the machinery only
            int in = fcntl(to[0], F_DUPFD, 1000), o = fcntl(back[1], F_DUPFD, 1000);
            close(to[0]);
            close(back[1]);
            worker_main(i, in, o, &slots[i]);
        }
        close(to[0]);
        ws.push_back(Worker{p, to[1], back[0], &slots[i], false});
    }
    double t0 = mono();
    int rc = 0;
    std::string per, viol;
    uint64_t execs = 0, states = 0, trans = 0, validated = 0, points = 0, nobs = 0, pruned = 0, known = 0, disc = 0;
    bool complete = true;
    std::vector<std::string> samples;
    int ns = xs_nscenarios();
    for (int s = 0; s < ns && rc == 0; ++s)
    {
        if (only >= 0 && s != only) continue;
        double a = mono();
        Result R = explore(s);
        double w = mono() - a;
        printf("  [%d] %s: bound %d/%d%s, %llu executions (%llu pruned, %llu discarded), %llu states, %llu transitions, %zu outcomes, <=%d decisions, %d threads, %.1fs\n", s, xs_scenario_name(s), R.done_bound, R.bound,
            R.complete ? "" : " INCOMPLETE", (unsigned long long)R.execs, (unsigned long long)R.pruned, (unsigned long long)R.discarded, (unsigned long long)R.states, (unsigned long long)R.trans, R.obs.size(), R.maxrec, R.maxthreads, w);
        execs += R.execs; states += R.states; trans += R.trans; validated += R.validated; points += R.points; nobs += R.obs.size(); pruned += R.pruned; known += R.known; disc += R.discarded;
        complete = complete && R.complete;
        for (auto &x : R.samples) if (samples.size() < 12) samples.push_back(x);
        std::string ob;
        int k = 0;
        for (auto &o : R.obs) if (k++ < 6) ob += (k > 1 ? "," : "") + jstr(o.first.substr(0, 120));
        per += std::string(per.empty() ? "" : ",") + "{\"scenario\":" + jstr(xs_scenario_name(s)) + ",\"cost_bound\":" + std::to_string(R.bound) + ",\"cost_bound_completed\":" + std::to_string(R.done_bound) +
            ",\"executions\":" + std::to_string(R.execs) + ",\"states\":" + std::to_string(R.states) + ",\"transitions\":" + std::to_string(R.trans) + ",\"outcomes\":" + std::to_string(R.obs.size()) + ",\"some_outcomes\":[" + ob + "],\"discarded\":" + std::to_string(R.discarded) + ",\"threads\":" + std::to_string(R.maxthreads) + ",\"wall_s\":" + std::to_string(w) + "}";
        if (R.rc)
        {
            rc = R.rc;
            std::string m = symbolize(R.msg);
            if (rc == 1)
            {
                viol = "{\"scenario\":" + jstr(xs_scenario_name(s)) + ",\"message\":" + jstr(m) + ",\"choices\":" + jstr(R.choices) + "}";
                if (!repl_out.empty())
                {
                    FILE *f = fopen(repl_out.c_str(), "w");
                    fprintf(f, "scenario %d deep %d choices\n%s\nname: %s\nmessage: %s\nobserved: %s\ntrace:\n%s\n", s, deep, R.choices.c_str(), xs_scenario_name(s), m.c_str(), R.obs_v.c_str(), R.trace.c_str());
                    fclose(f);
                }
                printf("violation in scenario %s: %s\n", xs_scenario_name(s), m.c_str());
            }
            else printf("INTERNAL in scenario %s: %s\n  choices: %s\n", xs_scenario_name(s), m.c_str(), R.choices.c_str());
        }
    }
    for (Worker &w : ws) { close(w.to); }
    for (Worker &w : ws) { int st; while (syscall(SYS_wait4, w.pid, &st, 0, nullptr) < 0 && errno == EINTR) {} }
    rmdir(scratch.c_str());
    std::string j = "{\"executions\":" + std::to_string(execs) + ",\"states\":" + std::to_string(states) + ",\"transitions\":" + std::to_string(trans) + ",\"validated\":" + std::to_string(validated) +
        ",\"points\":" + std::to_string(points) + ",\"outcomes\":" + std::to_string(nobs) + ",\"pruned\":" + std::to_string(pruned) + ",\"discarded\":" + std::to_string(disc) + ",\"known_hits\":" + std::to_string(known) + ",\"complete\":" + (complete && rc == 0 ? "true" : "false") + ",\"wall_s\":" + std::to_string(mono() - t0) + ",\"per_scenario\":[" + per + "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) j += (i ? "," : "") + jstr(samples[i]);
    j += "],\"violation\":" + (viol.empty() ? std::string("null") : viol) + "}\n";
    if (!out.empty())
    {
        FILE *f = fopen(out.c_str(), "w");
        if (f) { fputs(j.c_str(), f); fclose(f); }
    }
    printf("%llu executions, %llu states, %llu transitions, %.1fs, rc=%d\n", (unsigned long long)execs, (unsigned long long)states, (unsigned long long)trans, mono() - t0, rc);
    return rc;
}
