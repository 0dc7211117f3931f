// C24: every short sequence of the signal helpers, each in a fresh process driven in lockstep, against an
// automaton of masks, pending sets and dispositions; the kernel's own view comes from /proc/<pid>/status.
#include "seq.h"
#include "cppev/utils.h"
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <system_error>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace cppev;

static const char *names[] = {"two standard signals", "a standard and a real-time signal", "signals sent while waiting or suspended",
    "masks of threads", "process and group checks", "each signal by itself", "a signal ignored by default"};
int seq_nscenarios() { return 7; }
const char *seq_scenario_name(int i) { return names[i]; }

namespace
{
enum op { IGN, DFL, HND, HND0, BLK, UNB, RAISE, SEND, WAIT, WAITV, SUSP, SUSPV, BLKV, UNBV, RAISEOTHER, NOP, TBLK, TUNB };
struct cmd { int op, set; };                        // set: bit 0 signal A, bit 1 signal B
struct reply { int handled[2], mask[2], pend[2], ret, error, tmask[2], tpend[2]; };
int sig[2];
volatile int handled[2], seen_other;
void on_sig(int s) { if (s == sig[0]) handled[0] = handled[0] + 1; else if (s == sig[1]) handled[1] = handled[1] + 1; else seen_other = 1; }

std::vector<int> vec(int set)
{
    std::vector<int> v;
    for (int i = 0; i < 2; ++i) if (set & (1 << i)) v.push_back(sig[i]);
    return v;
}
[[noreturn]] void child(int fd)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    for (;;)
    {
        cmd c;
        ssize_t n = read(fd, &c, sizeof c);
        if (n < 0 && errno == EINTR) continue;
        if (n != sizeof c) _exit(0);
        reply r;
        memset(&r, 0, sizeof r);
        int s = sig[c.set == 2];
        if (c.op == WAIT || c.op == WAITV || c.op == SUSP || c.op == SUSPV) { char b = 'b'; if (write(fd, &b, 1) != 1) _exit(9); }
        try
        {
            switch (c.op)
            {
            case IGN: ignore_signal(s); break;
            case DFL: reset_signal(s); break;
            case HND: handle_signal(s, on_sig); break;
            case HND0: handle_signal(s); break;
            case BLK: thread_block_signal(s); break;
            case UNB: thread_unblock_signal(s); break;
            case BLKV: thread_block_signal(vec(c.set)); break;
            case UNBV: thread_unblock_signal(vec(c.set)); break;
            case RAISE: thread_raise_signal(s); break;
            case WAIT: thread_wait_for_signal(s); r.ret = s; break;
            case WAITV: r.ret = thread_wait_for_signal(vec(c.set)); break;
            case SUSP: thread_suspend_for_signal(s); break;
            case SUSPV: thread_suspend_for_signal(vec(c.set)); break;
            case TBLK: case TUNB:
                std::thread([&]
                {
                    if (c.op == TBLK) thread_block_signal(vec(c.set)); else thread_unblock_signal(vec(c.set));
                    for (int i = 0; i < 2; ++i) { r.tmask[i] = thread_check_signal_mask(sig[i]); r.tpend[i] = thread_check_signal_pending(sig[i]); }
                }).join();
                break;
            }
        }
        catch (const std::system_error &e) { r.error = e.code().value() ? e.code().value() : -1; }
        catch (...) { r.error = -2; }
        for (int i = 0; i < 2; ++i) { r.mask[i] = thread_check_signal_mask(sig[i]); r.pend[i] = thread_check_signal_pending(sig[i]); }
        for (int i = 0; i < 2; ++i) r.handled[i] = handled[i];
        if (seen_other) r.error = -3;
        if (write(fd, &r, sizeof r) != sizeof r) _exit(9);
    }
}
struct kview { uint64_t pnd, shd, blk, ign, cgt; char state; };
kview view(pid_t p)
{
    char path[64], line[256];
    snprintf(path, sizeof path, "/proc/%d/status", p);
    kview v = {};
    FILE *f = fopen(path, "r");
    if (!f) return v;
    unsigned long long x;
    while (fgets(line, sizeof line, f))
    {
        if (sscanf(line, "SigPnd: %llx", &x) == 1) v.pnd = x;
        else if (sscanf(line, "ShdPnd: %llx", &x) == 1) v.shd = x;
        else if (sscanf(line, "SigBlk: %llx", &x) == 1) v.blk = x;
        else if (sscanf(line, "SigIgn: %llx", &x) == 1) v.ign = x;
        else if (sscanf(line, "SigCgt: %llx", &x) == 1) v.cgt = x;
        else if (!strncmp(line, "State:", 6)) v.state = line[7];
    }
    fclose(f);
    return v;
}
uint64_t bit(int s) { return 1ull << (s - 1); }

struct model { int disp[2]; bool blk[2]; int th[2], sh[2]; int handled[2]; };   // disp: 0 default, 1 ignore, 2 counting handler, 3 default handler
struct proc
{
    pid_t pid = -1;
    int fd = -1;
    bool dead = false;
    int status = 0;
    uint64_t blk0 = 0, ign0 = 0, cgt0 = 0;
    model m;
    void start()
    {
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) abort();
        sigset_t none;
        sigemptyset(&none);
        sigprocmask(SIG_SETMASK, &none, nullptr);
        pid = fork();
        if (pid < 0) abort();
        if (pid == 0) { for (int i = 1; i < 65; ++i) signal(i, SIG_DFL); close(sv[0]); alarm(60); child(sv[1]); }
        close(sv[1]);
        fd = sv[0];
        memset(&m, 0, sizeof m);
        tell(cmd{NOP, 0});
        reply r;
        if (!hear(&r)) abort();
        kview v = view(pid);
        blk0 = v.blk; ign0 = v.ign; cgt0 = v.cgt;
    }
    void tell(cmd c) { if (!dead && send(fd, &c, sizeof c, MSG_NOSIGNAL) != sizeof c) gone(); }
    void gone()
    {
        if (dead) return;
        dead = true;
        if (waitpid(pid, &status, 0) != pid) abort();
    }
    // false: the process has ended
    bool hear(void *p, size_t n)
    {
        if (dead) return false;
        ssize_t r = recv(fd, p, n, MSG_WAITALL);
        if (r == (ssize_t)n) return true;
        gone();
        return false;
    }
    bool hear(reply *r) { return hear(r, sizeof *r); }
    ~proc()
    {
        if (pid > 0 && !dead) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); }
        if (fd >= 0) close(fd);
    }
};
bool rt(int i) { return sig[i] >= SIGRTMIN; }
bool ign_default(int i) { return sig[i] == SIGCHLD || sig[i] == SIGURG || sig[i] == SIGWINCH; }
bool ignored(const model &m, int i) { return m.disp[i] == 1 || (m.disp[i] == 0 && ign_default(i)); }
// deliver one instance of unblocked i; true: the process dies
bool act(model &m, int i)
{
    if (m.disp[i] == 2) m.handled[i]++;
    return m.disp[i] == 0 && !ign_default(i);
}
int deliver(model &m, int allowed)  // deliver pending signals in `allowed`; mask of signals that kill
{
    int kill = 0;
    for (int i = 0; i < 2; ++i)
        if (allowed & (1 << i))
        {
            while (m.th[i] + m.sh[i])
            {
                (m.th[i] ? m.th[i] : m.sh[i])--;
                if (act(m, i)) kill |= 1 << i;
            }
        }
    return kill;
}
int unblocked(const model &m) { return (m.blk[0] ? 0 : 1) | (m.blk[1] ? 0 : 2); }
void add(model &m, int i, bool thread)
{
    if (ignored(m, i) && !m.blk[i]) return;
    int &c = thread ? m.th[i] : m.sh[i];
    c = rt(i) ? c + 1 : 1;
}
const char *sn(int set) { return set == 0 ? "{}" : set == 1 ? "A" : set == 2 ? "B" : "{A,B}"; }
void expect_death(proc &p, int killers, const char *what)
{
    reply r;
    bool alive = p.hear(&r);
    SEQ_CHECK(!alive, "%s: the process survived a signal with default action", what);
    bool ok = WIFSIGNALED(p.status) && (((killers & 1) && WTERMSIG(p.status) == sig[0]) || ((killers & 2) && WTERMSIG(p.status) == sig[1]));
    SEQ_CHECK(ok, "%s: the process ended with status 0x%x instead of by the signal", what, p.status);
}
void compare(proc &p, const reply &r, const char *what)
{
    model &m = p.m;
    kview v = view(p.pid);
    uint64_t blk = p.blk0, ign = p.ign0, cgt = p.cgt0, pend = 0;
    for (int i = 0; i < 2; ++i)
    {
        blk &= ~bit(sig[i]); ign &= ~bit(sig[i]); cgt &= ~bit(sig[i]);
        if (m.blk[i]) blk |= bit(sig[i]);
        if (m.disp[i] == 1) ign |= bit(sig[i]);
        if (m.disp[i] >= 2) cgt |= bit(sig[i]);
        if (m.th[i] + m.sh[i]) pend |= bit(sig[i]);
    }
    SEQ_CHECK(r.error == 0, "%s raised an error (%d)", what, r.error);
    SEQ_CHECK(v.blk == blk, "after %s the blocked set is %llx instead of %llx", what, (unsigned long long)v.blk, (unsigned long long)blk);
    SEQ_CHECK((v.pnd | v.shd) == pend, "after %s the pending set is %llx instead of %llx", what, (unsigned long long)(v.pnd | v.shd), (unsigned long long)pend);
    SEQ_CHECK(v.ign == ign && v.cgt == cgt, "after %s the dispositions are ignored %llx, caught %llx instead of %llx, %llx", what,
        (unsigned long long)v.ign, (unsigned long long)v.cgt, (unsigned long long)ign, (unsigned long long)cgt);
    for (int i = 0; i < 2; ++i)
    {
        SEQ_CHECK(r.mask[i] == (int)m.blk[i], "after %s the mask query for %s says %d", what, sn(i + 1), r.mask[i]);
        SEQ_CHECK(r.pend[i] == (m.th[i] + m.sh[i] > 0), "after %s the pending query for %s says %d", what, sn(i + 1), r.pend[i]);
        SEQ_CHECK(r.handled[i] == m.handled[i], "after %s the handler of %s has run %d times instead of %d", what, sn(i + 1), r.handled[i], m.handled[i]);
    }
    seq::state(seq::hash(&m, sizeof m));
}
// the child is blocked in its wait (not merely about to)
void until_blocked(proc &p)
{
    for (int i = 0, k = 0; i < 100000 && k < 2; ++i)
    {
        if (view(p.pid).state == 'S') ++k; else k = 0;
        usleep(30);
    }
}
bool ended(proc &p) { pollfd f{p.fd, POLLIN, 0}; return poll(&f, 1, 0) > 0; }

// one operation; false: end of the history (process gone or nothing new)
bool step(proc &p, cmd c, bool late)
{
    model &m = p.m;
    char what[100];
    static const char *on[] = {"ignore", "reset", "handle", "handle (default handler)", "block", "unblock", "raise", "send", "wait for", "wait for list", "suspend for",
        "suspend for list", "block list", "unblock list", "", "query", "thread blocks", "thread unblocks"};
    snprintf(what, sizeof what, "%s %s", on[c.op], sn(c.set));
    seq::log("%s", what);
    int i = c.set == 2;
    reply r;
    switch (c.op)
    {
    case IGN: m.disp[i] = 1; m.th[i] = m.sh[i] = 0; break;
    case DFL: m.disp[i] = 0; if (ign_default(i)) m.th[i] = m.sh[i] = 0; break;
    case HND: m.disp[i] = 2; break;
    case HND0: m.disp[i] = 3; break;
    case BLK: case BLKV: for (int k = 0; k < 2; ++k) if (c.set & (1 << k)) m.blk[k] = true; break;
    case UNB: case UNBV: for (int k = 0; k < 2; ++k) if (c.set & (1 << k)) m.blk[k] = false; break;
    case RAISE: add(m, i, true); break;
    case SEND: send_signal(p.pid, sig[i]); add(m, i, false); c.op = NOP; break;
    case TBLK: case TUNB:
        p.tell(c);
        if (!p.hear(&r)) SEQ_CHECK(false, "%s: the process ended", what);
        for (int k = 0; k < 2; ++k)
        {
            bool b = (c.set & (1 << k)) ? c.op == TBLK : m.blk[k];
            SEQ_CHECK(r.tmask[k] == (int)b, "%s: mask query of the new thread for %s says %d", what, sn(k + 1), r.tmask[k]);
            // shared pending signals are seen by every thread; one that the new thread unblocks is delivered to it
        }
        if (c.op == TUNB)
            for (int k = 0; k < 2; ++k)
                if ((c.set & (1 << k)) && m.sh[k]) { while (m.sh[k]) { m.sh[k]--; act(m, k); } }
        compare(p, r, what);
        return true;
    case WAIT: case WAITV:
    {
        int got = -1;
        p.tell(c);
        char b;
        if (!p.hear(&b, 1)) SEQ_CHECK(false, "%s: the process ended", what);
        int cand = 0;
        for (int k = 0; k < 2; ++k) if ((c.set & (1 << k)) && m.th[k] + m.sh[k]) cand |= 1 << k;
        if (!cand)
        {
            until_blocked(p);
            SEQ_CHECK(!ended(p), "%s returned although none was pending", what);
            // a signal that is not waited for comes first
            int o = c.set == 3 ? -1 : 1 - i;
            if (o >= 0 && (m.blk[o] || m.disp[o]) && seq::choose(2))
            {
                seq::log("  meanwhile %s is sent", sn(o + 1));
                send_signal(p.pid, sig[o]);
                add(m, o, false);
                deliver(m, unblocked(m));
                // sigwait is restarted or interrupted, but must go on waiting
                until_blocked(p);
                SEQ_CHECK(!ended(p), "%s returned although only %s was sent", what, sn(o + 1));
            }
            int k = c.set == 3 ? seq::choose(2) : i;
            seq::log("  %s is sent", sn(k + 1));
            send_signal(p.pid, sig[k]);
            add(m, k, false);
            cand = 1 << k;
        }
        if (!p.hear(&r)) SEQ_CHECK(false, "%s: the process ended", what);
        for (int k = 0; k < 2; ++k) if (r.ret == sig[k]) got = k;
        SEQ_CHECK(got >= 0 && (cand & (1 << got)), "%s reported signal %d", what, r.ret);
        (m.th[got] ? m.th[got] : m.sh[got])--;
        compare(p, r, what);
        return true;
    }
    case SUSP: case SUSPV:
    {
        p.tell(c);
        char b;
        if (!p.hear(&b, 1)) SEQ_CHECK(false, "%s: the process ended", what);
        // what is pending and requested is delivered
        int before = m.handled[0] + m.handled[1];
        auto requested_default = [&](int k) { return (c.set & (1 << k)) && m.disp[k] == 3; };
        bool silent = false;      // a delivered instance went to the default handler, which leaves no trace
        for (int k = 0; k < 2; ++k) if (requested_default(k) && m.th[k] + m.sh[k]) silent = true;
        int several = 0;
        for (int k = 0; k < 2; ++k) if ((c.set & (1 << k)) && !ignored(m, k)) several += m.th[k] + m.sh[k];
        model pre = m;
        int killers = deliver(m, c.set);
        bool done = m.handled[0] + m.handled[1] > before || silent;
        if (killers && !done) { expect_death(p, killers, what); return false; }
        if (killers || several > 1)
        {
            // which of several pending ones ends the suspension is up to the system: accept any consistent outcome
            if (!p.hear(&r)) { SEQ_CHECK(killers && WIFSIGNALED(p.status), "%s: the process ended with 0x%x", what, p.status); return false; }
            SEQ_CHECK(done, "%s returned without a requested signal", what);
            kview v = view(p.pid);
            int h = 0;
            for (int k = 0; k < 2; ++k)
            {
                int d = r.handled[k] - pre.handled[k], had = pre.th[k] + pre.sh[k];
                if (!(c.set & (1 << k))) continue;
                SEQ_CHECK(d >= 0 && d <= had, "%s: the handler of %s ran %d times for %d pending", what, sn(k + 1), d, had);
                h += d;
                bool left = (v.pnd | v.shd) & bit(sig[k]);
                if (m.disp[k] == 2) SEQ_CHECK(left == (d < had), "%s: an instance of %s was lost or duplicated", what, sn(k + 1));
            }
            SEQ_CHECK(h > 0 || silent, "%s returned without having handled a requested signal", what);
            for (int k = 0; k < 2; ++k)
                SEQ_CHECK(r.mask[k] == (int)m.blk[k] && !!(v.blk & bit(sig[k])) == m.blk[k], "%s did not restore the mask of %s", what, sn(k + 1));
            return false;
        }
        if (!done)
        {
            until_blocked(p);
            SEQ_CHECK(!ended(p), "%s returned although no requested signal came", what);
            int o = c.set == 3 ? -1 : 1 - i;
            bool sent = false;
            if (o >= 0 && seq::choose(2))
            {
                seq::log("  meanwhile %s is sent", sn(o + 1));
                send_signal(p.pid, sig[o]);
                // it is blocked during the suspension
                int &n = m.sh[o];
                n = rt(o) ? n + 1 : 1;
                sent = true;
                until_blocked(p);
                SEQ_CHECK(!ended(p), "%s returned although only %s was sent", what, sn(o + 1));
            }
            (void)sent;
            int k = c.set == 3 ? seq::choose(2) : i;
            seq::log("  %s is sent", sn(k + 1));
            send_signal(p.pid, sig[k]);
            if (ignored(m, k))
            {
                until_blocked(p);
                SEQ_CHECK(!ended(p), "%s returned although %s is ignored", what, sn(k + 1));
                return false;
            }
            m.sh[k]++;
            killers = deliver(m, 1 << k);
            if (killers) { expect_death(p, killers, what); return false; }
        }
        // back to the old mask
        killers = deliver(m, unblocked(m));
        if (killers) { expect_death(p, killers, what); return false; }
        if (!p.hear(&r)) SEQ_CHECK(false, "%s: the process ended (status 0x%x)", what, p.status);
        compare(p, r, what);
        return true;
    }
    }
    p.tell(c);
    int killers = deliver(m, unblocked(m));
    if (killers) { expect_death(p, killers, what); return false; }
    if (!p.hear(&r)) SEQ_CHECK(false, "%s: the process ended with status 0x%x", what, p.status);
    compare(p, r, what);
    return true;
}
bool wait_ok(const model &m, int set) { for (int k = 0; k < 2; ++k) if ((set & (1 << k)) && (!m.blk[k] || (ignored(m, k) && !(m.th[k] + m.sh[k])))) return false; return true; }

void histories(int depth)
{
    static const cmd ops[] = {{IGN, 1}, {IGN, 2}, {DFL, 1}, {DFL, 2}, {HND, 1}, {HND, 2}, {HND0, 1}, {BLK, 1}, {BLK, 2}, {UNB, 1}, {UNB, 2}, {BLKV, 3}, {UNBV, 3},
        {BLKV, 0}, {UNBV, 0}, {RAISE, 1}, {RAISE, 2}, {SEND, 1}, {SEND, 2}, {WAIT, 1}, {WAIT, 2}, {WAITV, 3}, {SUSP, 1}, {SUSP, 2}, {SUSPV, 3}};
    proc p;
    // the first step is made without loss: dispositions and masks of the start
    p.start();
    int setup = seq::choose(4);
    if (setup & 1) { step(p, cmd{HND, 1}, false); step(p, cmd{HND, 2}, false); }
    if (setup & 2) step(p, cmd{BLKV, 3}, false);
    for (int d = 0; d < depth; ++d)
    {
        cmd c = ops[seq::choose(sizeof ops / sizeof *ops)];
        if ((c.op == WAIT || c.op == WAITV) && !wait_ok(p.m, c.set)) return;
        if (!step(p, c, false)) return;
    }
}
void waiting()
{
    // every start: dispositions of both, masks of both, what is pending, then a wait or a suspension, then a query
    proc p;
    p.start();
    for (int i = 0; i < 2; ++i)
    {
        static const int d[] = {DFL, IGN, HND};
        int k = seq::choose(3);
        if (k) step(p, cmd{d[k], 1 << i}, false);
    }
    int blk = seq::choose(4);
    if (blk) step(p, cmd{BLKV, blk}, false);
    for (int i = 0; i < 2; ++i)
        if (p.m.blk[i])
            switch (seq::choose(4))
            {
            case 1: step(p, cmd{RAISE, 1 << i}, false); break;
            case 2: step(p, cmd{SEND, 1 << i}, false); break;
            case 3: step(p, cmd{RAISE, 1 << i}, false); step(p, cmd{SEND, 1 << i}, false); break;
            }
    static const cmd ops[] = {{WAIT, 1}, {WAIT, 2}, {WAITV, 3}, {SUSP, 1}, {SUSP, 2}, {SUSPV, 3}, {SUSPV, 1}, {WAITV, 2}};
    int n = seq::bound(2, 3);
    for (int k = 0; k < n; ++k)
    {
        cmd c = ops[seq::choose(8)];
        if ((c.op == WAIT || c.op == WAITV) && !wait_ok(p.m, c.set)) return;
        if (!step(p, c, true)) return;
    }
    step(p, cmd{UNBV, 3}, false);
}
void threads()
{
    static const cmd ops[] = {{TBLK, 1}, {TBLK, 3}, {TUNB, 1}, {TUNB, 3}, {TBLK, 0}, {TUNB, 0}, {BLK, 1}, {UNB, 1}, {BLKV, 3}, {SEND, 1}, {RAISE, 2}, {RAISE, 1}};
    proc p;
    p.start();
    step(p, cmd{HND, 1}, false);
    step(p, cmd{HND, 2}, false);
    for (int d = 0; d < seq::bound(3, 4); ++d)
        if (!step(p, ops[seq::choose(sizeof ops / sizeof *ops)], false)) return;
}
void checks()
{
    int kind = seq::choose(5);      // 4: a member outlives the leader of its group
    bool other = seq::choose(2);    // asked by a process that may not signal it
    int fd[2], fr[2];
    if (pipe(fd) || pipe(fr)) abort();
    int fm[2];
    if (pipe(fm)) abort();
    if (kind == 4 && prctl(PR_SET_CHILD_SUBREAPER, 1)) abort();
    pid_t pid = fork();
    if (pid < 0) abort();
    if (pid == 0)
    {
        if (kind != 4) prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(fd[1]);
        close(fm[1]);
        if (kind >= 1) setpgid(0, 0);
        if (kind == 2 && fork() == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); pause(); }
        pid_t mem = 0;
        if (kind == 4 && (mem = fork()) == 0)
        {
            // ends with the checking process, which holds the other end
            char b;
            alarm(60);
            if (read(fm[0], &b, 1) < 0) _exit(1);
            _exit(0);
        }
        if (write(fr[1], &mem, sizeof mem) != sizeof mem) _exit(1);
        char b;
        if (read(fd[0], &b, 1) < 0) _exit(1);
        if (kind == 2) { signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); while (wait(nullptr) > 0) {} }
        _exit(0);
    }
    pid_t mem;
    if (read(fr[0], &mem, sizeof mem) != sizeof mem) abort();
    close(fm[0]);
    auto ask = [&](bool group, pid_t who) -> int
    {
        auto q = [&]() -> int
        {
            try { return group ? check_process_group(who) : check_process(who); }
            catch (const std::exception &) { return 2; }
        };
        if (!other) return q();
        pid_t c = fork();
        if (c == 0)
        {
            if (setgid(65534) || setuid(65534)) _exit(99);
            _exit(q());
        }
        int st;
        if (waitpid(c, &st, 0) != c) abort();
        if (WEXITSTATUS(st) == 99) seq::discard();
        return WEXITSTATUS(st);
    };
    struct fin { int *a, *b; pid_t p; ~fin() { close(a[0]); close(a[1]); close(b[0]); close(b[1]); if (p > 0) { kill(p, SIGKILL); waitpid(p, nullptr, 0); } } } f{fd, fr, pid};
    SEQ_CHECK(ask(false, pid) == 1, "a running process is not reported as existing");
    if (kind >= 1) SEQ_CHECK(ask(true, pid) == 1, "an existing process group is not reported as existing");
    else SEQ_CHECK(ask(true, pid) == 0, "a process that leads no group is reported as a process group");
    close(fd[1]); fd[1] = -1;
    if (kind == 3) kill(pid, SIGKILL);
    if (waitpid(pid, nullptr, 0) != pid) abort();
    f.p = -1;
    if (kind == 4)
    {
        SEQ_CHECK(ask(false, pid) == 0, "an ended process is reported as existing");
        SEQ_CHECK(ask(true, pid) == 1, "a process group is not reported as existing although a member lives");
        SEQ_CHECK(ask(false, mem) == 1, "a running process is not reported as existing");
        SEQ_CHECK(ask(true, mem) == 0, "a process that leads no group is reported as a process group");
    }
    close(fm[1]);
    if (kind == 4)
    {
        if (waitpid(mem, nullptr, 0) != mem) abort();
        SEQ_CHECK(ask(false, mem) == 0, "an ended process is reported as existing");
    }
    SEQ_CHECK(ask(false, pid) == 0, "an ended process is reported as existing");
    SEQ_CHECK(ask(true, pid) == 0, "an ended process group is reported as existing");
    SEQ_CHECK(ask(false, getpid()) == 1, "the own process is not reported as existing");
}
void each()
{
    static const int all[] = {SIGHUP, SIGINT, SIGQUIT, SIGPIPE, SIGTERM, SIGUSR1, SIGUSR2, SIGPROF, SIGVTALRM, SIGIO};
    int k = seq::choose(10);
    sig[0] = all[k];
    sig[1] = all[(k + 1) % 10];
    if (sig[0] == SIGQUIT || sig[1] == SIGQUIT) {}
    proc p;
    p.start();
    static const cmd ops[] = {{HND, 1}, {IGN, 1}, {BLK, 1}, {UNB, 1}, {RAISE, 1}, {SEND, 1}, {DFL, 1}, {WAIT, 1}, {SUSP, 1}};
    step(p, ops[seq::choose(2)], false);
    for (int d = 0; d < seq::bound(3, 4); ++d)
    {
        cmd c = ops[seq::choose(9)];
        if (c.op == WAIT && !wait_ok(p.m, c.set)) return;
        if (!step(p, c, false)) return;
    }
}
}
void seq_run(int sc)
{
    signal(SIGPIPE, SIG_IGN);
    signal(SIGCHLD, SIG_DFL);
    sig[0] = SIGUSR1;
    sig[1] = SIGUSR2;
    switch (sc)
    {
    case 0: histories(seq::bound(3, 4)); break;
    case 1: sig[0] = SIGRTMIN + 3; sig[1] = SIGTERM; histories(seq::bound(3, 4)); break;
    case 2: waiting(); break;
    case 3: threads(); break;
    case 4: checks(); break;
    case 5: each(); break;
    case 6: sig[1] = SIGURG; histories(seq::bound(2, 3)); break;
    }
}
