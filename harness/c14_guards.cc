// C14: every short history of guard and lock operations over two locks, against a reference automaton.
#include "seq.h"
#include "cppev/lock.h"
#include <memory>
#include <stdexcept>
#include <string.h>
#include <system_error>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace cppev;

static const char *names[] = {"read guards", "write guards", "read and write guards", "lock operations of two threads", "lock operations of two processes",
    "spinlock operations of two threads", "shared mutex operations of two threads", "shared mutex operations of two processes", "misuse of the condition variable"};
int seq_nscenarios() { return PART == 14 ? 5 : 4; }
const char *seq_scenario_name(int i) { return names[PART == 14 ? i : i + 5]; }

namespace
{
struct lockm { int rd = 0, wr = 0; };
lockm L[2];
std::unique_ptr<pshared_rwlock> l[2];
// what the locks say
void probe(const char *what)
{
    for (int k = 0; k < 2; ++k)
    {
        bool w = l[k]->try_wrlock();
        if (w) l[k]->unlock();
        bool r = l[k]->try_rdlock();
        if (r) l[k]->unlock();
        bool free = !L[k].rd && !L[k].wr;
        SEQ_CHECK(w == free, "after %s lock %d with %d reader(s) and %d writer(s) can%s be write-locked", what, k, L[k].rd, L[k].wr, w ? "" : "not");
        SEQ_CHECK(r == !L[k].wr, "after %s lock %d with %d reader(s) and %d writer(s) can%s be read-locked", what, k, L[k].rd, L[k].wr, r ? "" : "not");
    }
    seq::state(L[0].rd * 64 + L[0].wr * 32 + L[1].rd * 2 + L[1].wr);
}
// one guard of the given kind and its model: on = lock it is attached to (-1: none), held = acquisitions
template <typename G> struct slot { std::unique_ptr<G> g; int on = -1, held = 0; };

template <typename G, bool write> struct guards
{
    slot<G> s[3];
    bool free(int k) { return write ? !L[k].wr && !L[k].rd : !L[k].wr; }
    int &cnt(int k) { return write ? L[k].wr : L[k].rd; }
    // the guard gives up what it holds
    void release(slot<G> &x) { if (x.on >= 0) cnt(x.on) -= x.held; x.held = 0; x.on = -1; }
    bool op(int n, int kind)
    {
        int i = n == 1 ? 0 : seq::choose(n);
        slot<G> &x = s[i];
        const char *nm = write ? "write guard" : "read guard";
        if (!x.g)
        {
            int c = seq::choose(2 + n - 1);
            if (c < 2)
            {
                if (!free(c)) return false;
                seq::log("%s %d on lock %d", nm, i, c);
                x.g.reset(new G(*l[c]));
                x.on = c; x.held = 1; cnt(c)++;
            }
            else
            {
                int j = (i + c - 1) % n;
                if (!s[j].g) return false;
                seq::log("%s %d constructed from moved %d", nm, i, j);
                x.g.reset(new G(std::move(*s[j].g)));
                x.on = s[j].on; x.held = s[j].held; s[j].on = -1; s[j].held = 0;
            }
            return true;
        }
        int c = seq::choose(3 + n);
        switch (c)
        {
        case 0:
            seq::log("%s %d destroyed", nm, i);
            x.g.reset();
            release(x);
            return true;
        case 1:
            if (x.on < 0 || !x.held) return false;      // unlocking what is not held is no use of it
            seq::log("%s %d unlocked", nm, i);
            x.g->unlock();
            x.held--; cnt(x.on)--;
            return true;
        case 2:
        {
            if (x.on < 0) return false;
            if (x.held ? write : !free(x.on)) return false;
            seq::log("%s %d locked%s", nm, i, x.held ? " again" : "");
            // locking again may be refused, but must not leave the lock held for ever
            bool refused = false;
            try { x.g->lock(); } catch (const std::exception &) { refused = true; }
            SEQ_CHECK(!refused || x.held, "locking a guard that holds nothing was refused");
            if (!refused) { x.held++; cnt(x.on)++; }
            return true;
        }
        default:
        {
            int j = (i + c - 3) % n;
            if (!s[j].g) return false;
            seq::log("%s %d assigned from moved %d", nm, i, j);
            *x.g = std::move(*s[j].g);
            if (i == j) return true;
            release(x);
            x.on = s[j].on; x.held = s[j].held; s[j].on = -1; s[j].held = 0;
            return true;
        }
        }
    }
};
void guard_histories(int rn, int wn, int depth)
{
    struct fin { ~fin() { for (int k = 0; k < 2; ++k) { L[k] = lockm(); l[k].reset(); } } } f;
    for (int k = 0; k < 2; ++k) { L[k] = lockm(); l[k].reset(new pshared_rwlock()); }
    guards<rdlockguard, false> r;
    guards<wrlockguard, true> w;
    int direct[2] = {0, 0};
    for (int d = 0; d < depth; ++d)
    {
        int c = seq::choose(2 + !!rn + !!wn);
        if (c < 2)
        {
            // another holder uses the lock directly
            int k = c;
            if (direct[k]) { seq::log("reader of lock %d unlocks", k); l[k]->unlock(); direct[k] = 0; L[k].rd--; }
            else
            {
                bool got = l[k]->try_rdlock();
                SEQ_CHECK(got == !L[k].wr, "try_rdlock on lock %d said %d", k, got);
                if (!got) return;
                seq::log("reader locks %d", k);
                direct[k] = 1; L[k].rd++;
            }
        }
        else if (c == 2 && rn) { if (!r.op(rn, 0)) return; }
        else if (!w.op(wn, 1)) return;
        probe("the operation");
    }
    for (int i = 0; i < 3; ++i)
    {
        r.s[i].g.reset(); r.release(r.s[i]);
        probe("destroying a guard");
        w.s[i].g.reset(); w.release(w.s[i]);
        probe("destroying a guard");
    }
    for (int k = 0; k < 2; ++k) if (direct[k]) { l[k]->unlock(); L[k].rd--; probe("the last reader's unlock"); }
}

// ---- two parties in lockstep ------------------------------------------------------------------
enum what { RD, WR, TRYRD, TRYWR, UNL, SPL, SPT, SPU, MXL, MXT, MXU, QUIT };
struct box
{
    volatile int cmd, done, result;     // one command at a time
    char pad[64];
};
struct area
{
    box b[2];
    alignas(64) char rw[sizeof(pshared_rwlock)], sp[sizeof(spinlock)], mx[sizeof(pshared_lock)];
};
area *A;
pshared_rwlock *rw; spinlock *sp; pshared_lock *mx;
int perform(int c)
{
    try
    {
        switch (c)
        {
        case RD: rw->rdlock(); return 1;
        case WR: rw->wrlock(); return 1;
        case TRYRD: return rw->try_rdlock();
        case TRYWR: return rw->try_wrlock();
        case UNL: rw->unlock(); return 1;
        case SPL: sp->lock(); return 1;
        case SPT: return sp->trylock();
        case SPU: sp->unlock(); return 1;
        case MXL: mx->lock(); return 1;
        case MXT: return mx->try_lock();
        case MXU: mx->unlock(); return 1;
        }
    }
    catch (const std::system_error &e) { return -(e.code().value() ? e.code().value() : 9999); }
    catch (...) { return -10000; }
    return -20000;
}
void serve(box *b)
{
    for (;;)
    {
        for (int i = 0; !__atomic_load_n(&b->cmd, __ATOMIC_ACQUIRE); ++i) if (i > 200) { usleep(20); }
        int c = b->cmd - 1;
        if (c == QUIT) return;
        int r = perform(c);
        b->result = r;
        b->cmd = 0;
        __atomic_store_n(&b->done, 1, __ATOMIC_RELEASE);
    }
}
void issue(int p, int c) { A->b[p].done = 0; __atomic_store_n(&A->b[p].cmd, c + 1, __ATOMIC_RELEASE); }
bool finished(int p, int us)
{
    for (int i = 0; ; ++i)
    {
        if (__atomic_load_n(&A->b[p].done, __ATOMIC_ACQUIRE)) return true;
        if (i > 500) { if ((us -= 20) < 0) return false; usleep(20); }
    }
}
bool procs;
int asleep_ms() { return 300; }

void parties(int kind, int depth, bool processes)
{
    procs = processes;
    A = (area *)mmap(nullptr, sizeof *A, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (A == MAP_FAILED) abort();
    if (kind == 0) rw = new (A->rw) pshared_rwlock();
    if (kind == 1) sp = new (A->sp) spinlock();
    if (kind == 2) mx = new (A->mx) pshared_lock();
    std::thread th[2];
    pid_t pid[2] = {-1, -1};
    for (int p = 0; p < 2; ++p)
    {
        if (processes) { pid[p] = fork(); if (pid[p] == 0) { alarm(20); serve(&A->b[p]); _exit(0); } }
        else th[p] = std::thread([p] { serve(&A->b[p]); });
    }
    int rd[2] = {0, 0}, wr = -1;     // readers per party, writer
    bool blocked[2] = {false, false};
    int bop[2] = {0, 0};
    static const int ops[3][5] = {{RD, WR, TRYRD, TRYWR, UNL}, {SPL, SPT, SPU, -1, -1}, {MXL, MXT, MXU, -1, -1}};
    static const char *on[] = {"rdlock", "wrlock", "try_rdlock", "try_wrlock", "unlock", "lock", "trylock", "unlock", "lock", "try_lock", "unlock"};
    auto run = [&](int p, int c, int want, const char *why)
    {
        issue(p, c);
        SEQ_CHECK(finished(p, 5000000), "%s by party %d does not return (%s)", on[c], p, why);
        int r = A->b[p].result;
        SEQ_CHECK(r == want || (want == -1 && r < 0 && r > -9999), "%s by party %d gave %d instead of %d (%s)", on[c], p, r, want, why);
    };
    auto unblock = [&]
    {
        // a blocked party proceeds as soon as no conflicting holder is left
        for (int p = 0; p < 2; ++p)
        {
            if (!blocked[p]) continue;
            bool free = bop[p] == RD ? wr < 0 : wr < 0 && !rd[0] && !rd[1];
            if (!free)
            {
                SEQ_CHECK(!finished(p, 0), "%s by party %d returned although the lock is held", on[bop[p]], p);
                continue;
            }
            SEQ_CHECK(finished(p, 5000000), "%s by party %d does not return although the lock was released", on[bop[p]], p);
            SEQ_CHECK(A->b[p].result == 1, "%s by party %d gave %d", on[bop[p]], p, A->b[p].result);
            if (bop[p] == RD) rd[p]++; else wr = p;
            blocked[p] = false;
        }
    };
    bool go = true;
    for (int d = 0; d < depth && go; ++d)
    {
        int p = seq::choose(2);
        int c = ops[kind][seq::choose(kind == 0 ? 5 : 3)];
        if (blocked[p]) break;
        int q = 1 - p;
        seq::log("party %d: %s", p, on[c]);
        switch (c)
        {
        case TRYRD:
            if (blocked[q]) { go = false; break; }     // whether a waiting writer counts is up to the system
            run(p, c, wr < 0, "try"); if (wr < 0) rd[p]++; break;
        case TRYWR: { bool ok = wr < 0 && !rd[0] && !rd[1]; run(p, c, ok, "try"); if (ok) wr = p; break; }
        case SPT: case MXT: run(p, c, wr < 0, "try"); if (wr < 0) wr = p; break;
        case RD:
            if (wr == p || blocked[q]) { go = false; break; }   // waiting for oneself or behind a waiting writer
            if (wr >= 0) { issue(p, c); blocked[p] = true; bop[p] = c; }
            else { run(p, c, 1, "free"); rd[p]++; }
            break;
        case WR: case SPL: case MXL:
            if (c == MXL && wr == p) { run(p, c, -1, "locked by itself"); break; }   // misuse is reported
            if (wr == p || (c == WR && rd[p]) || blocked[q]) { go = false; break; }
            if (wr >= 0 || rd[0] || rd[1]) { issue(p, c); blocked[p] = true; bop[p] = c; }
            else { run(p, c, 1, "free"); wr = p; }
            break;
        case UNL:
            if (wr == p) { run(p, c, 1, "held"); wr = -1; }
            else if (rd[p]) { run(p, c, 1, "held"); rd[p]--; }
            else go = false;
            break;
        case SPU: if (wr == p) { run(p, c, 1, "held"); wr = -1; } else go = false; break;
        case MXU:
            if (wr == p) { run(p, c, 1, "held"); wr = -1; }
            else run(p, c, -1, "not held");
            break;
        }
        if (blocked[p]) usleep(100);
        unblock();
        seq::state((rd[0] * 4 + rd[1]) * 16 + (wr + 1) * 4 + blocked[0] * 2 + blocked[1]);
    }
    // everything is given back, everybody proceeds
    for (int round = 0; round < 12; ++round)
        for (int p = 0; p < 2; ++p)
        {
            int u = kind == 0 ? UNL : kind == 1 ? SPU : MXU;
            if (blocked[p]) continue;
            if (wr == p) { run(p, u, 1, "held"); wr = -1; unblock(); }
            else if (rd[p]) { run(p, u, 1, "held"); rd[p]--; unblock(); }
        }
    for (int p = 0; p < 2; ++p)
    {
        SEQ_CHECK(!blocked[p], "party %d is still blocked at the end", p);
        issue(p, QUIT);
        if (processes) waitpid(pid[p], nullptr, 0); else th[p].join();
    }
    if (kind == 0) rw->~pshared_rwlock();
    if (kind == 1) sp->~spinlock();
    if (kind == 2) mx->~pshared_lock();
    munmap(A, sizeof *A);
}
}
void seq_run(int sc)
{
    if (PART == 13) sc += 5;
    switch (sc)
    {
    case 0: guard_histories(3, 0, seq::bound(6, 7)); break;
    case 1: guard_histories(0, 3, seq::bound(6, 7)); break;
    case 2: guard_histories(2, 2, seq::bound(5, 6)); break;
    case 3: parties(0, seq::bound(5, 6), false); break;
    case 4: parties(0, seq::bound(4, 6), true); break;
    case 5: parties(1, seq::bound(6, 8), false); break;
    case 6: parties(2, seq::bound(6, 8), false); break;
    case 7: parties(2, seq::bound(5, 6), true); break;
    case 8:
    {
        // waiting without holding the mutex is reported
        pshared_lock m;
        pshared_cond c;
        std::unique_lock<pshared_lock> lk(m, std::defer_lock);
        bool held = false;
        if (seq::choose(2)) { lk.lock(); lk.unlock(); }
        int with = seq::choose(2);
        try
        {
            if (with) c.wait(lk, [&] { return held; });
            else c.wait(lk);
            SEQ_CHECK(false, "waiting without the mutex raised nothing");
        }
        catch (const std::system_error &) {}
        lk.lock();
        SEQ_CHECK(!m.try_lock(), "the mutex is free although it was locked");
        lk.unlock();
        if (seq::choose(2)) c.notify_all(); else c.notify_one();
        break;
    }
    }
}
