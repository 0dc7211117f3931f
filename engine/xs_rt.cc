// Runtime of the controlled-scheduler model checker (never instrumented).
#include "xs.h"
#include "xs_int.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <initializer_list>
#include <typeinfo>

using namespace xsi;
namespace xsi
{
Slot *slot;
Visited *visited;
char known_keys[16][80];
int nknown;
}

#define EXPORT extern "C" __attribute__((visibility("default")))
#define NOINL __attribute__((noinline))

// ---------------------------------------------------------------- raw system calls
static inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static inline long fin(long r)
{
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---------------------------------------------------------------- data
static const int MAXT = 24;
static const int NOBJ = 1 << 13;
typedef uint32_t clk_t;

enum Kind { K_NONE, K_MUTEX, K_COND, K_RW, K_SPIN, K_SEM, K_ATOM, K_ONCE, K_FUTEX, K_USER, K_FD };
struct Obj
{
    uintptr_t key;
    int kind, seq;
    uint64_t hash;
    clk_t vc[MAXT];
    int owner, count, type;
    bool pshared, destroyed, quiet;
    unsigned vprocs;
    short nw, waiters[MAXT];
    uint8_t rd[MAXT];
    int nrd;
};
enum Wait { W_NONE, W_MUTEX, W_COND, W_RD, W_WR, W_SPIN, W_SEM, W_JOIN, W_FD, W_POLL, W_SLEEP, W_SETTLE, W_ALLDONE, W_ONCE, W_PRED, W_CHILD, W_FINISHED };
struct Th
{
    int id;
    bool used, finished, detached, joined, daemon, yielding, timedout, spurious, canceled, cancel_disabled, cancel_async, cpoint, has_dl;
    int vproc;
    pthread_t pt;
    void *(*fn)(void *);
    void *arg, *ret;
    int fut;
    clk_t vc[MAXT], acqf[MAXT], relf[MAXT];
    bool has_relf;
    uint64_t hash;
    Wait wait;
    Obj *wobj, *condm;
    Th *wth;
    int wfd;
    short wev;
    struct pollfd *pfds;
    int npfds;
    int (*pred)(void *);
    void *parg;
    int64_t dl;
    const char *op;
    const void *opobj;
    int tlsiter, quiet;
    uintptr_t stk_lo, stk_hi;
    int fdepth;
    uintptr_t fstack[256];
    uint64_t lastpcs[4];
};
static Th ths[MAXT];
static int nths;
static Th *running;
static __thread Th *self;
static __thread int inrt;
static bool controlled;           // this process runs an execution
static bool in_child;             // forked by the code under test
static Obj objs[NOBJ];
static int nobjs;
static int64_t now_ns;
static int cur_run;
static uint64_t npoints;
static int horizon = 20000;
static const int FAIR = 400;
static bool opt_unlock_points, opt_spurious = true, opt_delay, opt_time_races = true, opt_io_points = true;
static int opt_std_io;
static xs_env_hook env_hook;
static xs_child_body child_body;
struct Range { uintptr_t lo, hi; };
static Range norace[32], quietr[16];
static int nnorace, nquiet;
static pthread_key_t fin_key;

static inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t h = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15u + (a << 6) + (a >> 2));
    h ^= h >> 31;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 29;
    return h ? h : 1;
}

static inline bool ctl() { return controlled && self && !inrt && !in_child; }

// ---------------------------------------------------------------- real functions
#define REAL(name) \
    static decltype(&name) p_##name; \
    static inline decltype(&name) real_##name() { if (!p_##name) { ++inrt; p_##name = (decltype(&name))dlsym(RTLD_NEXT, #name); --inrt; } return p_##name; }
REAL(pthread_create) REAL(pthread_join) REAL(pthread_detach) REAL(pthread_cancel) REAL(pthread_exit) REAL(pthread_kill)
REAL(pthread_mutex_init) REAL(pthread_mutex_destroy) REAL(pthread_mutex_lock) REAL(pthread_mutex_trylock) REAL(pthread_mutex_unlock) REAL(pthread_mutex_timedlock)
REAL(pthread_cond_init) REAL(pthread_cond_destroy) REAL(pthread_cond_wait) REAL(pthread_cond_timedwait) REAL(pthread_cond_signal) REAL(pthread_cond_broadcast)
REAL(pthread_rwlock_init) REAL(pthread_rwlock_destroy) REAL(pthread_rwlock_rdlock) REAL(pthread_rwlock_wrlock) REAL(pthread_rwlock_tryrdlock) REAL(pthread_rwlock_trywrlock) REAL(pthread_rwlock_unlock)
REAL(pthread_spin_init) REAL(pthread_spin_destroy) REAL(pthread_spin_lock) REAL(pthread_spin_trylock) REAL(pthread_spin_unlock)
REAL(pthread_once) REAL(pthread_setcancelstate) REAL(pthread_setcanceltype) REAL(pthread_testcancel)
REAL(sem_init) REAL(sem_destroy) REAL(sem_wait) REAL(sem_trywait) REAL(sem_timedwait) REAL(sem_post) REAL(sem_getvalue) REAL(sem_close) REAL(sem_unlink)
REAL(fork) REAL(waitpid) REAL(shm_open) REAL(shm_unlink) REAL(execvp) REAL(execve) REAL(execvpe)

// ---------------------------------------------------------------- reporting
static void put(char *buf, int &len, int cap, const char *fmt, va_list ap)
{
    if (len >= cap - 1) return;
    int n = vsnprintf(buf + len, cap - len, fmt, ap);
    if (n < 0) return;
    len += n;
    if (len > cap - 1) len = cap - 1;
}
static void trc(const char *fmt, ...)
{
    if (!slot->trace) return;
    ++inrt;
    va_list ap; va_start(ap, fmt); put(slot->trc, slot->trclen, TRC, fmt, ap); va_end(ap);
    --inrt;
}
[[noreturn]] static void done(int status)
{
    slot->points = npoints;
    slot->nthreads = nths;
    __atomic_store_n(&slot->status, status, __ATOMIC_SEQ_CST);
    raw(SYS_exit_group, 0);
    __builtin_unreachable();
}
static const char *opname(Th *t)
{
    return t->finished ? "finished" : t->op ? t->op : "running";
}
static void threads_state(int &len)
{
    char *b = slot->msg;
    for (int i = 0; i < nths && len < MSG - 200; ++i)
    {
        Th *t = &ths[i];
        len += snprintf(b + len, MSG - len, "%sT%d%s: %s", i ? "; " : " [", i, t->daemon ? " (daemon)" : "", opname(t));
        if (!t->finished && t->fdepth > 0 && t->fdepth < 256)
            len += snprintf(b + len, MSG - len, " in {pc %#lx}", (unsigned long)t->fstack[t->fdepth - 1]);
    }
    len += snprintf(b + len, MSG - len, "]");
}
[[noreturn]] static void vfail(int status, bool thr, const char *fmt, va_list ap)
{
    ++inrt;
    int len = 0;
    put(slot->msg, len, MSG - 1500, fmt, ap);
    if (thr) threads_state(len);
    done(status);
}
[[noreturn]] static void failt(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfail(ST_VIOLATION, true, fmt, ap); }
[[noreturn]] static void internal(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfail(ST_INTERNAL, true, fmt, ap); }
EXPORT void xs_fail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfail(ST_VIOLATION, false, fmt, ap); }
EXPORT void xs_fail_key(const char *key, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    for (int i = 0; i < nknown; ++i)
        if (!strcmp(key, known_keys[i])) { slot->keyhit = i + 1; done(ST_DISCARD); }
    vfail(ST_VIOLATION, false, fmt, ap);
}
EXPORT void xs_discard(void) { done(ST_DISCARD); }
EXPORT void xs_obs(const char *fmt, ...)
{
    ++inrt;
    va_list ap; va_start(ap, fmt); put(slot->obs, slot->obslen, OBS, fmt, ap); va_end(ap);
    --inrt;
}

// ---------------------------------------------------------------- shared mappings, canonical addresses
struct Map { uintptr_t lo, hi, base; };
static Map maps[64];
static int nmaps;
static uint64_t inos[32];
static int ninos;
static inline uintptr_t canon(uintptr_t a)
{
    for (int i = 0; i < nmaps; ++i)
        if (a >= maps[i].lo && a < maps[i].hi) return maps[i].base + (a - maps[i].lo);
    return a;
}

// ---------------------------------------------------------------- vector clocks
static inline void vjoin(clk_t *a, const clk_t *b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static inline void vcopy(clk_t *a, const clk_t *b) { for (int i = 0; i < MAXT; ++i) a[i] = b[i]; }
static inline void tick() { self->vc[self->id]++; }
static inline void acquire(Obj *o) { if (!o->quiet) vjoin(self->vc, o->vc); }
static inline void release(Obj *o) { if (!o->quiet) { vjoin(o->vc, self->vc); tick(); } }

// ---------------------------------------------------------------- race detector / memory checker
struct Entry { clk_t clk; uint8_t tid, mask, w, atomic; uintptr_t pc; };
struct Cell { uintptr_t g; uint8_t freed, n; Entry e[5]; };
static const int NCELL = 1 << 17;
static Cell cells[NCELL];
static int ncells;
static Cell *cell_of(uintptr_t g, bool create)
{
    // blocks of 32 neighbouring cells are scattered
    for (uint32_t i = (uint32_t)(((((g >> 5) * 0x9e3779b97f4a7c15ull) >> 40) << 5) | (g & 31)) & (NCELL - 1), k = 0; k < NCELL; i = (i + 1) & (NCELL - 1), ++k)
    {
        Cell *c = &cells[i];
        if (c->g == g) return c;
        if (!c->g)
        {
            if (!create) return nullptr;
            if (++ncells > NCELL * 3 / 4) internal("shadow memory full");
            c->g = g;
            return c;
        }
    }
    return nullptr;
}
static bool in_ranges(const Range *r, int n, uintptr_t a)
{
    for (int i = 0; i < n; ++i) if (a >= r[i].lo && a < r[i].hi) return true;
    return false;
}
static NOINL void race(uintptr_t a, const Entry &e, bool w, bool atomic, uintptr_t pc)
{
    if (in_ranges(norace, nnorace, a)) return;
    uintptr_t caller = self->fdepth > 0 && self->fdepth < 256 ? self->fstack[self->fdepth - 1] : 0;
    failt("data race: %s%s by T%d at {pc %#lx} (called from {pc %#lx}) is not ordered with an earlier %s%s by T%d at {pc %#lx}; address %#lx",
        atomic ? "atomic " : "", w ? "write" : "read", self->id, (unsigned long)pc, (unsigned long)caller,
        e.atomic ? "atomic " : "", e.w ? "write" : "read", e.tid, (unsigned long)e.pc, (unsigned long)a);
}
static void access(uintptr_t a, size_t n, bool w, bool atomic, uintptr_t pc)
{
    if (self->quiet) return;
    if (nmaps) a = canon(a);
    Th *t = self;
    while (n)
    {
        uintptr_t g = a >> 3;
        unsigned off = a & 7, len = 8 - off;
        if (len > n) len = (unsigned)n;
        uint8_t mask = (uint8_t)(((1u << len) - 1) << off);
        Cell *c = cell_of(g, true);
        if (c->freed)
        {
            if (!in_ranges(norace, nnorace, a))
                failt("%s of %s memory at {pc %#lx} by T%d; address %#lx", w ? "write" : "read", c->freed == 1 ? "freed" : "unallocated (heap overflow)", (unsigned long)pc, t->id, (unsigned long)a);
        }
        int use = -1;
        for (int i = 0; i < c->n; ++i)
        {
            Entry &e = c->e[i];
            if (e.tid == t->id)
            {
                if (e.w == w && e.atomic == atomic && !(e.mask & ~mask)) use = i;
                continue;
            }
            bool ordered = e.clk <= t->vc[e.tid];
            if ((e.mask & mask) && (w || e.w) && !(atomic && e.atomic) && !ordered) race(a, e, w, atomic, pc);
            if (ordered && w && !(e.mask & ~mask)) use = i;
        }
        if (use < 0)
        {
            if (c->n < 5) use = c->n++;
            else
            {
                use = 0;
                for (int i = 0; i < 5; ++i)
                {
                    Entry &e = c->e[i];
                    if (e.tid == t->id || e.clk <= t->vc[e.tid]) { use = i; if (!e.w) break; }
                }
            }
        }
        Entry &e = c->e[use];
        e.clk = t->vc[t->id]; e.tid = (uint8_t)t->id; e.mask = mask; e.w = w; e.atomic = atomic; e.pc = pc;
        a += len;
        n -= len;
    }
}
static inline void acc(const void *p, size_t n, bool w, void *pc)
{
    if (!ctl()) return;
    access((uintptr_t)p, n, w, false, (uintptr_t)pc);
}
static void acc_range(const void *p, size_t n, bool w, void *pc)
{
    if (!ctl() || !n) return;
    if (n > 65536) n = 65536;
    access((uintptr_t)p, n, w, false, (uintptr_t)pc);
}

// ---------------------------------------------------------------- heap
static const uintptr_t ARENA = 0x610000000000ull;
static const uintptr_t ARENA_SZ = 1ull << 28;
static uintptr_t arena_cur[MAXT];
struct Hdr { uint64_t size; uint64_t magic; };
static const uint64_t MAGIC = 0xa11ca7edb10cull, FREED = 0xf4eedb10cull;
static inline bool in_arena(const void *p) { return (uintptr_t)p >= ARENA && (uintptr_t)p < ARENA + MAXT * ARENA_SZ; }
static void *aalloc(size_t n, size_t align)
{
    uintptr_t &cur = arena_cur[self->id];
    uintptr_t p = cur + sizeof(Hdr);
    p = (p + align - 1) & ~(align - 1);
    uintptr_t end = (p + n + 15) & ~15ull;
    if (end > ARENA + (self->id + 1) * ARENA_SZ || n > ARENA_SZ) { errno = ENOMEM; return nullptr; }
    cur = end;
    Hdr *h = (Hdr *)p - 1;
    h->size = n;
    h->magic = MAGIC;
    size_t fill = n < 4096 ? n : 4096;
    for (size_t i = 0; i < fill; ++i) ((char *)p)[i] = (char)0xa5;
    cell_of((uintptr_t)h >> 3, true)->freed = 2;
    cell_of(((uintptr_t)h >> 3) + 1, true)->freed = 2;
    return (void *)p;
}
static void afree(void *p, uintptr_t pc)
{
    Hdr *h = (Hdr *)p - 1;
    if (h->magic == FREED) failt("double free at {pc %#lx} by T%d", (unsigned long)pc, self ? self->id : -1);
    if (h->magic != MAGIC) failt("free of a bad or overwritten heap block at {pc %#lx}", (unsigned long)pc);
    h->magic = FREED;
    if (!ctl()) return;
    size_t n = h->size < 65536 ? h->size : 65536;
    if (!self->quiet && n) access((uintptr_t)p, n, true, false, pc);
    for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3 && n; ++g) cell_of(g, true)->freed = 1;
    // a cheap way to make stale reads through uninstrumented code visible
    size_t fill = n < 4096 ? n : 4096;
    for (size_t i = 0; i < fill; ++i) ((unsigned char *)p)[i] = 0xdd;
}
extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}
EXPORT void *malloc(size_t n) { return ctl() ? aalloc(n, 16) : __libc_malloc(n); }
EXPORT void free(void *p)
{
    if (!p) return;
    if (in_arena(p)) { if (controlled && !in_child) afree(p, (uintptr_t)__builtin_return_address(0)); }
    else if (!controlled || in_child || true) __libc_free(p);
}
EXPORT void *calloc(size_t a, size_t b)
{
    if (!ctl()) return __libc_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = aalloc(n, 16);
    if (p) for (size_t i = 0; i < n && i < 4096; ++i) ((char *)p)[i] = 0;
    return p;
}
EXPORT void *realloc(void *p, size_t n)
{
    if (!p) return malloc(n);
    if (!in_arena(p))
    {
        if (!ctl()) return __libc_realloc(p, n);
        void *q = __libc_realloc(p, n);
        return q;
    }
    void *q = malloc(n);
    if (!q) return q;
    size_t o = ((Hdr *)p - 1)->size;
    if (o > n) o = n;
    for (size_t i = 0; i < o; ++i) ((char *)q)[i] = ((char *)p)[i];
    free(p);
    return q;
}
EXPORT void *memalign(size_t al, size_t n) { return ctl() ? aalloc(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void **r, size_t al, size_t n)
{
    void *p = memalign(al, n);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}

// ---------------------------------------------------------------- objects
static uint32_t oidx(uintptr_t k) { return (uint32_t)((k >> 2) ^ (k >> 21)) & (NOBJ - 1); }
static Obj *find(uintptr_t key)
{
    for (uint32_t i = oidx(key);; i = (i + 1) & (NOBJ - 1))
    {
        if (objs[i].key == key) return &objs[i];
        if (!objs[i].key)
        {
            if (++nobjs > NOBJ * 3 / 4) internal("object table full");
            objs[i].key = key;
            objs[i].seq = nobjs;
            return &objs[i];
        }
    }
}
static void reset_obj(Obj *o, int kind)
{
    uintptr_t key = o->key;
    int seq = o->seq;
    memset((void *)o, 0, sizeof *o);
    o->key = key; o->seq = seq; o->kind = kind; o->owner = -1;
}
static const char *kindname(int k)
{
    static const char *n[] = {"?", "mutex", "condition variable", "rwlock", "spinlock", "semaphore", "atomic", "once", "futex", "object", "descriptor"};
    return n[k];
}
static Obj *obj(const void *p, int kind, bool *fresh = nullptr)
{
    uintptr_t a = canon((uintptr_t)p);
    Obj *o = find(a);
    if (fresh) *fresh = false;
    if (o->kind != kind)
    {
        reset_obj(o, kind);
        if (fresh) *fresh = true;
        if (in_ranges(quietr, nquiet, (uintptr_t)p)) o->quiet = true;
    }
    if (kind != K_USER && kind != K_FD && !self->quiet)
    {
        Cell *c = cell_of(a >> 3, false);
        if (c && c->freed && !in_ranges(norace, nnorace, a)) failt("use of a %s in %s memory by T%d at {pc %#lx}", kindname(kind), c->freed == 1 ? "freed" : "unallocated", self->id, (unsigned long)__builtin_return_address(0));
    }
    return o;
}
static void used_by(Obj *o)
{
    o->vprocs |= 1u << (self->vproc & 31);
    if (!o->pshared && (o->vprocs & (o->vprocs - 1)))
        failt("%s used by more than one process but not initialised as process-shared", kindname(o->kind));
}
// History hashes: an operation of kind k on o with outcome v.
static void commit(Obj *o, uint64_t k, uint64_t v, bool writes = true)
{
    if (self->quiet || (o && o->quiet)) return;
    uint64_t h = mix(mix(self->hash, o ? o->hash : 77), mix(k, v));
    self->hash = h;
    if (o && writes) o->hash = h;
}
static Obj kobj;    // the kernel: all descriptor operations

// ---------------------------------------------------------------- scheduler
static void fwait(int *f)
{
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) raw(SYS_futex, (long)f, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static void fwake(int *f)
{
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)f, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
static bool fd_ready(int fd, short ev)
{
    struct pollfd p = {fd, ev, 0};
    long r = raw(SYS_poll, (long)&p, 1, 0);
    return r != 0;
}
static Th *settling;
static bool child_ready(Th *t);
static bool enabled(Th *t)
{
    if (!t->used || t->finished) return false;
    if (t->canceled && t->cpoint && !t->cancel_disabled) return true;
    switch (t->wait)
    {
    case W_NONE: return true;
    case W_MUTEX: return t->wobj->owner == -1;
    case W_SPIN: return t->wobj->owner == -1;
    case W_COND: return false;
    case W_RD: return t->wobj->owner == -1;
    case W_WR: return t->wobj->owner == -1 && t->wobj->nrd == 0;
    case W_SEM: return t->wobj->count > 0;
    case W_JOIN: return t->wth->finished;
    case W_FD: return fd_ready(t->wfd, t->wev);
    case W_POLL: return raw(SYS_poll, (long)t->pfds, t->npfds, 0) != 0;
    case W_SLEEP: return false;
    case W_SETTLE: return settling == t;
    case W_ALLDONE:
        for (int i = 0; i < nths; ++i) if (ths[i].used && !ths[i].finished && !ths[i].daemon && &ths[i] != t) return false;
        return true;
    case W_ONCE: return t->wobj->owner == -1;
    case W_PRED: return t->pred(t->parg);
    case W_CHILD: return child_ready(t);
    case W_FINISHED: return false;
    }
    return false;
}
static uint64_t state_sig(Th *cur)
{
    uint64_t s = 0;
    for (int i = 0; i < nths; ++i)
    {
        Th *t = &ths[i];
        s += mix(t->hash, 0x1000 + t->finished + 2 * t->canceled + (t == cur ? 8 : 0) + (t == cur && cur->yielding ? 16 : 0));
    }
    return mix(s, (uint64_t)now_ns);
}
static int decide(int n, const uint8_t *cost, uint64_t sig)
{
    Slot *s = slot;
    int i = s->nrec;
    if (i >= MAXC) failt("no end after %d scheduling decisions (livelock)", MAXC);
    Rec &r = s->rec[i];
    r.sig = sig;
    r.n = (uint8_t)n;
    for (int k = 0; k < n; ++k) r.cost[k] = cost[k];
    int c = 0;
    if (i < s->nprefix)
    {
        c = s->prefix[i];
        if (c >= n) internal("choice %d: %d of %d alternatives", i, c, n);
        if (i == s->nprefix - 1 && s->expect_n && (n != s->expect_n || sig != s->expect_sig))
            internal("nondeterminism at choice %d: %d alternatives (expected %d), signature %s", i, n, s->expect_n, sig == s->expect_sig ? "equal" : "different");
    }
    else if (s->prune && seen(visited, sig)) done(ST_PRUNED);
    r.chosen = (uint8_t)c;
    s->nrec = i + 1;
    return c;
}
struct Alt { Th *t; int mode; };   // mode 0 normal, 1 time, 2 spurious
static void sched(Th *cur)
{
    ++inrt;
    if (++npoints > (uint64_t)horizon) failt("no end after %d scheduling points (livelock)", horizon);
    int e = errno;
    Alt alts[MAXT * 2];
    uint8_t cost[MAXT * 2];
    int n = 0;
    settling = nullptr;
    bool en[MAXT];
    bool any = false;
    for (int i = 0; i < nths; ++i)
    {
        en[i] = enabled(&ths[i]);
        any |= en[i];
    }
    if (!any)
        for (int i = 0; i < nths; ++i)
            if (ths[i].used && !ths[i].finished && ths[i].wait == W_SETTLE) { settling = &ths[i]; en[i] = any = true; break; }
    bool curen = en[cur->id] && !cur->finished;
    bool fair = cur_run > FAIR;
    bool yield = cur->yielding || fair;
    // normal alternatives
    if (curen && !yield) { alts[n] = {cur, 0}; cost[n++] = 0; }
    int first = n;
    for (int k = 1; k <= nths; ++k)
    {
        Th *t = &ths[(cur->id + k) % nths];
        if (t == cur || !en[t->id]) continue;
        alts[n] = {t, 0};
        cost[n] = (uint8_t)(curen && !yield ? 1 : (opt_delay && n > first ? 1 : 0));
        ++n;
    }
    if (curen && yield) { alts[n] = {cur, 0}; cost[n] = (uint8_t)(n ? 1 : 0); ++n; if (n > 1 && fair) --n; }
    // time
    int64_t mn = INT64_MAX;
    for (int i = 0; i < nths; ++i)
        if (ths[i].used && !ths[i].finished && ths[i].has_dl && !en[i] && ths[i].dl < mn) mn = ths[i].dl;
    if (mn != INT64_MAX && (opt_time_races || !any))
        for (int k = 0; k < nths; ++k)
        {
            Th *t = &ths[(cur->id + k) % nths];
            if (t->used && !t->finished && t->has_dl && !en[t->id] && (t->dl <= mn || t->dl <= now_ns)) { alts[n] = {t, 1}; cost[n++] = any ? 1 : 0; }
        }
    if (opt_spurious && !self->quiet)
        for (int k = 0; k < nths && n < MAXALT; ++k)
        {
            Th *t = &ths[(cur->id + k) % nths];
            if (t->used && !t->finished && t->wait == W_COND && t->wobj->kind == K_COND && !t->wobj->quiet && !en[t->id] && (!t->condm || t->condm->owner == -1)) { if (n == 0) break; alts[n] = {t, 2}; cost[n++] = 1; }
        }
    if (n == 0)
    {
        bool waiting = false;
        for (int i = 0; i < nths; ++i) if (ths[i].used && !ths[i].finished && !ths[i].daemon) waiting = true;
        if (waiting) failt("deadlock: no thread can run");
        internal("nothing to run");
    }
    if (n > MAXALT) n = MAXALT;
    int c = n == 1 ? 0 : decide(n, cost, state_sig(cur));
    Th *t = alts[c].t;
    if (alts[c].mode == 1)
    {
        if (t->dl > now_ns) now_ns = t->dl;
        t->timedout = true;
        t->hash = mix(t->hash, 0x71e0);
    }
    else if (alts[c].mode == 2)
    {
        t->spurious = true;
        t->hash = mix(t->hash, 0x5b0);
    }
    cur->yielding = false;
    if (t == cur) { ++cur_run; errno = e; --inrt; return; }
    cur_run = 0;
    if (slot->trace) trc("--%s> T%d%s\n", cost[c] ? "preempt" : "", t->id, alts[c].mode == 1 ? " (time)" : alts[c].mode == 2 ? " (spurious wake-up)" : "");
    running = t;
    bool gone = cur->finished;
    fwake(&t->fut);
    if (gone) { --inrt; return; }
    fwait(&cur->fut);
    errno = e;
    --inrt;
}
// A scheduling point before an operation that is always possible.
static void pt(const char *name, const void *o)
{
    self->op = name;
    self->opobj = o;
    if (self->quiet) return;
    self->wait = W_NONE;
    sched(self);
    if (slot->trace) { Obj *x = o && o != &kobj ? find(canon((uintptr_t)o)) : nullptr; trc("T%d %s%s%d\n", self->id, name, x ? " #" : " ", x ? x->seq : 0); }
}
// Block until `wait` is satisfied.
static void block(const char *name, Wait w, Obj *o, bool cpoint = false)
{
    self->op = name;
    self->opobj = o;
    self->wait = w;
    self->wobj = o;
    self->cpoint = cpoint;
    self->timedout = self->spurious = false;
    sched(self);
    self->wait = W_NONE;
    self->cpoint = false;
    self->has_dl = false;
    if (slot->trace) trc("T%d %s #%d%s\n", self->id, name, o ? o->seq : 0, self->timedout ? " (timed out)" : self->spurious ? " (spurious)" : "");
}
static bool cancel_due() { return self->canceled && !self->cancel_disabled; }
static void do_cancel()
{
    trc("T%d cancelled\n", self->id);
    self->cancel_disabled = true;
    self->ret = PTHREAD_CANCELED;
    real_pthread_exit()(PTHREAD_CANCELED);
}
static inline void cancel_check() { if (cancel_due()) do_cancel(); }

// ---------------------------------------------------------------- threads
static const uintptr_t STACKS = 0x620000000000ull;
static const size_t STACK_SZ = 512 << 10, STACK_STEP = 1 << 20;

static void finish_key(void *)
{
    if (!controlled || !self || in_child) return;
    if (++self->tlsiter < 3) { pthread_setspecific(fin_key, (void *)1); return; }
    Th *me = self;
    me->op = "exit";
    me->wait = W_NONE;
    sched(me);
    trc("T%d exit\n", me->id);
    me->finished = true;
    me->wait = W_FINISHED;
    me->hash = mix(me->hash, 0xe817);
    sched(me);
    self = nullptr;
}
static void *tramp(void *p)
{
    Th *t = (Th *)p;
    ++inrt;
    fwait(&t->fut);
    pthread_setspecific(fin_key, (void *)1);
    self = t;
    --inrt;
    trc("T%d starts\n", t->id);
    if (cancel_due() && false) do_cancel();
    void *r = t->fn(t->arg);
    t->ret = r;
    return r;
}
static Th *by_pt(pthread_t p)
{
    for (int i = 0; i < nths; ++i) if (ths[i].used && ths[i].pt == p) return &ths[i];
    return nullptr;
}
EXPORT int pthread_create(pthread_t *pt_, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    if (inrt) return real_pthread_create()(pt_, attr, fn, arg);
    if (!ctl()) { *pt_ = (pthread_t)0x1234560; return 0; }   // created before main(): deferred for ever
    if (env_hook)
    {
        long ret = 0; int err = 0; size_t lim = 0;
        if (env_hook(XC_THREAD, -1, 0, &ret, &err, &lim, nullptr) == 1) return err;
    }
    if (nths >= MAXT) internal("too many threads");
    Th *t = &ths[nths];
    memset((void *)t, 0, sizeof *t);
    t->id = nths;
    t->fn = fn;
    t->arg = arg;
    t->vproc = self->vproc;
    vcopy(t->vc, self->vc);
    t->vc[t->id] = 1;
    tick();
    t->hash = mix(self->hash, 0xc4ea7e);
    commit(nullptr, 0xc4ea7e, 0);
    t->wait = W_NONE;
    t->op = "start";
    int ds = 0;
    if (attr) pthread_attr_getdetachstate(attr, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
    ++inrt;
    void *stk = (void *)(STACKS + t->id * STACK_STEP);
    if (raw(SYS_mmap, (long)stk, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) < 0) internal("stack mmap");
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, stk, STACK_SZ);
    t->stk_lo = (uintptr_t)stk;
    t->stk_hi = t->stk_lo + STACK_SZ;
    arena_cur[t->id] = ARENA + t->id * ARENA_SZ;
    int r = real_pthread_create()(&t->pt, &a, tramp, t);
    if (r) internal("pthread_create: %d", r);
    *pt_ = t->pt;
    t->used = true;
    ++nths;
    --inrt;
    trc("T%d creates T%d\n", self->id, t->id);
    return 0;
}
EXPORT int pthread_join(pthread_t p, void **ret)
{
    if (!ctl()) return inrt ? real_pthread_join()(p, ret) : 0;
    Th *t = by_pt(p);
    if (!t) return ESRCH;
    if (t == self) return EDEADLK;
    if (t->detached || t->joined) { pt("pthread_join", nullptr); return EINVAL; }
    cancel_check();
    self->wth = t;
    block("pthread_join", W_JOIN, nullptr, true);
    if (!t->finished) cancel_check();
    vjoin(self->vc, t->vc);
    t->joined = true;
    self->hash = mix(mix(self->hash, t->hash), 0x501);
    if (ret) *ret = t->ret;
    return 0;
}
EXPORT int pthread_detach(pthread_t p)
{
    if (!ctl()) return inrt ? real_pthread_detach()(p) : 0;
    Th *t = by_pt(p);
    if (!t) return ESRCH;
    pt("pthread_detach", nullptr);
    if (t->detached || t->joined) return EINVAL;
    t->detached = true;
    commit(nullptr, 0xde7, t->finished);
    return 0;
}
EXPORT int pthread_cancel(pthread_t p)
{
    if (!ctl()) return inrt ? real_pthread_cancel()(p) : 0;
    Th *t = by_pt(p);
    if (!t) return ESRCH;
    pt("pthread_cancel", nullptr);
    if (t->finished && (t->joined || t->detached)) return ESRCH;
    t->canceled = true;
    self->hash = mix(mix(self->hash, t->hash), 0xca7ce1);
    if (!t->finished) t->hash = mix(t->hash, self->hash);
    return 0;
}
EXPORT int pthread_kill(pthread_t p, int sig)
{
    if (!ctl()) return real_pthread_kill()(p, sig);
    Th *t = by_pt(p);
    if (!t) return ESRCH;
    pt("pthread_kill", nullptr);
    self->hash = mix(mix(self->hash, t->hash), 0x4111 + sig);
    if (t->finished) return t->joined || t->detached ? ESRCH : 0;
    if (sig == 0) return 0;
    ++inrt;
    int r = real_pthread_kill()(p, sig);
    --inrt;
    return r;
}
EXPORT void pthread_exit(void *r)
{
    if (ctl()) self->ret = r;
    real_pthread_exit()(r);
    __builtin_unreachable();
}
EXPORT int pthread_setcancelstate(int st, int *old)
{
    if (!ctl()) return real_pthread_setcancelstate()(st, old);
    if (st != PTHREAD_CANCEL_ENABLE && st != PTHREAD_CANCEL_DISABLE) return EINVAL;
    if (old) *old = self->cancel_disabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
    self->cancel_disabled = st == PTHREAD_CANCEL_DISABLE;
    return 0;
}
EXPORT int pthread_setcanceltype(int ty, int *old)
{
    if (!ctl()) return real_pthread_setcanceltype()(ty, old);
    if (old) *old = self->cancel_async ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED;
    self->cancel_async = ty == PTHREAD_CANCEL_ASYNCHRONOUS;
    return 0;
}
EXPORT void pthread_testcancel(void)
{
    if (!ctl()) return;
    cancel_check();
}

// ---------------------------------------------------------------- mutex
static Obj *mutex(pthread_mutex_t *m)
{
    bool fresh;
    Obj *o = obj(m, K_MUTEX, &fresh);
    if (fresh)
    {
        o->type = m->__data.__kind & 3;
        o->pshared = m->__data.__kind & 128;
    }
    if (o->destroyed) failt("use of a destroyed mutex by T%d", self->id);
    used_by(o);
    return o;
}
EXPORT int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    int r = real_pthread_mutex_init()(m, a);
    if (r == 0 && ctl())
    {
        acc_range(m, sizeof *m, true, __builtin_return_address(0));
        Obj *o = obj(m, K_MUTEX);
        uint64_t h = o->hash;
        reset_obj(o, K_MUTEX);
        o->hash = h;
        if (in_ranges(quietr, nquiet, (uintptr_t)m)) o->quiet = true;
        o->type = m->__data.__kind & 3;
        o->pshared = m->__data.__kind & 128;
        commit(o, 0x1417, o->type);
    }
    return r;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_mutex_destroy()(m) : 0;
    Obj *o = mutex(m);
    pt("mutex_destroy", m);
    if (o->owner != -1) return EBUSY;
    for (int i = 0; i < nths; ++i)
        if (!ths[i].finished && ths[i].wait == W_MUTEX && ths[i].wobj == o) failt("mutex destroyed while T%d waits for it", i);
    acc_range(m, sizeof *m, true, __builtin_return_address(0));
    o->destroyed = true;
    commit(o, 0xde57, 0);
    return 0;
}
static void take(Obj *o)
{
    o->owner = self->id;
    o->count = 1;
    acquire(o);
    commit(o, 0x10c, 0);
}
static int lock_mutex(pthread_mutex_t *m, const struct timespec *abst)
{
    Obj *o = mutex(m);
    acc(m, 4, false, __builtin_return_address(0));
    if (o->owner == self->id)
    {
        if (o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
        if (o->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (o->quiet || self->quiet)
    {
        if (o->owner == -1) { take(o); if (o->quiet) ++self->quiet; return 0; }
        int q = self->quiet; self->quiet = 0;
        block("mutex_lock", W_MUTEX, o);
        self->quiet = q;
        take(o);
        if (o->quiet) ++self->quiet;
        return 0;
    }
    if (abst)
    {
        self->has_dl = true;
        self->dl = abst->tv_sec * 1000000000ll + abst->tv_nsec;
    }
    block("mutex_lock", W_MUTEX, o);
    if (self->timedout) { commit(o, 0x10d, 1, false); return ETIMEDOUT; }
    take(o);
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_mutex_lock()(m) : 0;
    return lock_mutex(m, nullptr);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t)
{
    if (!ctl()) return real_pthread_mutex_timedlock()(m, t);
    return lock_mutex(m, t);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t);
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_mutex_trylock()(m) : 0;
    Obj *o = mutex(m);
    if (!o->quiet) pt("mutex_trylock", m);
    if (o->owner == -1) { take(o); if (o->quiet) ++self->quiet; return 0; }
    if (o->owner == self->id && o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
    commit(o, 0x10e, 0, false);
    return EBUSY;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_mutex_unlock()(m) : 0;
    Obj *o = mutex(m);
    if (opt_unlock_points && !o->quiet) pt("mutex_unlock", m);
    if (o->owner != self->id)
    {
        if (o->type == PTHREAD_MUTEX_RECURSIVE || o->type == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
        failt("T%d unlocks a mutex that %s", self->id, o->owner == -1 ? "is not locked" : "another thread holds");
    }
    if (--o->count > 0) return 0;
    if (slot->trace && !o->quiet) trc("T%d mutex_unlock #%d\n", self->id, o->seq);
    o->owner = -1;
    commit(o, 0x0c, 0);
    release(o);
    if (o->quiet) --self->quiet;
    return 0;
}

// ---------------------------------------------------------------- condition variable
static Obj *condv(pthread_cond_t *c)
{
    bool fresh;
    Obj *o = obj(c, K_COND, &fresh);
    if (fresh) o->pshared = c->__data.__wrefs & 1;
    if (o->destroyed) failt("use of a destroyed condition variable by T%d", self->id);
    used_by(o);
    return o;
}
EXPORT int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
    int r = real_pthread_cond_init()(c, a);
    if (r == 0 && ctl())
    {
        acc_range(c, sizeof *c, true, __builtin_return_address(0));
        Obj *o = obj(c, K_COND);
        if (o->nw) failt("condition variable initialised while a thread waits on it");
        uint64_t h = o->hash;
        reset_obj(o, K_COND);
        o->hash = h;
        o->pshared = c->__data.__wrefs & 1;
        o->type = (c->__data.__wrefs >> 1) & 1;   // 1: CLOCK_MONOTONIC
        commit(o, 0x1418, 0);
    }
    return r;
}
EXPORT int pthread_cond_destroy(pthread_cond_t *c)
{
    if (!ctl()) return 0;
    Obj *o = condv(c);
    if (!o->quiet) pt("cond_destroy", c);
    if (o->nw) failt("condition variable destroyed by T%d while T%d waits on it", self->id, o->waiters[0]);
    acc_range(c, sizeof *c, true, __builtin_return_address(0));
    commit(o, 0xde58, 0);
    reset_obj(o, K_NONE);
    return 0;
}
static void unwait(Obj *o, int id)
{
    for (int i = 0; i < o->nw; ++i)
        if (o->waiters[i] == id)
        {
            for (int k = i; k + 1 < o->nw; ++k) o->waiters[k] = o->waiters[k + 1];
            --o->nw;
            return;
        }
}
static int64_t clk_off(int clk);
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, int64_t dl)
{
    Obj *o = condv(c), *mo = mutex(m);
    if (mo->owner != self->id) failt("T%d waits on a condition variable without holding the mutex", self->id);
    cancel_check();
    acc(c, 4, false, __builtin_return_address(0));
    if (!o->quiet) pt("cond_wait", c);
    if (slot->trace) trc("T%d cond_wait #%d releases #%d\n", self->id, o->seq, mo->seq);
    o->waiters[o->nw++] = (short)self->id;
    int saved = mo->count;
    (void)saved;
    commit(o, 0xca17, 0);
    bool released = --mo->count == 0;
    if (released)
    {
        mo->owner = -1;
        commit(mo, 0x0c, 0);
        release(mo);
        if (mo->quiet) --self->quiet;
    }
    self->has_dl = timed;
    self->dl = dl;
    self->condm = released ? mo : nullptr;
    block("cond_wait", W_COND, o, true);
    bool to = self->timedout;
    bool sp = self->spurious;
    bool cn = self->canceled && !self->cancel_disabled;
    bool sig = true;
    for (int i = 0; i < o->nw; ++i) if (o->waiters[i] == self->id) sig = false;
    unwait(o, self->id);
    commit(o, 0xca18, to * 4 + sp * 2 + sig);
    if (released)
    {
        if (mo->owner != -1) { bool d = self->cancel_disabled; self->cancel_disabled = true; block("cond_wait (relock)", W_MUTEX, mo); self->cancel_disabled = d; }
        take(mo);
        if (mo->quiet) ++self->quiet;
    }
    else mo->count++;
    if (cn && !sig) do_cancel();
    return to && !sig ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_cond_wait()(c, m) : 0;
    return cwait(c, m, false, 0);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *t)
{
    if (!ctl()) abort();
    return cwait(c, m, true, t->tv_sec * 1000000000ll + t->tv_nsec - clk_off(clk));
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    if (!ctl()) return real_pthread_cond_timedwait()(c, m, t);
    Obj *o = condv(c);
    return cwait(c, m, true, t->tv_sec * 1000000000ll + t->tv_nsec - clk_off(o->type ? CLOCK_MONOTONIC : CLOCK_REALTIME));
}
static void wake_one(Obj *o, int idx)
{
    Th *t = &ths[o->waiters[idx]];
    unwait(o, t->id);
    t->has_dl = false;
    t->cpoint = false;
    if (o->kind == K_COND && t->condm) { t->wait = W_MUTEX; t->wobj = t->condm; }
    else t->wait = W_NONE;
    self->hash = mix(self->hash, t->hash);
    t->hash = mix(t->hash, self->hash);
}
static int env_choice(int n, int cost)
{
    if (n <= 1) return 0;
    ++inrt;
    uint8_t c[MAXALT];
    if (n > MAXALT) internal("too many environment answers");
    for (int i = 0; i < n; ++i) c[i] = (uint8_t)(i ? cost : 0);
    int r = decide(n, c, mix(state_sig(self), 0xe74));
    self->hash = mix(self->hash, 0xe7400 + r);
    if (r && slot->trace) trc("T%d environment answer %d of %d\n", self->id, r, n);
    --inrt;
    return r;
}
EXPORT int pthread_cond_signal(pthread_cond_t *c)
{
    if (!ctl()) return 0;
    Obj *o = condv(c);
    acc(c, 4, false, __builtin_return_address(0));
    if (!o->quiet) pt("cond_signal", c);
    commit(o, 0x516, o->nw);
    if (o->nw) wake_one(o, o->quiet ? 0 : env_choice(o->nw, 1));
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!ctl()) return 0;
    Obj *o = condv(c);
    acc(c, 4, false, __builtin_return_address(0));
    if (!o->quiet) pt("cond_broadcast", c);
    commit(o, 0xb40ad, o->nw);
    while (o->nw) wake_one(o, 0);
    return 0;
}

// ---------------------------------------------------------------- rwlock
static Obj *rwl(pthread_rwlock_t *l)
{
    bool fresh;
    Obj *o = obj(l, K_RW, &fresh);
    if (fresh) o->pshared = l->__data.__shared != 0;
    if (o->destroyed) failt("use of a destroyed rwlock by T%d", self->id);
    used_by(o);
    return o;
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a)
{
    int r = real_pthread_rwlock_init()(l, a);
    if (r == 0 && ctl())
    {
        acc_range(l, sizeof *l, true, __builtin_return_address(0));
        Obj *o = obj(l, K_RW);
        uint64_t h = o->hash;
        reset_obj(o, K_RW);
        o->hash = h;
        o->pshared = l->__data.__shared != 0;
        commit(o, 0x1419, 0);
    }
    return r;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *l)
{
    if (!ctl()) return 0;
    Obj *o = rwl(l);
    pt("rwlock_destroy", l);
    if (o->owner != -1 || o->nrd) failt("rwlock destroyed by T%d while held", self->id);
    for (int i = 0; i < nths; ++i)
        if (!ths[i].finished && (ths[i].wait == W_RD || ths[i].wait == W_WR) && ths[i].wobj == o) failt("rwlock destroyed while T%d waits for it", i);
    acc_range(l, sizeof *l, true, __builtin_return_address(0));
    o->destroyed = true;
    commit(o, 0xde59, 0);
    return 0;
}
static int rw_take(Obj *o, bool w)
{
    if (w) o->owner = self->id;
    else { o->rd[self->id]++; o->nrd++; }
    acquire(o);
    commit(o, w ? 0x731 : 0x730, 0);
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_rwlock_rdlock()(l) : 0;
    Obj *o = rwl(l);
    if (o->owner == self->id) return EDEADLK;
    block("rwlock_rdlock", W_RD, o);
    return rw_take(o, false);
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_rwlock_wrlock()(l) : 0;
    Obj *o = rwl(l);
    if (o->owner == self->id) return EDEADLK;
    block("rwlock_wrlock", W_WR, o);
    return rw_take(o, true);
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_rwlock_tryrdlock()(l) : 0;
    Obj *o = rwl(l);
    pt("rwlock_tryrdlock", l);
    if (o->owner == -1) return rw_take(o, false);
    commit(o, 0x732, 0, false);
    return EBUSY;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_rwlock_trywrlock()(l) : 0;
    Obj *o = rwl(l);
    pt("rwlock_trywrlock", l);
    if (o->owner == -1 && o->nrd == 0) return rw_take(o, true);
    commit(o, 0x733, 0, false);
    return EBUSY;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_rwlock_unlock()(l) : 0;
    Obj *o = rwl(l);
    if (opt_unlock_points) pt("rwlock_unlock", l);
    if (o->owner == self->id) o->owner = -1;
    else if (o->rd[self->id]) { o->rd[self->id]--; o->nrd--; }
    else failt("T%d unlocks a rwlock that %s", self->id, o->owner == -1 && !o->nrd ? "is not locked" : "other threads hold");
    trc("T%d rwlock_unlock #%d\n", self->id, o->seq);
    commit(o, 0x734, 0);
    release(o);
    return 0;
}

// ---------------------------------------------------------------- spinlock
static Obj *spn(pthread_spinlock_t *l)
{
    bool fresh;
    Obj *o = obj((const void *)l, K_SPIN, &fresh);
    if (fresh) o->pshared = true;
    if (o->destroyed) failt("use of a destroyed spinlock by T%d", self->id);
    used_by(o);
    return o;
}
EXPORT int pthread_spin_init(pthread_spinlock_t *l, int pshared)
{
    int r = real_pthread_spin_init()(l, pshared);
    if (r == 0 && ctl())
    {
        acc_range((void *)l, sizeof *l, true, __builtin_return_address(0));
        Obj *o = obj((void *)l, K_SPIN);
        uint64_t h = o->hash;
        reset_obj(o, K_SPIN);
        o->hash = h;
        o->pshared = pshared == PTHREAD_PROCESS_SHARED;
        commit(o, 0x141a, 0);
    }
    return r;
}
EXPORT int pthread_spin_destroy(pthread_spinlock_t *l)
{
    if (!ctl()) return 0;
    Obj *o = spn(l);
    pt("spin_destroy", (void *)l);
    acc_range((void *)l, sizeof *l, true, __builtin_return_address(0));
    o->destroyed = true;
    commit(o, 0xde5a, 0);
    return 0;
}
EXPORT int pthread_spin_lock(pthread_spinlock_t *l)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_spin_lock()(l) : 0;
    Obj *o = spn(l);
    block("spin_lock", W_SPIN, o);
    take(o);
    return 0;
}
EXPORT int pthread_spin_trylock(pthread_spinlock_t *l)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_spin_trylock()(l) : 0;
    Obj *o = spn(l);
    pt("spin_trylock", (void *)l);
    if (o->owner == -1) { take(o); return 0; }
    commit(o, 0x10e, 0, false);
    return EBUSY;
}
EXPORT int pthread_spin_unlock(pthread_spinlock_t *l)
{
    if (!ctl()) return inrt || !controlled ? real_pthread_spin_unlock()(l) : 0;
    Obj *o = spn(l);
    if (opt_unlock_points) pt("spin_unlock", (void *)l);
    if (o->owner != self->id) failt("T%d unlocks a spinlock that %s", self->id, o->owner == -1 ? "is not locked" : "another thread holds");
    trc("T%d spin_unlock #%d\n", self->id, o->seq);
    o->owner = -1;
    commit(o, 0x0c, 0);
    release(o);
    return 0;
}

// ---------------------------------------------------------------- once, static guards
EXPORT int pthread_once(pthread_once_t *c, void (*fn)(void))
{
    if (!ctl()) return real_pthread_once()(c, fn);
    Obj *o = obj(c, K_ONCE);
    if (*c == 2) { acquire(o); commit(o, 0x04c, 2, false); return 0; }
    block("pthread_once", W_ONCE, o);
    if (*c == 2) { acquire(o); commit(o, 0x04c, 2, false); return 0; }
    o->owner = self->id;
    commit(o, 0x04c, 1);
    try { fn(); }
    catch (...)
    {
        o->owner = -1;
        commit(o, 0x04c, 3);
        throw;
    }
    *c = 2;
    o->owner = -1;
    commit(o, 0x04c, 4);
    release(o);
    return 0;
}
static decltype(&__cxxabiv1::__cxa_guard_acquire) p_ga;
static decltype(&__cxxabiv1::__cxa_guard_release) p_gr, p_gb;
EXPORT int __cxa_guard_acquire(__cxxabiv1::__guard *g)
{
    if (!ctl())
    {
        if (!p_ga) p_ga = (decltype(p_ga))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
        return p_ga(g);
    }
    Obj *o = obj(g, K_ATOM);
    if (*(char *)g) { acquire(o); commit(o, 0x6a, 2, false); return 0; }
    block("static initialisation", W_ONCE, o);
    if (*(char *)g) { acquire(o); commit(o, 0x6a, 2, false); return 0; }
    o->owner = self->id;
    commit(o, 0x6a, 1);
    return 1;
}
EXPORT void __cxa_guard_release(__cxxabiv1::__guard *g) noexcept
{
    if (!ctl())
    {
        if (!p_gr) p_gr = (decltype(p_gr))dlsym(RTLD_NEXT, "__cxa_guard_release");
        p_gr(g);
        return;
    }
    Obj *o = obj(g, K_ATOM);
    *(char *)g = 1;
    o->owner = -1;
    commit(o, 0x6a, 3);
    release(o);
}
EXPORT void __cxa_guard_abort(__cxxabiv1::__guard *g) noexcept
{
    if (!ctl())
    {
        if (!p_gb) p_gb = (decltype(p_gb))dlsym(RTLD_NEXT, "__cxa_guard_abort");
        p_gb(g);
        return;
    }
    Obj *o = obj(g, K_ATOM);
    o->owner = -1;
    commit(o, 0x6a, 4);
}

// ---------------------------------------------------------------- semaphores
struct NSem { char name[64]; sem_t *s; Obj *o; bool linked; int refs; };
static NSem nsems[32];
static int nnsems;
static Obj *semo(sem_t *s)
{
    Obj *o = obj(s, K_SEM);
    if (o->destroyed) failt("use of a closed or destroyed semaphore by T%d", self->id);
    return o;
}
EXPORT int sem_init(sem_t *s, int pshared, unsigned v)
{
    int r = real_sem_init()(s, pshared, v);
    if (r == 0 && ctl())
    {
        acc_range(s, sizeof *s, true, __builtin_return_address(0));
        Obj *o = obj(s, K_SEM);
        uint64_t h = o->hash;
        reset_obj(o, K_SEM);
        o->hash = h;
        o->pshared = pshared;
        o->count = (int)v;
        commit(o, 0x141b, v);
    }
    return r;
}
EXPORT int sem_destroy(sem_t *s)
{
    if (!ctl()) return 0;
    Obj *o = semo(s);
    pt("sem_destroy", s);
    o->destroyed = true;
    commit(o, 0xde5b, 0);
    return 0;
}
static int hook(int call, int fd, size_t len, long *ret, int *err, size_t *lim, const void *data)
{
    if (!env_hook || self->quiet) return 0;
    return env_hook(call, fd, len, ret, err, lim, data);
}
static int sem_w(sem_t *s, bool timed, int64_t dl)
{
    Obj *o = semo(s);
    used_by(o);
    cancel_check();
    long ret = 0; int err = 0; size_t lim = 0;
    if (hook(XC_SEM_WAIT, -1, 0, &ret, &err, &lim, s) == 1) { errno = err; return (int)ret; }
    self->has_dl = timed;
    self->dl = dl;
    block("sem_wait", W_SEM, o, true);
    if (self->timedout && o->count <= 0) { commit(o, 0x5e1, 1, false); errno = ETIMEDOUT; return -1; }
    if (o->count <= 0) cancel_check();
    --o->count;
    acquire(o);
    commit(o, 0x5e2, 0);
    return 0;
}
EXPORT int sem_wait(sem_t *s)
{
    if (!ctl()) return real_sem_wait()(s);
    return sem_w(s, false, 0);
}
EXPORT int sem_timedwait(sem_t *s, const struct timespec *t)
{
    if (!ctl()) return real_sem_timedwait()(s, t);
    return sem_w(s, true, t->tv_sec * 1000000000ll + t->tv_nsec);
}
EXPORT int sem_clockwait(sem_t *s, clockid_t c, const struct timespec *t)
{
    if (!ctl()) abort();
    return sem_w(s, true, t->tv_sec * 1000000000ll + t->tv_nsec - clk_off(c));
}
EXPORT int sem_trywait(sem_t *s)
{
    if (!ctl()) return real_sem_trywait()(s);
    Obj *o = semo(s);
    used_by(o);
    pt("sem_trywait", s);
    long ret = 0; int err = 0; size_t lim = 1;
    if (hook(XC_SEM_WAIT, -1, 1, &ret, &err, &lim, s) == 1) { errno = err; return (int)ret; }
    if (o->count <= 0) { commit(o, 0x5e3, 0, false); errno = EAGAIN; return -1; }
    --o->count;
    acquire(o);
    commit(o, 0x5e2, 0);
    return 0;
}
EXPORT int sem_post(sem_t *s)
{
    if (!ctl()) return real_sem_post()(s);
    Obj *o = semo(s);
    used_by(o);
    pt("sem_post", s);
    ++o->count;
    commit(o, 0x5e4, 0);
    release(o);
    return 0;
}
EXPORT int sem_getvalue(sem_t *s, int *v)
{
    if (!ctl()) return real_sem_getvalue()(s, v);
    Obj *o = semo(s);
    pt("sem_getvalue", s);
    *v = o->count;
    commit(o, 0x5e5, 0, false);
    return 0;
}
EXPORT sem_t *sem_open(const char *name, int flags, ...)
{
    unsigned v = 0;
    mode_t mode = 0;
    if (flags & O_CREAT)
    {
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); v = va_arg(ap, unsigned); va_end(ap);
    }
    if (!ctl())
    {
        static sem_t *(*p)(const char *, int, ...);
        if (!p) p = (decltype(p))dlsym(RTLD_NEXT, "sem_open");
        return p(name, flags, mode, v);
    }
    if (!self->quiet) pt("sem_open", &kobj);
    const char *n = name;
    while (*n == '/') ++n;
    if (!*n || strchr(n, '/')) { errno = EINVAL; return SEM_FAILED; }
    if (strlen(n) > 60) { errno = ENAMETOOLONG; return SEM_FAILED; }
    NSem *f = nullptr;
    for (int i = 0; i < nnsems; ++i) if (nsems[i].linked && !strcmp(nsems[i].name, n)) f = &nsems[i];
    commit(&kobj, 0x5e6, f != nullptr);
    if (f && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
    if (!f && !(flags & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    if (!f)
    {
        if (v > INT_MAX) { errno = EINVAL; return SEM_FAILED; }
        if (nnsems == 32) internal("too many semaphores");
        f = &nsems[nnsems++];
        strcpy(f->name, n);
        f->linked = true;
        f->refs = 0;
        f->s = (sem_t *)aalloc(sizeof(sem_t), 16);
        Obj *o = obj(f->s, K_SEM);
        o->pshared = true;
        o->count = (int)v;
        f->o = o;
    }
    f->refs++;
    acquire(f->o);
    return f->s;
}
EXPORT int sem_close(sem_t *s)
{
    if (!ctl()) return real_sem_close()(s);
    pt("sem_close", &kobj);
    commit(&kobj, 0x5e7, 0);
    for (int i = 0; i < nnsems; ++i)
        if (nsems[i].s == s)
        {
            if (nsems[i].refs == 0) failt("semaphore closed more often than opened by T%d", self->id);
            nsems[i].refs--;
            return 0;
        }
    errno = EINVAL;
    return -1;
}
EXPORT int sem_unlink(const char *name)
{
    if (!ctl()) return real_sem_unlink()(name);
    pt("sem_unlink", &kobj);
    while (*name == '/') ++name;
    for (int i = 0; i < nnsems; ++i)
        if (nsems[i].linked && !strcmp(nsems[i].name, name))
        {
            nsems[i].linked = false;
            commit(&kobj, 0x5e8, 1);
            return 0;
        }
    commit(&kobj, 0x5e8, 0);
    errno = ENOENT;
    return -1;
}
// Introspection for harnesses: live references of a named semaphore (all generations).
EXPORT int xs_sem_refs(const char *name)
{
    int r = 0;
    while (*name == '/') ++name;
    for (int i = 0; i < nnsems; ++i) if (!strcmp(nsems[i].name, name)) r += nsems[i].refs;
    return r;
}
EXPORT int xs_sem_linked(const char *name)
{
    while (*name == '/') ++name;
    for (int i = 0; i < nnsems; ++i) if (nsems[i].linked && !strcmp(nsems[i].name, name)) return 1;
    return 0;
}

// ---------------------------------------------------------------- futex
static long sys_futex(uint32_t *a, int op, uint32_t val, long to, long, uint32_t)
{
    int cmd = op & FUTEX_CMD_MASK;
    Obj *o = obj((const char *)a + 1, K_FUTEX);   // the word itself is an atomic: keep them apart
    Obj *ao = obj(a, K_ATOM);
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
    {
        pt("futex_wait", a);
        commit(ao, 0xf0, 0, false);
        if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { commit(ao, 0xf1, 1, false); errno = EAGAIN; return -1; }
        o->waiters[o->nw++] = (short)self->id;
        commit(o, 0xf2, 0);
        struct timespec *ts = (struct timespec *)to;
        self->has_dl = ts != nullptr;
        if (ts)
        {
            int64_t v = ts->tv_sec * 1000000000ll + ts->tv_nsec;
            if (cmd == FUTEX_WAIT) v += now_ns;
            else v -= clk_off(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC);
            self->dl = v;
        }
        block("futex_wait", W_COND, o, false);
        bool sig = true;
        for (int i = 0; i < o->nw; ++i) if (o->waiters[i] == self->id) sig = false;
        unwait(o, self->id);
        commit(o, 0xf3, sig);
        if (!sig && self->timedout) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
    {
        pt("futex_wake", a);
        commit(o, 0xf4, o->nw);
        long n = 0;
        while (o->nw && n < (long)val) { wake_one(o, 0); ++n; }
        return n;
    }
    internal("futex operation %d not modelled", cmd);
}
EXPORT long syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (ctl())
    {
        if (n == SYS_futex) return sys_futex((uint32_t *)a, (int)b, (uint32_t)c, d, e, (uint32_t)f);
        if (n == SYS_gettid) return 1000 + self->id;
    }
    return fin(raw(n, a, b, c, d, e, f));
}
EXPORT pid_t gettid(void) noexcept { return ctl() ? 1000 + self->id : (pid_t)raw(SYS_gettid); }

// ---------------------------------------------------------------- time
static const int64_t T0 = 1700000000ll * 1000000000ll;
static int64_t clk_off(int clk)   // value of the clock minus... added to now_ns
{
    switch (clk)
    {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return 0;
    default: return 1000000000000ll - T0;
    }
}
EXPORT int clock_gettime(clockid_t c, struct timespec *t) noexcept
{
    if (!ctl()) return (int)fin(raw(SYS_clock_gettime, c, (long)t));
    int64_t v = now_ns + clk_off(c);
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
    commit(nullptr, 0xc10c, (uint64_t)v);
    return 0;
}
EXPORT int gettimeofday(struct timeval *t, void *) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t *r) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (r) *r = ts.tv_sec;
    return ts.tv_sec;
}
static void vsleep(int64_t dl, const char *what)
{
    cancel_check();
    self->has_dl = true;
    self->dl = dl;
    block(what, W_SLEEP, nullptr, true);
    cancel_check();
    commit(nullptr, 0x51ee9, (uint64_t)now_ns);
}
EXPORT int nanosleep(const struct timespec *t, struct timespec *rem)
{
    if (!ctl()) return (int)fin(raw(SYS_nanosleep, (long)t, (long)rem));
    if (t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0) { errno = EINVAL; return -1; }
    vsleep(now_ns + t->tv_sec * 1000000000ll + t->tv_nsec, "nanosleep");
    return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem)
{
    if (!ctl()) return (int)-raw(SYS_clock_nanosleep, c, flags, (long)t, (long)rem);
    int64_t v = t->tv_sec * 1000000000ll + t->tv_nsec;
    if (flags & TIMER_ABSTIME) { v -= clk_off(c); if (v < now_ns) v = now_ns; }
    else v += now_ns;
    vsleep(v, "clock_nanosleep");
    return 0;
}
EXPORT int usleep(useconds_t us)
{
    if (!ctl()) { struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000}; return (int)fin(raw(SYS_nanosleep, (long)&t, 0)); }
    vsleep(now_ns + us * 1000ll, "usleep");
    return 0;
}
EXPORT unsigned sleep(unsigned s)
{
    if (!ctl()) { struct timespec t = {s, 0}; raw(SYS_nanosleep, (long)&t, 0); return 0; }
    vsleep(now_ns + s * 1000000000ll, "sleep");
    return 0;
}
EXPORT int sched_yield(void) noexcept
{
    if (!ctl()) return (int)fin(raw(SYS_sched_yield));
    self->yielding = true;
    pt("sched_yield", nullptr);
    commit(nullptr, 0x41e1d, 0);
    return 0;
}

// ---------------------------------------------------------------- descriptors
static Obj *fdobj(int fd)
{
    struct stat st;
    uintptr_t key;
    if (raw(SYS_fstat, fd, (long)&st) < 0) return nullptr;
    if (S_ISSOCK(st.st_mode)) key = 0x50c0000000000001ull;
    else if (S_ISFIFO(st.st_mode) || S_ISREG(st.st_mode)) key = 0x5100000000000001ull + ((uint64_t)st.st_ino << 4) + ((uint64_t)st.st_dev << 40);
    else key = 0x5200000000000001ull + ((uint64_t)fd << 4);
    Obj *o = find(key);
    if (o->kind != K_FD) reset_obj(o, K_FD);
    return o;
}
static void iopt(const char *name) { if (opt_io_points && !self->quiet) { pt(name, &kobj); } else self->op = name; }
static bool nonblock(int fd)
{
    long fl = raw(SYS_fcntl, fd, F_GETFL, 0);
    return fl < 0 || (fl & O_NONBLOCK);
}
// One descriptor operation. ev: readiness that a blocking call waits for (0: never blocks).
template <typename F> static long io(int call, const char *name, int fd, size_t len, short ev, bool rel, bool acq, const void *data, bool mayblock, F real)
{
    cancel_check();
    iopt(name);
    long ret = 0;
    int err = 0;
    size_t lim = len;
    int h = hook(call, fd, len, &ret, &err, &lim, data);
    if (h == 1)
    {
        commit(&kobj, 0x10 + call, (uint64_t)ret * 1000 + err);
        trc("T%d %s(%d) answered %ld errno %d\n", self->id, name, fd, ret, err);
        if (ret < 0) errno = err;
        return ret;
    }
    if (ev && mayblock && !nonblock(fd) && !fd_ready(fd, ev))
    {
        self->wfd = fd;
        self->wev = ev;
        block(name, W_FD, nullptr, true);
        cancel_check();
    }
    Obj *o = fdobj(fd);
    if (o && rel) release(o);
    long r = real(lim);
    if (o && acq && r >= 0) acquire(o);
    trc("T%d %s(fd %d) = %ld\n", self->id, name, fd, r);
    commit(&kobj, 0x10 + call, (uint64_t)r);
    return fin(r);
}
#define RA __builtin_return_address(0)
EXPORT ssize_t read(int fd, void *b, size_t n)
{
    if (!ctl()) return fin(raw(SYS_read, fd, (long)b, n));
    long r = io(XC_READ, "read", fd, n, POLLIN, false, true, b, true, [&](size_t l) { return raw(SYS_read, fd, (long)b, l); });
    if (r > 0) acc_range(b, r, true, RA);
    return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n)
{
    if (!ctl() || (!opt_std_io && (fd == 1 || fd == 2))) return fin(raw(SYS_write, fd, (long)b, n));
    acc_range(b, n, false, RA);
    // a blocking write of any length to a pipe: wait for room, write what fits, go on
    long r = io(XC_WRITE, "write", fd, n, POLLOUT, true, false, b, true, [&](size_t l) { return raw(SYS_write, fd, (long)b, l); });
    return r;
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (!ctl()) return fin(raw(SYS_readv, fd, (long)v, c));
    size_t n = 0;
    for (int i = 0; i < c; ++i) { n += v[i].iov_len; }
    return io(XC_READ, "readv", fd, n, POLLIN, false, true, nullptr, true, [&](size_t l) { struct iovec w = {v[0].iov_base, l < v[0].iov_len ? l : v[0].iov_len}; return l < n ? raw(SYS_readv, fd, (long)&w, 1) : raw(SYS_readv, fd, (long)v, c); });
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!ctl()) return fin(raw(SYS_writev, fd, (long)v, c));
    size_t n = 0;
    for (int i = 0; i < c; ++i) { n += v[i].iov_len; acc_range(v[i].iov_base, v[i].iov_len, false, RA); }
    return io(XC_WRITE, "writev", fd, n, POLLOUT, true, false, c ? v[0].iov_base : nullptr, true, [&](size_t l) { struct iovec w = {v[0].iov_base, l < v[0].iov_len ? l : v[0].iov_len}; return l < n ? raw(SYS_writev, fd, (long)&w, 1) : raw(SYS_writev, fd, (long)v, c); });
}
EXPORT ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al)
{
    if (!ctl()) return fin(raw(SYS_recvfrom, fd, (long)b, n, fl, (long)a, (long)al));
    long r = io(a ? XC_RECVFROM : XC_READ, "recv", fd, n, POLLIN, false, true, b, !(fl & MSG_DONTWAIT), [&](size_t l) { return raw(SYS_recvfrom, fd, (long)b, l, fl, (long)a, (long)al); });
    if (r > 0) acc_range(b, r, true, RA);
    return r;
}
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) { return recvfrom(fd, b, n, fl, nullptr, nullptr); }
EXPORT ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al)
{
    if (!ctl()) return fin(raw(SYS_sendto, fd, (long)b, n, fl, (long)a, al));
    acc_range(b, n, false, RA);
    return io(a ? XC_SENDTO : XC_WRITE, "send", fd, n, POLLOUT, true, false, b, !(fl & MSG_DONTWAIT), [&](size_t l) { return raw(SYS_sendto, fd, (long)b, l, fl, (long)a, al); });
}
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) { return sendto(fd, b, n, fl, nullptr, 0); }
EXPORT ssize_t sendmsg(int fd, const struct msghdr *m, int fl)
{
    if (!ctl()) return fin(raw(SYS_sendmsg, fd, (long)m, fl));
    return io(XC_WRITE, "sendmsg", fd, m->msg_iovlen ? m->msg_iov[0].iov_len : 0, POLLOUT, true, false, nullptr, true, [&](size_t) { return raw(SYS_sendmsg, fd, (long)m, fl); });
}
EXPORT ssize_t recvmsg(int fd, struct msghdr *m, int fl)
{
    if (!ctl()) return fin(raw(SYS_recvmsg, fd, (long)m, fl));
    return io(XC_READ, "recvmsg", fd, m->msg_iovlen ? m->msg_iov[0].iov_len : 0, POLLIN, false, true, nullptr, true, [&](size_t) { return raw(SYS_recvmsg, fd, (long)m, fl); });
}
EXPORT int accept4(int fd, struct sockaddr *a, socklen_t *al, int fl)
{
    if (!ctl()) return (int)fin(raw(SYS_accept4, fd, (long)a, (long)al, fl));
    return (int)io(XC_ACCEPT, "accept", fd, 0, POLLIN, false, true, nullptr, true, [&](size_t) { return raw(SYS_accept4, fd, (long)a, (long)al, fl); });
}
EXPORT int accept(int fd, struct sockaddr *a, socklen_t *al) { return accept4(fd, a, al, 0); }
EXPORT int connect(int fd, const struct sockaddr *a, socklen_t al)
{
    if (!ctl()) return (int)fin(raw(SYS_connect, fd, (long)a, al));
    return (int)io(XC_CONNECT, "connect", fd, al, 0, true, false, a, false, [&](size_t) { return raw(SYS_connect, fd, (long)a, al); });
}
EXPORT int shutdown(int fd, int how) noexcept
{
    if (!ctl()) return (int)fin(raw(SYS_shutdown, fd, how));
    return (int)io(XC_NCALLS, "shutdown", fd, how, 0, true, false, nullptr, false, [&](size_t) { return raw(SYS_shutdown, fd, how); });
}
EXPORT int close(int fd)
{
    if (!ctl()) return (int)fin(raw(SYS_close, fd));
    return (int)io(XC_CLOSE, "close", fd, 0, 0, true, false, nullptr, false, [&](size_t) { return raw(SYS_close, fd); });
}
EXPORT int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) noexcept
{
    if (!ctl()) return (int)fin(raw(SYS_epoll_ctl, ep, op, fd, (long)ev));
    return (int)io(XC_EPOLL_CTL, op == EPOLL_CTL_ADD ? "epoll_ctl add" : op == EPOLL_CTL_DEL ? "epoll_ctl del" : "epoll_ctl mod", ep, fd, 0, true, false, ev, false, [&](size_t) { return raw(SYS_epoll_ctl, ep, op, fd, (long)ev); });
}
EXPORT int epoll_pwait(int ep, struct epoll_event *evs, int n, int to, const sigset_t *ss)
{
    if (!ctl()) return (int)fin(raw(SYS_epoll_pwait, ep, (long)evs, n, to, (long)ss, 8));
    cancel_check();
    iopt("epoll_wait");
    long ret = 0;
    int err = 0;
    size_t lim = n;
    if (hook(XC_EPOLL_WAIT, ep, n, &ret, &err, &lim, evs) == 1)
    {
        commit(&kobj, 0x1e, (uint64_t)ret * 1000 + err);
        if (ret < 0) errno = err;
        return (int)ret;
    }
    if (to != 0 && !fd_ready(ep, POLLIN))
    {
        self->wfd = ep;
        self->wev = POLLIN;
        self->has_dl = to > 0;
        self->dl = now_ns + to * 1000000ll;
        block("epoll_wait", W_FD, nullptr, true);
        cancel_check();
    }
    long r = raw(SYS_epoll_pwait, ep, (long)evs, lim, 0, 0, 8);
    Obj *o = fdobj(ep);
    if (o && r >= 0) acquire(o);
    if (r > 0) acc_range(evs, r * sizeof *evs, true, RA);
    uint64_t h = (uint64_t)r;
    for (long i = 0; i < r; ++i) h = mix(h, mix(evs[i].events, evs[i].data.u64));
    if (slot->trace)
    {
        trc("T%d epoll_wait(%d) = %ld", self->id, ep, r);
        for (long i = 0; i < r; ++i) trc(" fd%d:%#x", evs[i].data.fd, evs[i].events);
        trc("\n");
    }
    // the whole kernel state decides the answer
    commit(&kobj, 0x1f, h);
    return (int)fin(r);
}
EXPORT int epoll_wait(int ep, struct epoll_event *evs, int n, int to) { return epoll_pwait(ep, evs, n, to, nullptr); }
EXPORT int poll(struct pollfd *f, nfds_t n, int to)
{
    if (!ctl()) return (int)fin(raw(SYS_poll, (long)f, n, to));
    cancel_check();
    iopt("poll");
    long ret = 0;
    int err = 0;
    size_t lim = n;
    if (hook(XC_POLL, n ? f[0].fd : -1, n, &ret, &err, &lim, f) == 1)
    {
        commit(&kobj, 0x20, (uint64_t)ret * 1000 + err);
        if (ret < 0) errno = err;
        return (int)ret;
    }
    if (to != 0 && raw(SYS_poll, (long)f, n, 0) == 0)
    {
        self->pfds = f;
        self->npfds = (int)n;
        self->has_dl = to > 0;
        self->dl = now_ns + to * 1000000ll;
        block("poll", W_POLL, nullptr, true);
        cancel_check();
    }
    long r = raw(SYS_poll, (long)f, n, 0);
    uint64_t h = (uint64_t)r;
    for (nfds_t i = 0; i < n; ++i) { h = mix(h, f[i].revents); if (f[i].revents) { Obj *o = fdobj(f[i].fd); if (o) acquire(o); } }
    commit(&kobj, 0x21, h);
    trc("T%d poll = %ld\n", self->id, r);
    return (int)fin(r);
}
EXPORT int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *) { return poll(f, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1); }
EXPORT int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    if (!ctl()) return (int)fin(raw(SYS_select, n, (long)r, (long)w, (long)x, (long)tv));
    struct pollfd f[64];
    int k = 0;
    for (int i = 0; i < n && k < 64; ++i)
    {
        short ev = 0;
        if (r && FD_ISSET(i, r)) ev |= POLLIN;
        if (w && FD_ISSET(i, w)) ev |= POLLOUT;
        if (x && FD_ISSET(i, x)) ev |= POLLPRI;
        if (ev) { f[k].fd = i; f[k].events = ev; f[k].revents = 0; ++k; }
    }
    int rc = poll(f, k, tv ? (int)(tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000) : -1);
    if (rc < 0) return rc;
    int cnt = 0;
    for (int i = 0; i < k; ++i)
    {
        if (r && FD_ISSET(f[i].fd, r)) { if (f[i].revents & (POLLIN | POLLHUP | POLLERR)) ++cnt; else FD_CLR(f[i].fd, r); }
        if (w && FD_ISSET(f[i].fd, w)) { if (f[i].revents & (POLLOUT | POLLERR)) ++cnt; else FD_CLR(f[i].fd, w); }
        if (x && FD_ISSET(f[i].fd, x)) { if (f[i].revents & POLLPRI) ++cnt; else FD_CLR(f[i].fd, x); }
    }
    return cnt;
}
// Creation calls: the hook may make them fail; no scheduling point.
static bool deny(int call, int fd, size_t len, const void *data, long *r)
{
    int err = 0;
    size_t lim = len;
    if (ctl() && hook(call, fd, len, r, &err, &lim, data) == 1)
    {
        commit(&kobj, 0x40 + call, (uint64_t)err);
        trc("T%d call %d answered %ld errno %d\n", self->id, call, *r, err);
        if (*r < 0) errno = err;
        return true;
    }
    return false;
}
EXPORT int socket(int d, int t, int p) noexcept
{
    long r = 0;
    if (deny(XC_SOCKET, d, t, nullptr, &r)) return (int)r;
    r = raw(SYS_socket, d, t, p);
    if (ctl()) commit(&kobj, 0x50, (uint64_t)r);
    return (int)fin(r);
}
static bool fd_points;      // descriptors being made and marked are steps of their own (what a fork copies)
EXPORT void xs_fd_points(int on) { fd_points = on; }
EXPORT int pipe2(int *f, int fl) noexcept
{
    if (ctl() && fd_points) iopt("pipe");
    long r = 0;
    if (deny(XC_PIPE, -1, fl, nullptr, &r)) return (int)r;
    r = raw(SYS_pipe2, (long)f, fl);
    if (ctl()) commit(&kobj, 0x51, (uint64_t)(r < 0 ? r : f[0] * 1000 + f[1]));
    return (int)fin(r);
}
EXPORT int pipe(int *f) noexcept { return pipe2(f, 0); }
EXPORT int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    bool pt = ctl() && fd_points && cmd == F_SETFD;
    if (pt) iopt("fcntl");
    long r = 0;
    if (deny(XC_FCNTL, fd, cmd, (void *)a, &r)) return (int)r;
    r = raw(SYS_fcntl, fd, cmd, a);
    if (pt) commit(&kobj, 0x52, (uint64_t)(fd * 4 + a));
    return (int)fin(r);
}
EXPORT int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return fcntl(fd, cmd, a);
}

// ---------------------------------------------------------------- shared memory
struct NShm { char name[64]; int fd; bool linked; };
static NShm nshms[16];
static int nnshms;
EXPORT int shm_open(const char *name, int flags, mode_t mode)
{
    if (!ctl()) return real_shm_open()(name, flags, mode);
    iopt("shm_open");
    long r = 0;
    if (deny(XC_SHM_OPEN, -1, flags, name, &r)) return (int)r;
    const char *n = name;
    while (*n == '/') ++n;
    if (!*n || strchr(n, '/') || strlen(n) > 60) { errno = EINVAL; return -1; }
    NShm *f = nullptr;
    for (int i = 0; i < nnshms; ++i) if (nshms[i].linked && !strcmp(nshms[i].name, n)) f = &nshms[i];
    commit(&kobj, 0x60, f != nullptr);
    if (f && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (!f && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (!f)
    {
        if (nnshms == 16) internal("too many shared memory objects");
        f = &nshms[nnshms++];
        strcpy(f->name, n);
        f->linked = true;
        int fd = (int)raw(SYS_memfd_create, (long)"xs", 0);
        f->fd = (int)raw(SYS_fcntl, fd, F_DUPFD, 900);
        raw(SYS_close, fd);
    }
    char path[64];
    ++inrt; snprintf(path, sizeof path, "/proc/self/fd/%d", f->fd); --inrt;
    r = raw(SYS_open, (long)path, (flags & (O_ACCMODE | O_TRUNC)) | O_CLOEXEC, 0);
    trc("T%d shm_open(%s) = %ld\n", self->id, name, r);
    return (int)fin(r);
}
EXPORT int shm_unlink(const char *name)
{
    if (!ctl()) return real_shm_unlink()(name);
    iopt("shm_unlink");
    while (*name == '/') ++name;
    for (int i = 0; i < nnshms; ++i)
        if (nshms[i].linked && !strcmp(nshms[i].name, name)) { nshms[i].linked = false; commit(&kobj, 0x61, 1); return 0; }
    commit(&kobj, 0x61, 0);
    errno = ENOENT;
    return -1;
}
EXPORT int xs_shm_linked(const char *name)
{
    while (*name == '/') ++name;
    for (int i = 0; i < nnshms; ++i) if (nshms[i].linked && !strcmp(nshms[i].name, name)) return 1;
    return 0;
}
EXPORT int ftruncate(int fd, off_t len) noexcept
{
    if (!ctl()) return (int)fin(raw(SYS_ftruncate, fd, len));
    iopt("ftruncate");
    long r = 0;
    if (deny(XC_FTRUNCATE, fd, len, nullptr, &r)) return (int)r;
    r = raw(SYS_ftruncate, fd, len);
    commit(&kobj, 0x62, (uint64_t)r);
    trc("T%d ftruncate(%d,%ld) = %ld\n", self->id, fd, (long)len, r);
    return (int)fin(r);
}
static int grow_file(int fd, off_t off, off_t len, int *err)
{
    iopt("posix_fallocate");
    long r = 0;
    if (deny(XC_FTRUNCATE, fd, len, "allocate", &r)) { *err = errno; return (int)r; }
    r = raw(SYS_fallocate, fd, 0, off, len);
    commit(&kobj, 0x66, (uint64_t)r);
    trc("T%d fallocate(%d,%ld) = %ld\n", self->id, fd, (long)len, r);
    *err = r < 0 ? (int)-r : 0;
    return r < 0 ? -1 : 0;
}
EXPORT int posix_fallocate(int fd, off_t off, off_t len)
{
    if (!ctl()) { long r = raw(SYS_fallocate, fd, 0, off, len); return r < 0 ? (int)-r : 0; }
    if (off < 0 || len <= 0) return EINVAL;
    int err = 0, keep = errno;
    grow_file(fd, off, len, &err);
    errno = keep;
    return err;
}
EXPORT int posix_fallocate64(int fd, off_t off, off_t len) { return posix_fallocate(fd, off, len); }
EXPORT int fallocate(int fd, int mode, off_t off, off_t len)
{
    if (!ctl() || mode) return (int)fin(raw(SYS_fallocate, fd, mode, off, len));
    int err = 0;
    int r = grow_file(fd, off, len, &err);
    if (r < 0) errno = err;
    return r;
}
EXPORT int fallocate64(int fd, int mode, off_t off, off_t len) { return fallocate(fd, mode, off, len); }
EXPORT int fstat(int fd, struct stat *st) noexcept
{
    if (!ctl()) return (int)fin(raw(SYS_fstat, fd, (long)st));
    iopt("fstat");
    long r = raw(SYS_fstat, fd, (long)st);
    commit(&kobj, 0x63, (uint64_t)(r < 0 ? r : st->st_size), false);
    return (int)fin(r);
}
EXPORT void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) noexcept
{
    if (!ctl()) { long r = raw(SYS_mmap, (long)a, n, prot, fl, fd, off); return (void *)fin(r); }
    if (fd >= 0) iopt("mmap");
    long r = 0;
    if (fd >= 0 && deny(XC_MMAP, fd, n, nullptr, &r)) return MAP_FAILED;
    r = raw(SYS_mmap, (long)a, n, prot, fl, fd, off);
    if (r < 0 && r > -4096) { commit(&kobj, 0x64, (uint64_t)r); return (void *)fin(r); }
    if (fd >= 0)
    {
        commit(&kobj, 0x64, 1);
        trc("T%d mmap(fd %d, %zu)\n", self->id, fd, n);
        if (fl & MAP_SHARED)
        {
            struct stat st;
            raw(SYS_fstat, fd, (long)&st);
            uint64_t id = ((uint64_t)st.st_dev << 40) ^ st.st_ino;
            int k = 0;
            while (k < ninos && inos[k] != id) ++k;
            if (k == ninos) { if (k == 32) internal("too many shared files"); inos[ninos++] = id; }
            if (nmaps == 64) internal("too many mappings");
            maps[nmaps].lo = (uintptr_t)r;
            maps[nmaps].hi = (uintptr_t)r + n;
            maps[nmaps].base = 0x500000000000ull + ((uintptr_t)k << 32) + off;
            nmaps++;
        }
    }
    return (void *)r;
}
EXPORT void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t off) noexcept { return mmap(a, n, prot, fl, fd, off); }
EXPORT int munmap(void *a, size_t n) noexcept
{
    if (!ctl()) return (int)fin(raw(SYS_munmap, (long)a, n));
    bool shared = false;
    for (int i = 0; i < nmaps; ++i) if (maps[i].lo == (uintptr_t)a) shared = true;
    if (shared) iopt("munmap");
    long r = 0;
    if (shared && deny(XC_MUNMAP, -1, n, a, &r)) return (int)r;
    r = raw(SYS_munmap, (long)a, n);
    if (shared)
    {
        commit(&kobj, 0x65, 0);
        for (int i = 0; i < nmaps; ++i)
            if (maps[i].lo == (uintptr_t)a)
            {
                // A call that names fewer pages than were mapped leaves the rest mapped.
                uintptr_t cut = maps[i].lo + ((n + 4095) & ~(size_t)4095);
                if (r == 0 && cut < maps[i].hi) { maps[i].base += cut - maps[i].lo; maps[i].lo = cut; }
                else if (r == 0) maps[i] = maps[--nmaps];
                break;
            }
    }
    return (int)fin(r);
}
EXPORT int xs_nmaps(void) { return nmaps; }

// ---------------------------------------------------------------- process
EXPORT void _exit(int st)
{
    if (ctl()) xs_fail("_exit(%d) called by T%d", st, self->id);
    raw(SYS_exit_group, st);
    __builtin_unreachable();
}
EXPORT void _Exit(int st) noexcept { _exit(st); __builtin_unreachable(); }
EXPORT void exit(int st)
{
    if (ctl()) xs_fail("exit(%d) called by T%d", st, self->id);
    static void (*p)(int);
    if (!p) p = (void (*)(int))dlsym(RTLD_NEXT, "exit");
    p(st);
    __builtin_unreachable();
}
struct Kid { pid_t pid, alias; bool reaped; };
static Kid kids[16];
static int nkids;
static pid_t alias_of(pid_t p) { for (int i = 0; i < nkids; ++i) if (kids[i].pid == p) return kids[i].alias; return p; }
static pid_t real_of(pid_t a) { for (int i = 0; i < nkids; ++i) if (kids[i].alias == a) return kids[i].pid; return a; }
static bool kid_done(pid_t p)
{
    siginfo_t si;
    memset(&si, 0, sizeof si);
    long r = raw(SYS_waitid, P_PID, p, (long)&si, WEXITED | WNOHANG | WNOWAIT, 0);
    return r < 0 || si.si_pid != 0;
}
static bool child_ready(Th *t) { return kid_done((pid_t)t->wfd); }
EXPORT pid_t fork(void) noexcept
{
    if (!ctl()) return real_fork()();
    iopt("fork");
    long r = 0;
    if (deny(XC_FORK, -1, 0, nullptr, &r)) return (int)r;
    ++inrt;
    pid_t p = real_fork()();
    if (p == 0) { in_child = true; --inrt; return 0; }
    --inrt;
    if (p > 0)
    {
        if (nkids == 16) internal("too many children");
        if (fd_points)      // the child does not run on: what it holds is gone when the parent continues
        {
            siginfo_t si;
            while (raw(SYS_waitid, P_PID, p, (long)&si, WEXITED | WNOWAIT, 0) == -EINTR) ;
        }
        kids[nkids].pid = p;
        kids[nkids].alias = 5000 + nkids;
        kids[nkids].reaped = false;
        p = kids[nkids].alias;
        nkids++;
    }
    commit(&kobj, 0x70, (uint64_t)(p > 0));
    trc("T%d fork = %d\n", self->id, p);
    return p;
}
EXPORT pid_t vfork(void) noexcept { return fork(); }
EXPORT pid_t xs_real_pid(int i) { return i < nkids ? kids[i].pid : -1; }
EXPORT int xs_nkids(void) { return nkids; }
EXPORT int xs_kid_reaped(int i) { return kids[i].reaped; }
EXPORT pid_t waitpid(pid_t a, int *st, int fl)
{
    if (!ctl()) return (pid_t)fin(raw(SYS_wait4, a, (long)st, fl, 0));
    cancel_check();
    iopt(fl & WNOHANG ? "waitpid (poll)" : "waitpid");
    long r = 0;
    if (deny(XC_WAITPID, a, fl, nullptr, &r)) return (int)r;
    pid_t p = real_of(a);
    if (!(fl & WNOHANG) && a > 0 && !kid_done(p))
    {
        self->wfd = p;
        block("waitpid", W_CHILD, nullptr, true);
        cancel_check();
    }
    int s = 0;
    r = raw(SYS_wait4, p, (long)&s, fl, 0);
    if (st) *st = s;
    if (r > 0)
    {
        for (int i = 0; i < nkids; ++i) if (kids[i].pid == r) kids[i].reaped = true;
        r = alias_of((pid_t)r);
    }
    commit(&kobj, 0x71, mix((uint64_t)r, (uint64_t)s));
    trc("T%d waitpid = %ld status %#x\n", self->id, r, s);
    return (pid_t)fin(r);
}
EXPORT pid_t wait(int *st) { return waitpid(-1, st, 0); }
EXPORT int kill(pid_t a, int sig) noexcept
{
    if (!ctl()) return (int)fin(raw(SYS_kill, a, sig));
    iopt("kill");
    pid_t p = real_of(a);
    bool known = false;
    for (int i = 0; i < nkids; ++i) if (kids[i].pid == p) known = true;
    if (!known) xs_fail("kill(%d, %d) of a process that is not a child", a, sig);
    for (int i = 0; i < nkids; ++i) if (kids[i].pid == p && kids[i].reaped) xs_fail("kill(%d, %d) of a child that was already reaped (the pid may belong to someone else)", a, sig);
    long r = 0;
    if (deny(XC_KILL, a, sig, nullptr, &r)) return (int)r;
    r = raw(SYS_kill, p, sig);
    commit(&kobj, 0x72, (uint64_t)(r * 100 + sig));
    return (int)fin(r);
}
static int do_exec()
{
    if (in_child && child_body) { child_body(); raw(SYS_exit_group, 126); }
    return 0;
}
EXPORT int execvp(const char *f, char *const v[]) noexcept { do_exec(); return real_execvp()(f, v); }
EXPORT int execve(const char *f, char *const v[], char *const e[]) noexcept { do_exec(); return real_execve()(f, v, e); }
EXPORT int execvpe(const char *f, char *const v[], char *const e[]) noexcept { do_exec(); return real_execvpe()(f, v, e); }

// ---------------------------------------------------------------- instrumentation entry points
#define TR(n) EXPORT void __tsan_read##n(void *p) { acc(p, n, false, RA); } EXPORT void __tsan_unaligned_read##n(void *p) { acc(p, n, false, RA); } \
    EXPORT void __tsan_volatile_read##n(void *p) { acc(p, n, false, RA); } EXPORT void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false, RA); }
#define TW(n) EXPORT void __tsan_write##n(void *p) { acc(p, n, true, RA); } EXPORT void __tsan_unaligned_write##n(void *p) { acc(p, n, true, RA); } \
    EXPORT void __tsan_volatile_write##n(void *p) { acc(p, n, true, RA); } EXPORT void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true, RA); }
TR(1) TR(2) TR(4) TR(8) TR(16)
TW(1) TW(2) TW(4) TW(8) TW(16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_read_range(void *p, size_t n) { acc_range(p, n, false, RA); }
EXPORT void __tsan_write_range(void *p, size_t n) { acc_range(p, n, true, RA); }
EXPORT void __tsan_vptr_update(void **p, void *v) { if (*p == v) acc(p, 8, false, RA); else acc(p, 8, true, RA); }
EXPORT void __tsan_vptr_read(void **p) { acc(p, 8, false, RA); }
EXPORT void __tsan_func_entry(void *pc)
{
    if (!self) return;
    if (self->fdepth < 256) self->fstack[self->fdepth] = (uintptr_t)pc;
    self->fdepth++;
}
EXPORT void __tsan_func_exit(void) { if (self && self->fdepth > 0) self->fdepth--; }
extern "C" {
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (ctl() && n) { acc_range(s, n, false, RA); acc_range(d, n, true, RA); }
    return __real_memcpy(d, s, n);
}
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (ctl() && n) { acc_range(s, n, false, RA); acc_range(d, n, true, RA); }
    return __real_memmove(d, s, n);
}
EXPORT void *__wrap_memset(void *d, int c, size_t n)
{
    if (ctl() && n)
    {
        bool shared = false;
        for (int i = 0; i < nmaps; ++i) if ((uintptr_t)d >= maps[i].lo && (uintptr_t)d < maps[i].hi) shared = true;
        if (shared) { iopt("memset of shared memory"); commit(&kobj, 0x80, n); }
        acc_range(d, n, true, RA);
    }
    return __real_memset(d, c, n);
}
}
EXPORT int xs_refcount_add(volatile int *m, int v) noexcept
{
    if (!ctl()) return __atomic_fetch_add((int *)m, v, __ATOMIC_ACQ_REL);
    Obj *o = obj((const void *)m, K_ATOM);
    access((uintptr_t)m, 4, true, true, (uintptr_t)RA);
    int r = *m;
    *m = r + v;
    // As the standard has it: taking a reference orders nothing, giving one back happens before the last one is given back.
    // (These operations are no scheduling points, so an edge that the implementation has by accident would hide races.)
    if (v < 0 && r + v == 0) acquire(o);
    commit(o, 0x4ef, (uint64_t)v);
    if (v < 0) release(o);
    return r;
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static Obj *at(const volatile void *p, const char *name, bool w, size_t n, void *pc)
{
    Obj *o = obj((const void *)p, K_ATOM);
    if (!o->quiet) pt(name, (const void *)p);
    access((uintptr_t)p, n, w, true, (uintptr_t)pc);
    return o;
}
static void at_load(Obj *o, int mo)
{
    if (is_acq(mo)) acquire(o); else vjoin(self->acqf, o->vc);
}
static void at_store(Obj *o, int mo, bool rmw)
{
    if (!rmw) memset(o->vc, 0, sizeof o->vc);
    if (is_rel(mo)) release(o);
    else if (self->has_relf) vjoin(o->vc, self->relf);
}
#define AT(N, T) \
EXPORT T __tsan_atomic##N##_load(const volatile T *p, int mo) \
{ \
    if (!ctl()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); \
    Obj *o = at(p, "atomic load", false, sizeof(T), RA); \
    T v = *p; at_load(o, mo); commit(o, 0xa1, 0, false); return v; \
} \
EXPORT void __tsan_atomic##N##_store(volatile T *p, T v, int mo) \
{ \
    if (!ctl()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } \
    Obj *o = at(p, "atomic store", true, sizeof(T), RA); \
    *p = v; commit(o, 0xa2, 0); at_store(o, mo, false); \
} \
EXPORT T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) \
{ \
    if (!ctl()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); \
    Obj *o = at(p, "atomic exchange", true, sizeof(T), RA); \
    T r = *p; *p = v; at_load(o, mo); commit(o, 0xa3, 0); at_store(o, mo, true); return r; \
} \
EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) \
{ \
    if (!ctl()) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    Obj *o = at(p, "atomic compare-exchange", true, sizeof(T), RA); \
    T r = *p; \
    if (r == *e) { *p = v; at_load(o, mo); commit(o, 0xa4, 1); at_store(o, mo, true); return 1; } \
    at_load(o, fmo); commit(o, 0xa4, 0, false); *e = r; return 0; \
} \
EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo); } \
EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
#define RMW(N, T, name, expr) \
EXPORT T __tsan_atomic##N##_fetch_##name(volatile T *p, T v, int mo) \
{ \
    if (!ctl()) { T r = *p; T nv; do { nv = (T)(expr); } while (!__atomic_compare_exchange_n(p, &r, nv, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)); return r; } \
    Obj *o = at(p, "atomic " #name, true, sizeof(T), RA); \
    T r = *p; *p = (T)(expr); at_load(o, mo); commit(o, 0xa5, 0); at_store(o, mo, true); return r; \
}
#define ATALL(N, T) AT(N, T) RMW(N, T, add, r + v) RMW(N, T, sub, r - v) RMW(N, T, and, r & v) RMW(N, T, or, r | v) RMW(N, T, xor, r ^ v) RMW(N, T, nand, ~(r & v))
ATALL(8, uint8_t) ATALL(16, uint16_t) ATALL(32, uint32_t) ATALL(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (!ctl()) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
    if (is_acq(mo)) vjoin(self->vc, self->acqf);
    if (is_rel(mo)) { vcopy(self->relf, self->vc); self->has_relf = true; tick(); }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- harness API
EXPORT int xs_choose(int n, int cost) { return ctl() || (self && controlled) ? env_choice(n, cost) : 0; }
EXPORT void xs_point(const void *o)
{
    if (!ctl()) return;
    Obj *x = obj((const char *)o + 2, K_USER);
    pt("point", (const char *)o + 2);
    commit(x, 0x901, 0);
}
EXPORT void xs_wait_until(int (*pred)(void *), void *arg, const char *what)
{
    if (!ctl()) return;
    self->pred = pred;
    self->parg = arg;
    block(what, W_PRED, nullptr);
    commit(&kobj, 0x902, 0);
}
EXPORT void xs_vproc(int id) { self->vproc = id; }
EXPORT int xs_tid(void) { return self ? self->id : -1; }
EXPORT int xs_deep(void) { return slot ? slot->deep : 0; }
EXPORT void xs_quiet(const void *p, size_t n) { if (nquiet < 16) quietr[nquiet++] = {(uintptr_t)p, (uintptr_t)p + n}; xs_norace(p, n); }
EXPORT void xs_unlock_points(int on) { opt_unlock_points = on; }
EXPORT void xs_spurious(int on) { opt_spurious = on; }
EXPORT void xs_delay_bound(int on) { opt_delay = on; }
EXPORT void xs_time_races(int on) { opt_time_races = on; }
EXPORT void xs_std_io(int on) { opt_std_io = on; }
EXPORT void xs_io_points(int on) { opt_io_points = on; }
EXPORT void xs_norace(const void *p, size_t n) { if (nnorace < 32) norace[nnorace++] = {(uintptr_t)p, (uintptr_t)p + n}; }
EXPORT int64_t xs_now(void) { return now_ns; }
EXPORT void xs_advance(int64_t ns) { now_ns += ns; }
EXPORT void xs_horizon(int n) { horizon = n; }
EXPORT void xs_enter_quiet(void) { ++self->quiet; }
EXPORT void xs_leave_quiet(void) { --self->quiet; }
EXPORT int xs_nthreads(void) { return nths; }
EXPORT int xs_thread_ended(int t) { return t < nths && ths[t].finished; }
EXPORT int xs_others_alive(void)
{
    int n = 0;
    for (int i = 0; i < nths; ++i) if (ths[i].used && &ths[i] != self && !ths[i].finished && !ths[i].daemon) ++n;
    return n;
}
EXPORT void xs_settle(void)
{
    if (!ctl()) return;
    block("settle", W_SETTLE, nullptr);
    // ordered after everything that happened: the harness may look at plain data
    uint64_t h = 0;
    for (int i = 0; i < nths; ++i) if (ths[i].used) { vjoin(self->vc, ths[i].vc); h += ths[i].hash; }
    self->hash = mix(h, 0x5e771e);
}
EXPORT void xs_daemon(void) { self->daemon = true; }
EXPORT void xs_env(xs_env_hook h) { env_hook = h; }
EXPORT void xs_children(xs_child_body b) { child_body = b; }

// ---------------------------------------------------------------- one execution
static void on_signal(int sig, siginfo_t *si, void *uc)
{
    if (in_child || !controlled) { raw(SYS_exit_group, 128 + sig); }
    ++inrt;
    unsigned long pc = 0;
#ifdef __x86_64__
    pc = (unsigned long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
#endif
    if (sig == SIGALRM) failt("execution does not reach a scheduling point (endless loop or real blocking)");
    failt("crash: signal %d (%s), address %p, at {pc %#lx}, T%d", sig, sig == SIGABRT ? "SIGABRT" : sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGPIPE ? "SIGPIPE" : "other",
        si->si_addr, pc, self ? self->id : -1);
}
static void on_term()
{
    ++inrt;
    char what[400] = "no active exception";
    int st = 0;
    if (std::type_info *t = abi::__cxa_current_exception_type())
    {
        snprintf(what, sizeof what, "%s", abi::__cxa_demangle(t->name(), nullptr, nullptr, &st));
        try { throw; }
        catch (const std::exception &e) { size_t l = strlen(what); snprintf(what + l, sizeof what - l, ": %s", e.what()); }
        catch (...) {}
    }
    failt("std::terminate called in T%d: %s", self ? self->id : -1, what);
}
extern "C" int xs_bound(int, int) __attribute__((weak));

namespace xsi
{
void run_child(Slot *s)
{
    slot = s;
    s->status = ST_RUNNING;
    s->nrec = s->obslen = s->trclen = s->keyhit = 0;
    s->points = 0;
    s->msg[0] = s->obs[0] = s->trc[0] = 0;
    stack_t ss = {};
    static char alt[64 << 10];
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) sigaction(g, &sa, nullptr);
    std::set_terminate(on_term);
    struct itimerval it = {};
    it.it_value.tv_sec = 20;
    raw(SYS_setitimer, ITIMER_REAL, (long)&it, 0);
    if (raw(SYS_mmap, (long)ARENA, MAXT * ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) < 0)
        internal("arena mmap");
    for (int i = 0; i < MAXT; ++i) arena_cur[i] = ARENA + i * ARENA_SZ;
    now_ns = T0;
    kobj.kind = K_FD;
    Th *t = &ths[0];
    t->id = 0;
    t->used = true;
    t->pt = pthread_self();
    t->vc[0] = 1;
    t->hash = 0x1234567;
    nths = 1;
    running = t;
    controlled = true;
    self = t;
    pthread_setspecific(fin_key, nullptr);
    xs_scenario(s->scen);
    // wait for everybody else
    self->quiet = 0;
    block("end of scenario", W_ALLDONE, nullptr);
    done(ST_OK);
}
}
__attribute__((constructor(101))) static void rt_init()
{
    pthread_key_create(&fin_key, finish_key);
}
