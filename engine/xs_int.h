// Shared between the runtime (in each execution) and the explorer.
#ifndef XS_INT_H
#define XS_INT_H
#include <stdint.h>
#include <stddef.h>
namespace xsi
{
constexpr int MAXC = 6000, MAXALT = 22, MSG = 6000, OBS = 3000, TRC = 24000;
struct Rec
{
    uint64_t sig;
    uint8_t n, chosen, cost[MAXALT];
};
enum Status { ST_RUNNING = 0, ST_OK, ST_VIOLATION, ST_DISCARD, ST_PRUNED, ST_INTERNAL };
struct Slot
{
    // in
    int scen, nprefix, prune, trace, deep, expect_n;
    uint64_t expect_sig;              // signature expected at the last prefix point
    uint8_t prefix[MAXC];
    // out
    int status, nrec, nthreads, obslen, trclen, keyhit;
    uint64_t points, races_checked;
    char msg[MSG], obs[OBS];
    Rec rec[MAXC];
    char trc[TRC];
};
struct Visited                         // open addressing, written by the explorer only
{
    uint64_t mask;
    uint64_t tab[1];
};
extern Slot *slot;
extern Visited *visited;
extern char known_keys[16][80];
extern int nknown;
void run_child(Slot *s);               // never returns
inline bool seen(const Visited *v, uint64_t sig)
{
    for (uint64_t i = sig & v->mask;; i = (i + 1) & v->mask)
    {
        uint64_t x = __atomic_load_n(&v->tab[i], __ATOMIC_RELAXED);
        if (x == sig) return true;
        if (!x) return false;
    }
}
inline bool insert(Visited *v, uint64_t sig)
{
    for (uint64_t i = sig & v->mask;; i = (i + 1) & v->mask)
    {
        uint64_t x = v->tab[i];
        if (x == sig) return false;
        if (!x) { __atomic_store_n(&v->tab[i], sig, __ATOMIC_RELAXED); return true; }
    }
}
}
#endif
