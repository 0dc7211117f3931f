// C18: named semaphore: openers, counting, interruptions and handle histories under all interleavings.
#include "xs.h"
#include "cppev/ipc.h"
#include <errno.h>
#include <memory>
#include <system_error>
#include <thread>
#include <vector>
using cppev::semaphore;

enum { OPEN, UNLINK, COUNT, TRY, MULTI, INTR, HIST };
static const struct { const char *name; int kind, a, b, c, procs; } sc[] = {
    {"1 opener", OPEN, 1, 0, 0, 1},
    {"2 openers", OPEN, 2, 0, 0, 2},
    {"3 openers", OPEN, 3, 0, 0, 3},
    {"2 openers, the name is removed meanwhile", UNLINK, 2, 0, 0, 2},
    {"1 acquirer, 1 releaser", COUNT, 1, 1, 1, 1},
    {"1 acquirer, 1 releaser in 2 processes", COUNT, 1, 1, 1, 2},
    {"2 acquirers, 2 single releases", COUNT, 2, 1, 2, 1},
    {"2 acquirers, 1 release of 2", COUNT, 2, 1, 1, 2},
    {"1 acquirer of 2, 2 releasers", COUNT, 1, 2, 2, 2},
    {"2 acquirers of 2, 1 release of 4", COUNT, 2, 2, 1, 1},
    {"3 acquirers, 3 releasers", COUNT, 3, 1, 3, 3},
    {"2 acquirers, 1 unit only", MULTI, 2, 1, 1, 2},
    {"1 acquirer of 3, 2 units only", MULTI, 1, 3, 2, 1},
    {"1 try, 1 release", TRY, 1, 1, 0, 2},
    {"1 try, 2 releases", TRY, 1, 2, 0, 1},
    {"1 try, 1 acquirer, 2 releases", TRY, 1, 2, 1, 1},
    {"2 tries, 1 release", TRY, 2, 1, 0, 2},
    {"2 tries, 1 acquirer, 2 releases", TRY, 2, 2, 1, 3},
    {"1 try is interrupted, 1 release", TRY, 1, 1, 0, -1},
    {"an acquirer is interrupted", INTR, 1, 1, 1, 1},
    {"an acquirer of 2 is interrupted", INTR, 1, 2, 2, 2},
    {"2 acquirers are interrupted", INTR, 2, 1, 1, 2},
    {"handle histories, one name", HIST, 0, 0, 1, 1},
    {"handle histories, two names", HIST, 0, 0, 2, 1},
};
int xs_nscenarios(void) { return sizeof sc / sizeof *sc; }
const char *xs_scenario_name(int i) { return sc[i].name; }
int xs_bound(int i, int deep)
{
    if (sc[i].kind == HIST) return 0;
    bool big = i == 2 || i == 10;
    if (i == 17) return deep ? 3 : 1;
    return deep ? (big ? 4 : 8) : big ? 2 : 4;
}
namespace
{
const char *NAME = "/xs_c18";
int released_begun, released, acquired, wanted, interrupts;
int env(int call, int, size_t, long *ret, int *err, size_t *, const void *)
{
    if (call != XC_SEM_WAIT || !xs_choose(2, 1)) return 0;
    ++interrupts;
    *ret = -1;
    *err = EINTR;
    return 1;
}
void got(int n)
{
    acquired += n;
    XS_CHECK(acquired <= released_begun, "%d units acquired of %d released", acquired, released_begun);
}
void take(semaphore &s, int n)
{
    try { s.acquire(n); }
    catch (const std::exception &e) { xs_fail("acquire failed: %s", e.what()); }
    got(n);
}
void give(semaphore &s, int n) { released_begun += n; s.release(n); released += n; }
int remaining(semaphore &s) { int n = 0; while (n < 100 && s.try_acquire()) ++n; return n; }

void openers(int s)
{
    int n = sc[s].a;
    std::vector<std::unique_ptr<semaphore>> h(n);
    std::vector<std::thread> t;
    for (int i = 0; i < n; ++i)
        t.emplace_back([&, i]
        {
            xs_vproc(i);
            try { h[i] = std::make_unique<semaphore>(NAME); }
            catch (const std::exception &e) { xs_fail("opening failed in process %d: %s", i, e.what()); }
        });
    if (sc[s].kind == UNLINK) t.emplace_back([] { xs_vproc(7); sem_unlink(NAME); });
    for (auto &x : t) x.join();
    int creators = 0;
    for (auto &x : h) creators += x->creator();
    for (auto &x : h) XS_CHECK(!x->try_acquire(), "a fresh semaphore does not start at zero");
    if (sc[s].kind == OPEN)
    {
        XS_CHECK(creators == 1, "%d creators among %d openers", creators, n);
        for (int i = 0; i < n; ++i) { h[i]->release(); XS_CHECK(h[(i + 1) % n]->try_acquire(), "handles %d and %d do not share a counter", i, (i + 1) % n); }
        for (auto &x : h) XS_CHECK(!x->try_acquire(), "one unit was acquired twice");
        XS_CHECK(xs_sem_linked(NAME), "the name is gone");
        h[0]->unlink();
        XS_CHECK(!xs_sem_linked(NAME), "unlink left the name");
        h[0]->release();
        XS_CHECK(h[n - 1]->try_acquire(), "handles are unusable after unlinking the name");
    }
    else
    {
        h[0]->release();
        bool same = h[1]->try_acquire();
        XS_CHECK(creators == (same ? 1 : 2), "%d creators for %s", creators, same ? "one semaphore" : "two semaphores");
    }
    XS_CHECK(xs_sem_refs(NAME) == n, "%d open handles for %d objects", xs_sem_refs(NAME), n);
    h.clear();
    XS_CHECK(xs_sem_refs(NAME) == 0, "%d handles left open", xs_sem_refs(NAME));
    sem_unlink(NAME);
}
void counting(int s)
{
    int ac = sc[s].a, each = sc[s].b, rel = sc[s].c, procs = sc[s].procs;
    semaphore m(NAME);
    wanted = ac * each;
    if (sc[s].kind == INTR) xs_env(env);
    std::vector<std::thread> t;
    for (int i = 0; i < ac; ++i) t.emplace_back([&, i] { xs_vproc(i % procs); take(m, each); });
    for (int i = 0; i < rel; ++i) t.emplace_back([&, i] { xs_vproc((ac + i) % procs); give(m, wanted / rel); });
    for (auto &x : t) x.join();
    XS_CHECK(acquired == wanted && released == wanted, "%d of %d acquired, %d released", acquired, wanted, released);
    xs_env(nullptr);
    XS_CHECK(remaining(m) == 0, "units are left over");
    m.unlink();
}
void starving(int s)
{
    int ac = sc[s].a, each = sc[s].b, units = sc[s].c;
    semaphore m(NAME);
    for (int i = 0; i < ac; ++i) std::thread([&m, i, each, s] { xs_daemon(); xs_vproc(i % sc[s].procs); take(m, each); }).detach();
    give(m, units);
    xs_settle();
    int through = units / each;
    XS_CHECK(acquired == through * each, "%d acquires through with %d units", acquired / each, units);
    // the missing units let the rest through
    give(m, ac * each - units);
    xs_settle();
    XS_CHECK(acquired == ac * each, "%d of %d acquired after enough releases", acquired, ac * each);
    XS_CHECK(remaining(m) == 0, "units are left over");
    m.unlink();
}
void tries(int s)
{
    int n = sc[s].a, rel = sc[s].b, ac = sc[s].c, ok = 0;
    xs_norace(&ok, sizeof ok);
    semaphore m(NAME);
    std::vector<std::thread> t;
    for (int i = 0; i < n; ++i)
        t.emplace_back([&, i]
        {
            xs_vproc(sc[s].procs < 0 ? 1 : i % sc[s].procs);
            if (sc[s].procs < 0) xs_env(env);
            int before = released, others = ac + n - 1;      // the others cannot take more than that
            bool r = m.try_acquire();
            if (r) { ++ok; got(1); }
            else XS_CHECK(before <= others, "try_acquire failed although at least %d units were available", before - others);
        });
    for (int i = 0; i < ac; ++i) t.emplace_back([&, i] { xs_vproc(5 + i); take(m, 1); });
    for (int i = 0; i < rel; ++i) t.emplace_back([&, i] { xs_vproc(8 + i); give(m, 1); });
    // enough for the blocking ones in any case
    if (ac) t.emplace_back([&] { xs_vproc(12); give(m, n); });
    for (auto &x : t) x.join();
    xs_env(nullptr);
    int total = rel + (ac ? n : 0);
    int left = remaining(m);
    XS_CHECK(acquired + left == total, "%d units acquired and %d left of %d", acquired, left, total);
    // exactly if one is available
    XS_CHECK(!m.try_acquire(), "try succeeded at zero");
    m.release(2);
    XS_CHECK(m.try_acquire() && m.try_acquire() && !m.try_acquire(), "try_acquire did not take exactly the available units");
    m.release(3);
    m.acquire(2);
    XS_CHECK(remaining(m) == 1, "acquire(2) of 3 units does not leave 1");
    m.unlink();
}
// Every history of operations over two handles against reference counters.
void histories(int s)
{
    int names = sc[s].c, depth = xs_deep() ? 7 : 5;
    static const char *nm[2] = {"/xs_c18_a", "/xs_c18_b"};
    std::vector<int> count;                                  // per generation
    struct ref { int g, name; bool creator, exists; } r[2] = {{-1, -1, false, false}, {-1, -1, false, false}};
    std::unique_ptr<semaphore> h[2];
    int cur[2] = {-1, -1};
    int nops = 2 * names + 12;
    for (int step = 0; step < depth; ++step)
    {
        int op = xs_choose(nops, 0);
        if (op < 2 * names)
        {
            int i = op % 2, n = op / 2;
            if (r[i].exists) xs_discard();
            h[i] = std::make_unique<semaphore>(nm[n]);
            r[i] = {cur[n], n, cur[n] < 0, true};
            if (cur[n] < 0) { cur[n] = r[i].g = (int)count.size(); count.push_back(0); }
        }
        else
        {
            op -= 2 * names;
            int i = op % 2, j = 1 - i, g = r[i].g;
            if (!r[i].exists) xs_discard();
            if (g < 0 && op / 2 >= 3) xs_discard();
            switch (op / 2)
            {
            case 0: h[i].reset(); r[i] = {-1, -1, false, false}; break;
            case 1:
                if (r[j].exists) *h[j] = std::move(*h[i]);
                else h[j] = std::make_unique<semaphore>(std::move(*h[i]));
                r[j] = r[i]; r[i] = {-1, -1, false, true};
                break;
            case 2: { semaphore &x = *h[i]; x = std::move(*h[i]); break; }
            case 3: { int n = 1 + step % 2; h[i]->release(n); count[g] += n; break; }
            case 4:
                if (count[g] > 1 && step % 2) { h[i]->acquire(2); count[g] -= 2; break; }
                { bool b = h[i]->try_acquire(); XS_CHECK(b == (count[g] > 0), "try_acquire returned %d at count %d", b, count[g]); count[g] -= b; }
                break;
            case 5:
            {
                bool threw = false, expect = cur[r[i].name] < 0;
                try { h[i]->unlink(); } catch (const std::system_error &) { threw = true; }
                XS_CHECK(threw == expect, "unlink %s", threw ? "failed" : "of a removed name raised no error");
                cur[r[i].name] = -1;
                break;
            }
            }
        }
        int live[2] = {0, 0};
        for (int i = 0; i < 2; ++i)
        {
            if (!r[i].exists) continue;
            XS_CHECK(h[i]->creator() == r[i].creator, "handle %d has the wrong creator flag", i);
            if (r[i].g >= 0) live[r[i].name]++;
        }
        for (int n = 0; n < names; ++n)
        {
            XS_CHECK(xs_sem_refs(nm[n]) == live[n], "%d open handles of a name for %d objects that own one", xs_sem_refs(nm[n]), live[n]);
            XS_CHECK(xs_sem_linked(nm[n]) == (cur[n] >= 0), "the name %s wrongly", cur[n] >= 0 ? "is gone" : "is left");
        }
    }
    for (int i = 0; i < 2; ++i)
        if (r[i].exists && r[i].g >= 0)
        {
            int left = remaining(*h[i]);
            XS_CHECK(left == count[r[i].g], "%d units instead of %d", left, count[r[i].g]);
            h[i]->release(left);
        }
    h[0].reset(); h[1].reset();
    for (int n = 0; n < names; ++n) { XS_CHECK(xs_sem_refs(nm[n]) == 0, "%d handles left open", xs_sem_refs(nm[n])); sem_unlink(nm[n]); }
}
}
void xs_scenario(int s)
{
    for (int *p : {&released_begun, &released, &acquired, &wanted, &interrupts}) xs_norace(p, sizeof *p);
    switch (sc[s].kind)
    {
    case OPEN: case UNLINK: openers(s); break;
    case COUNT: case INTR: counting(s); break;
    case MULTI: starving(s); break;
    case TRY: tries(s); break;
    case HIST: histories(s); break;
    }
}
