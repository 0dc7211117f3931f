// C17: shared memory opened by several processes under all interleavings, with every failing call, and handle histories.
#include "xs.h"
#include "cppev/ipc.h"
#include <errno.h>
#include <fcntl.h>
#include <memory>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <system_error>
#include <thread>
#include <unistd.h>
#include <vector>
using cppev::shared_memory;

enum { OPEN, SIZES, UNLINK, FAIL, HIST, REOPEN };
static const struct { const char *name; int kind, openers, size, size2, arg; } sc[] = {
    {"1 opener, 1 byte", OPEN, 1, 1, 1, 0},
    {"1 opener, 12 bytes", OPEN, 1, 12, 12, 0},
    {"1 opener, 4096 bytes", OPEN, 1, 4096, 4096, 0},
    {"1 opener, 5000 bytes", OPEN, 1, 5000, 5000, 0},
    {"2 openers, 1 byte", OPEN, 2, 1, 1, 0},
    {"2 openers, 12 bytes", OPEN, 2, 12, 12, 0},
    {"2 openers, 5000 bytes", OPEN, 2, 5000, 5000, 0},
    {"3 openers, 12 bytes", OPEN, 3, 12, 12, 0},
    {"3 openers, 4097 bytes", OPEN, 3, 4097, 4097, 0},
    {"2 openers, 12 and 5000 bytes", OPEN, 2, 12, 5000, 0},
    {"3 openers, 8192, 12 and 8192 bytes", OPEN, 3, 8192, 12, 0},
    {"2 openers, the name is removed meanwhile", UNLINK, 2, 12, 12, 0},
    {"existing memory is opened larger", REOPEN, 1, 12, 9000, 0},
    {"existing memory is opened smaller", REOPEN, 1, 9000, 12, 0},
    {"existing memory is opened again", REOPEN, 1, 4096, 4096, 0},
    {"a system call of the first opener fails", FAIL, 1, 4096, 4096, 0},
    {"a system call of a later opener fails", FAIL, 1, 4096, 4096, 1},
    {"a system call of 1 of 2 openers fails", FAIL, 2, 12, 12, 0},
    {"the allocation of the memory is interrupted", FAIL, 1, 5000, 5000, 2},
    {"handle histories, one name", HIST, 1, 12, 12, 1},
    {"handle histories, two names", HIST, 1, 12, 5000, 2},
};
int xs_nscenarios(void) { return sizeof sc / sizeof *sc; }
const char *xs_scenario_name(int i) { return sc[i].name; }
int xs_bound(int i, int deep)
{
    if (sc[i].kind == HIST) return 0;
    return deep ? (sc[i].openers < 3 ? 8 : 4) : sc[i].openers < 3 ? 4 : 2;
}
namespace
{
const char *NAME = "/xs_c17";
int calls, fail_at, fail_errno, failures;
int nfds() { int n = 0; for (int i = 0; i < 256; ++i) n += syscall(SYS_fcntl, i, F_GETFD) >= 0; return n; }
bool interrupt;
int env(int call, int, size_t len, long *ret, int *err, size_t *, const void *data)
{
    if (interrupt)
    {
        if (call != XC_FTRUNCATE || !data || !xs_choose(2, 1)) return 0;
        *ret = -1;
        *err = EINTR;
        return 1;
    }
    if (call != XC_SHM_OPEN && call != XC_FTRUNCATE && call != XC_MMAP) return 0;
    if (fail_at < 0 || calls++ != fail_at) return 0;
    (void)len;
    *ret = -1;
    *err = call == XC_SHM_OPEN ? EMFILE : call == XC_FTRUNCATE ? ENOSPC : ENOMEM;
    fail_errno = *err;
    ++failures;
    return 1;
}
std::vector<std::unique_ptr<shared_memory>> mem;
std::vector<unsigned char *> base;
unsigned char used(int p, int n) { return (unsigned char)(0x40 + p * 16 + n); }
// the bytes process p of a region of `size` writes: with one byte only process 0
std::vector<int> mine(int p, int size, int all)
{
    std::vector<int> v;
    if (size == 1) { if (p == 0) v.push_back(0); return v; }
    v.push_back(p);
    if (size >= 2 * all) v.push_back(size - 1 - p);
    if (size > 4096 && all <= 3) v.push_back(4096 / 2 + p);
    return v;
}
bool own(const std::vector<int> &v, int off) { for (int x : v) if (x == off) return true; return false; }

void check_own(int p, int size, int all)
{
    for (int o : mine(p, size, all))
        XS_CHECK(base[p][o] == used(p, 0), "byte %d stored by process %d of %d after its constructor returned is %d now", o, p, all, base[p][o]);
}
void opener(int p, int size, int minsize, int all, bool unlinked)
{
    xs_vproc(p);
    try { mem[p] = std::make_unique<shared_memory>(NAME, size); }
    catch (const std::exception &e)
    {
        if (failures && fail_errno) return;
        xs_fail("opening failed in process %d: %s", p, e.what());
    }
    XS_CHECK(mem[p]->size() == size, "size() is %d, requested %d", mem[p]->size(), size);
    unsigned char *q = base[p] = (unsigned char *)mem[p]->ptr();
    XS_CHECK(q, "no memory");
    xs_norace(q, size);
    std::vector<std::vector<int>> taken;
    for (int k = 0; k < all; ++k)
    {
        taken.push_back(mine(k, size, all));
        if (minsize != size) { auto v = mine(k, minsize, all); taken[k].insert(taken[k].end(), v.begin(), v.end()); }
    }
    xs_point(q);
    int step = all > 2 ? 97 : 1;
    for (int o = 0; o < size; o += o + step < size || o == size - 1 ? step : size - 1 - o)
    {
        bool others = false;
        for (int k = 0; k < all; ++k) if (k != p && own(taken[k], o)) others = true;
        if (!others) XS_CHECK(q[o] == 0, "byte %d of fresh memory is %d in process %d", o, q[o], p);
    }
    for (int o : mine(p, size, all)) q[o] = used(p, 0);
    xs_point(q);
    check_own(p, size, all);
    (void)unlinked;
}
void all_see_all(const std::vector<int> &sizes)
{
    int all = (int)sizes.size();
    for (int p = 0; p < all; ++p)
        for (int k = 0; k < all; ++k)
            for (int o : mine(k, sizes[k], all))
                if (o < sizes[p])
                    XS_CHECK(base[p][o] == used(k, 0), "process %d sees %d at byte %d where process %d stored %d", p, base[p][o], o, k, used(k, 0));
}

void finish(int fds, int maps)
{
    mem.clear();
    XS_CHECK(nfds() == fds, "%d descriptors left open", nfds() - fds);
    XS_CHECK(xs_nmaps() == maps, "%d mappings left", xs_nmaps() - maps);
}

void race(int s)
{
    int all = sc[s].openers;
    std::vector<int> sizes;
    for (int p = 0; p < all; ++p) sizes.push_back(p % 2 ? sc[s].size2 : sc[s].size);
    int minsize = std::min(sc[s].size, sc[s].size2);
    mem.resize(all); base.resize(all);
    int fds = nfds(), maps = xs_nmaps();
    std::vector<std::thread> t;
    for (int p = 0; p < all; ++p) t.emplace_back([=] { opener(p, sizes[p], minsize, all, sc[s].kind == UNLINK); });
    if (sc[s].kind == UNLINK) t.emplace_back([] { xs_vproc(7); shm_unlink(NAME); });
    for (auto &x : t) x.join();
    if (sc[s].kind != UNLINK)
    {
        int creators = 0;
        for (auto &m : mem) creators += m->creator();
        XS_CHECK(creators == 1, "%d creators among %d concurrent openers", creators, all);
        all_see_all(sizes);
        XS_CHECK(xs_shm_linked(NAME), "the name is gone");
        mem[0]->unlink();
        XS_CHECK(!xs_shm_linked(NAME), "unlink left the name");
        all_see_all(sizes);       // removes the name only
    }
    else
    {
        // each generation of the name has exactly one creator and holds what its openers stored
        bool same = base[0][1] == used(1, 0);
        XS_CHECK(same == (base[1][0] == used(0, 0)), "the processes disagree on sharing");
        int creators = mem[0]->creator() + mem[1]->creator();
        XS_CHECK(creators == (same ? 1 : 2), "%d creators for %s memory", creators, same ? "one" : "two");
        check_own(0, sizes[0], all);
        check_own(1, sizes[1], all);
    }
    finish(fds, maps);
    shm_unlink(NAME);
}
void reopen(int s)
{
    int fds = nfds(), maps = xs_nmaps();
    int a = sc[s].size, b = sc[s].size2;
    shared_memory first(NAME, a);
    XS_CHECK(first.creator(), "the first opener is not creator");
    unsigned char *p = (unsigned char *)first.ptr();
    for (int i = 0; i < a; ++i) p[i] = (unsigned char)(i % 251 + 1);
    {
        shared_memory second(NAME, b);
        XS_CHECK(!second.creator(), "a later opener is creator");
        unsigned char *q = (unsigned char *)second.ptr();
        for (int i = 0; i < b; ++i)
            XS_CHECK(q[i] == (i < a ? (unsigned char)(i % 251 + 1) : 0), "byte %d of %d is %d for a second opener of %d bytes", i, a, q[i], b);
        memset(q, 7, b);
        for (int i = 0; i < a; ++i) XS_CHECK(p[i] == (i < b ? 7 : (unsigned char)(i % 251 + 1)), "byte %d is %d for the first opener", i, p[i]);
    }
    for (int i = 0; i < a; ++i) XS_CHECK(p[i] == (i < b ? 7 : (unsigned char)(i % 251 + 1)), "byte %d is %d after the second opener left", i, p[i]);
    {
        struct obj { int x; long y; obj(int a, long b) : x(a), y(b) {} };
        if (a >= (int)sizeof(obj))
        {
            obj *o = first.construct<obj>(5, 6l);
            XS_CHECK((void *)o == first.ptr() && o->x == 5 && o->y == 6, "construct");
        }
    }
    first.unlink();
    bool refused = false;
    try { first.unlink(); } catch (const std::system_error &e) { refused = e.code().value() == ENOENT; }
    XS_CHECK(refused, "unlinking a removed name raised no error");
    p[0] = 9;
    {
        shared_memory third(NAME, b);
        XS_CHECK(third.creator(), "no creator after the name was removed");
        unsigned char *q = (unsigned char *)third.ptr();
        for (int i = 0; i < b; ++i) XS_CHECK(q[i] == 0, "fresh memory is not zero at %d", i);
        third.unlink();
    }
    XS_CHECK(p[0] == 9, "lost a store");
    { shared_memory gone(std::move(first)); }
    finish(fds, maps);
}
void failing(int s)
{
    int fds = nfds(), maps = xs_nmaps();
    int n = sc[s].size;
    std::unique_ptr<shared_memory> before;
    if (sc[s].arg)
    {
        before = std::make_unique<shared_memory>(NAME, n);
        memset(before->ptr(), 5, n);
    }
    int fds1 = nfds(), maps1 = xs_nmaps();
    fail_at = xs_choose(12, 0);
    calls = failures = 0;
    xs_env(env);
    if (sc[s].openers == 2)
    {
        mem.resize(2); base.resize(2);
        std::thread a([=] { opener(0, n, n, 2, true); }), b([=] { opener(1, n, n, 2, true); });
        a.join(); b.join();
        if (!failures) xs_discard();
        int bad = !mem[0] + !mem[1];
        XS_CHECK(bad <= 1, "one failing call failed both openers");
        for (int p = 0; p < 2; ++p) if (mem[p]) check_own(p, n, 2);
    }
    else
    {
        bool threw = false;
        try
        {
            shared_memory m(NAME, n);
            unsigned char *q = (unsigned char *)m.ptr();
            for (int i = 0; i < n; ++i) XS_CHECK(q[i] == (sc[s].arg ? 5 : 0), "byte %d is %d", i, q[i]);
            q[n - 1] = 1;
        }
        catch (const std::system_error &e)
        {
            threw = true;
            XS_CHECK(failures, "opening failed without cause: %s", e.what());
            XS_CHECK(e.code().value() == fail_errno, "error %d reported as %d", fail_errno, e.code().value());
        }
        if (!failures) { XS_CHECK(!threw, "failed"); }
        XS_CHECK(nfds() == fds1, "%d descriptors left open after a%s opening", nfds() - fds1, threw ? " failed" : "n");
        XS_CHECK(xs_nmaps() == maps1, "%d mappings left", xs_nmaps() - maps1);
        fail_at = -1;
        // the name stays usable
        shared_memory again(NAME, n);
        unsigned char *q = (unsigned char *)again.ptr();
        for (int i = 0; i < n; ++i)
            XS_CHECK(q[i] == (sc[s].arg ? 5 : 0) || (i == n - 1 && !threw && q[i] == 1), "byte %d is %d after a failed opening", i, q[i]);
        q[0] = 3;
    }
    fail_at = -1;
    before.reset();
    finish(fds, maps);
    shm_unlink(NAME);
}
// Every history of 5 (deep 7) operations over two handles against a reference.
void histories(int s)
{
    int names = sc[s].arg, depth = xs_deep() ? 7 : 5;
    int fds = nfds(), maps0 = xs_nmaps();
    static const char *nm[2] = {"/xs_c17_a", "/xs_c17_b"};
    int size[2] = {sc[s].size, sc[s].size2};
    struct gen { int linked; unsigned char v; int live; };
    std::vector<gen> gens;
    struct ref { int g, name; bool creator, exists; } r[2] = {{-1, -1, false, false}, {-1, -1, false, false}};
    std::unique_ptr<shared_memory> h[2];
    int cur[2] = {-1, -1};       // linked generation of each name
    unsigned char next = 1;
    auto check = [&]
    {
        int live = 0;
        for (int i = 0; i < 2; ++i)
        {
            if (!r[i].exists) continue;
            if (r[i].g < 0)
            {
                XS_CHECK(h[i]->ptr() == nullptr && h[i]->size() == 0 && !h[i]->creator(), "a moved-from handle still refers to memory");
                continue;
            }
            ++live;
            XS_CHECK(h[i]->ptr() && h[i]->size() == size[r[i].name] && h[i]->creator() == r[i].creator, "handle %d has the wrong size or creator flag", i);
            unsigned char *q = (unsigned char *)h[i]->ptr();
            XS_CHECK(*q == gens[r[i].g].v && q[size[r[i].name] - 1] == gens[r[i].g].v, "handle %d sees %d where %d is stored", i, *q, gens[r[i].g].v);
        }
        XS_CHECK(xs_nmaps() - maps0 == live, "%d mappings for %d handles that own one", xs_nmaps() - maps0, live);
        XS_CHECK(nfds() == fds, "%d descriptors leaked", nfds() - fds);
        for (int n = 0; n < names; ++n) XS_CHECK(xs_shm_linked(nm[n]) == (cur[n] >= 0), "the name %s wrongly", cur[n] >= 0 ? "is gone" : "is left");
    };
    for (int step = 0; step < depth; ++step)
    {
        int op = xs_choose(8 + 2 * names, 0);
        if (op < 2 * names)
        {
            int i = op % 2, n = op / 2;
            if (r[i].exists) xs_discard();
            h[i] = std::make_unique<shared_memory>(nm[n], size[n]);
            r[i] = {cur[n], n, cur[n] < 0, true};
            if (cur[n] < 0) { cur[n] = r[i].g = (int)gens.size(); gens.push_back({1, 0, 0}); }
        }
        else
        {
            op -= 2 * names;
            int i = op % 2, j = 1 - i;
            if (!r[i].exists) xs_discard();
            switch (op / 2)
            {
            case 0: // destroy
                h[i].reset(); r[i] = {-1, -1, false, false}; break;
            case 1: // store
                if (r[i].g < 0) xs_discard();
                { unsigned char *q = (unsigned char *)h[i]->ptr(); *q = next; q[size[r[i].name] - 1] = next; gens[r[i].g].v = next; ++next; }
                break;
            case 2: // move to the other: construct or assign; to itself in the last case
                if (r[j].exists) { *h[j] = std::move(*h[i]); }
                else h[j] = std::make_unique<shared_memory>(std::move(*h[i]));
                r[j] = r[i]; r[i] = {-1, -1, false, true};
                break;
            case 3:
                if (step % 2 && r[i].g >= 0) { shared_memory &x = *h[i]; x = std::move(*h[i]); }      // self-move
                else
                {
                    bool threw = false;
                    bool expect = r[i].g >= 0 && cur[r[i].name] < 0;
                    try { h[i]->unlink(); } catch (const std::system_error &) { threw = true; }
                    XS_CHECK(threw == expect, "unlink %s", threw ? "failed" : "of a removed name raised no error");
                    if (r[i].g >= 0) cur[r[i].name] = -1;
                }
                break;
            }
        }
        check();
    }
    h[0].reset(); h[1].reset();
    XS_CHECK(xs_nmaps() == maps0, "%d mappings left", xs_nmaps() - maps0);
    for (int n = 0; n < names; ++n) shm_unlink(nm[n]);
}
}
void xs_scenario(int s)
{
    for (int *p : {&calls, &fail_at, &fail_errno, &failures}) xs_norace(p, sizeof *p);
    fail_at = -1;
    switch (sc[s].kind)
    {
    case REOPEN: reopen(s); break;
    case FAIL:
        if (sc[s].arg == 2)
        {
            int fds = nfds(), maps = xs_nmaps();
            interrupt = true;
            xs_env(env);
            {
                shared_memory a(NAME, sc[s].size), b(NAME, sc[s].size);
                XS_CHECK(a.creator() && !b.creator(), "not one creator");
                ((char *)a.ptr())[sc[s].size - 1] = 4;
                XS_CHECK(((char *)b.ptr())[sc[s].size - 1] == 4, "the memory is not shared");
                a.unlink();
            }
            interrupt = false;
            XS_CHECK(nfds() == fds && xs_nmaps() == maps, "%d descriptors and %d mappings left", nfds() - fds, xs_nmaps() - maps);
            break;
        }
        failing(s);
        break;
    case HIST: histories(s); break;
    default: race(s);
    }
}
