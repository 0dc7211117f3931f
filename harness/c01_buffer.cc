// C01: every operation sequence up to a depth on two buffers against reference strings.
#include "seq.h"
#include "cppev/buffer.h"
#include <memory>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <stdexcept>
using cppev::buffer;

static const int caps[] = {0 /* default constructor */, 1, 2, 5};
int seq_nscenarios() { return 9; }
const char *seq_scenario_name(int i)
{
    static const char *n[] = {"default buffer", "capacity 1", "capacity 2", "capacity 5", "bad capacities", "capacity 1, core operations, deeper", "capacity 5, core operations, deeper",
        "sizes up to 70000 bytes", "capacities beyond one gigabyte"};
    return n[i];
}

namespace
{
struct pair_t
{
    buffer b[2];
    std::string m[2];
    pair_t(buffer &&x, buffer &&y) : b{std::move(x), std::move(y)} {}
};
unsigned counter;
std::string fresh(int n)
{
    // distinct consecutive bytes, NUL and 0xff among them
    static const char alpha[] = {'a', '\0', 'b', '\xff', 'c', 'd', '\0', '\0', 'e', 'f', 'g'};
    std::string s;
    for (int i = 0; i < n; ++i) s += alpha[counter++ % sizeof alpha];
    return s;
}
void check(pair_t &p, const char *op)
{
    for (int i = 0; i < 2; ++i)
    {
        buffer &b = p.b[i];
        const buffer &cb = b;
        const std::string &m = p.m[i];
        SEQ_CHECK(b.size() == (int)m.size(), "after %s: buffer %d has size %d, expected %zu", op, i, b.size(), m.size());
        SEQ_CHECK(b.capacity() >= b.size(), "after %s: capacity %d below size %d", op, b.capacity(), b.size());
        for (int k = 0; k < (int)m.size(); ++k)
        {
            SEQ_CHECK(cb[k] == m[k] && b[k] == m[k] && b.rawbuf()[k] == m[k] && cb.rawbuf()[k] == m[k],
                "after %s: buffer %d byte %d differs (expected %s)", op, i, k, seq::show(m).c_str());
        }
    }
    SEQ_CHECK(p.b[0].size() == 0 || p.b[1].size() == 0 || p.b[0].rawbuf() != p.b[1].rawbuf(), "after %s: two buffers share memory", op);
    uint64_t h = seq::hash(p.m[0], p.b[0].capacity());
    seq::state(seq::hash(p.m[1], h + p.b[1].capacity()));
}
}

// memory for capacities beyond a gigabyte is only reserved: pages that are not touched cost nothing
static const size_t HUGE_SIZE = 256u << 20;
static struct { char *p; size_t n; } huge[8];
void *operator new[](size_t n)
{
    if (n < HUGE_SIZE)
    {
        if (void *p = malloc(n)) return p;
        throw std::bad_alloc();
    }
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw std::bad_alloc();
    for (auto &h : huge) if (!h.p) { h = {(char *)p, n}; return p; }
    abort();
}
void operator delete[](void *p) noexcept
{
    for (auto &h : huge) if (h.p == p && p) { munmap(h.p, h.n); h = {nullptr, 0}; return; }
    free(p);
}
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }
extern "C" void *__real_memset(void *, int, size_t);
extern "C" void *__wrap_memset(void *p, int c, size_t n)
{
    for (auto &h : huge)
        if (h.p && (char *)p >= h.p && (char *)p < h.p + h.n)
        {
            SEQ_CHECK(n <= h.n - ((char *)p - h.p), "memory after the buffer is cleared");
            if (c) break;
            // fresh pages are zero
            char *b = (char *)(((uintptr_t)p + 4095) & ~4095ul), *e = (char *)(((uintptr_t)p + n) & ~4095ul);
            if (b >= e) break;
            madvise(b, e - b, MADV_DONTNEED);
            __real_memset(p, 0, b - (char *)p);
            __real_memset(e, 0, (char *)p + n - e);
            return p;
        }
    return __real_memset(p, c, n);
}
static void large()
{
    static const int sizes[] = {100, 1023, 1024, 4097, 70000};
    counter = 0;
    pair_t p(buffer(seq::choose(2) ? 1000 : 1), buffer(3));
    int depth = seq::bound(4, 5);
    for (int d = 0; d < depth; ++d)
    {
        buffer &x = p.b[0];
        std::string &m = p.m[0];
        char name[80];
        int op = seq::choose(11);
        switch (op)
        {
        case 0: case 1: case 2: case 3: case 4:
        {
            std::string s = fresh(sizes[op]);
            snprintf(name, sizeof name, "produce(%d bytes)", sizes[op]);
            x.produce(s.data(), sizes[op]);
            m += s;
            break;
        }
        case 5: case 6:
        {
            int n = op == 5 ? (int)m.size() / 2 : m.empty() ? 0 : (int)m.size() - 1;
            snprintf(name, sizeof name, "get_string(%d)", n);
            SEQ_CHECK(x.get_string(n) == m.substr(0, n), "%s returned something else", name);
            m.erase(0, n);
            break;
        }
        case 7: snprintf(name, sizeof name, "consume all"); x.consume(); m.clear(); break;
        case 8: snprintf(name, sizeof name, "tiny()"); x.tiny(); break;
        case 9: snprintf(name, sizeof name, "other = *this"); p.b[1] = x; p.m[1] = m; break;
        case 10: snprintf(name, sizeof name, "swap by moves"); { buffer t(std::move(x)); x = std::move(p.b[1]); p.b[1] = std::move(t); } p.m[0].swap(p.m[1]); break;
        }
        seq::log("%s", name);
        for (int i = 0; i < 2; ++i)
        {
            const buffer &b = p.b[i];
            SEQ_CHECK(b.size() == (int)p.m[i].size() && b.capacity() >= b.size(), "after %s: buffer %d has size %d and capacity %d, expected %zu", name, i, b.size(), b.capacity(), p.m[i].size());
            SEQ_CHECK(b.size() == 0 || memcmp(b.rawbuf(), p.m[i].data(), p.m[i].size()) == 0, "after %s: buffer %d has other contents", name, i);
        }
        seq::state(seq::hash(p.m[0], seq::hash(p.m[1])));
    }
    for (int i = 0; i < 2; ++i) SEQ_CHECK(p.b[i].get_string() == p.m[i], "final contents differ");
}
static void gigabytes()
{
    const int G = 1 << 30;
    void *probe = mmap(nullptr, 2 * (size_t)INT_MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (probe == MAP_FAILED) seq::discard();
    munmap(probe, 2 * (size_t)INT_MAX);
    static const int from[] = {1, 5, G / 2, G - 1, G}, to[] = {G - 1, G, G + 1, G + G / 2, INT_MAX - 64, INT_MAX};
    int c = from[seq::choose(5)], n = to[seq::choose(6)], k = seq::choose(3);
    seq::log("buffer(%d), %d bytes, resize(%d)", c, 2 * k, n);
    buffer b(c);
    std::string m = fresh(2 * k);
    b.put_string(m);
    b.consume(k);
    m.erase(0, k);
    b.resize(n);
    SEQ_CHECK(b.capacity() >= n, "resize(%d) left capacity %d", n, b.capacity());
    std::string s = fresh(5);
    b.put_string(s);
    m += s;
    SEQ_CHECK(b.size() == (int)m.size() && b.capacity() >= n, "size %d and capacity %d afterwards", b.size(), b.capacity());
    b[n - 1 - k] = 'x';
    SEQ_CHECK(b.get_string() == m, "contents lost");
}
void seq_run(int scen)
{
    if (scen == 4)
    {
        static const int bad[] = {0, -1, -2, -1000000, -2147483647 - 1};
        int c = bad[seq::choose(5)];
        seq::log("buffer(%d)", c);
        bool refused = false;
        try { buffer b(c); }
        catch (const std::logic_error &) { refused = true; }
        SEQ_CHECK(refused, "capacity %d not refused with a logic error", c);
        return;
    }
    if (scen == 7) { large(); return; }
    if (scen == 8) { gigabytes(); return; }
    // operations whose combinations move the window of live bytes, explored deeper
    static const int core[] = {0, 2, 8, 9, 7, 14, 16, 18, 20, 21, 22};
    bool deep_core = scen > 4;
    if (deep_core) scen = scen == 5 ? 1 : 3;
    counter = 0;
    pair_t p(caps[scen] ? buffer(caps[scen]) : buffer(), buffer(3));
    if (caps[scen])
        SEQ_CHECK(p.b[0].capacity() >= caps[scen], "capacity %d below the requested %d", p.b[0].capacity(), caps[scen]);
    int depth = deep_core ? seq::bound(6, 7) : seq::bound(4, 5);
    for (int d = 0; d < depth; ++d)
    {
        buffer &x = p.b[0];
        std::string &m = p.m[0];
        int op = deep_core ? core[seq::choose(11)] : seq::choose(25);
        char name[80];
        switch (op)
        {
        case 0: case 1: case 2: case 3: case 4:
        {
            static const int len[] = {1, 2, 3, 0, 9};
            std::string s = fresh(len[op]);
            snprintf(name, sizeof name, "put_string(%d bytes)", len[op]);
            x.put_string(s);
            m += s;
            break;
        }
        case 5: case 6:
        {
            int n = op == 5 ? 1 : 4;
            std::string s = fresh(n);
            snprintf(name, sizeof name, "produce(%d bytes)", n);
            std::unique_ptr<char[]> exact(new char[n]);
            s.copy(exact.get(), n);
            x.produce(exact.get(), n);
            m += s;
            break;
        }
        case 7: case 8: case 9: case 10:
        {
            int n = op == 7 ? -1 : op == 8 ? 1 : op == 9 ? 2 : 0;
            if (n > (int)m.size()) n = (int)m.size();
            snprintf(name, sizeof name, "consume(%d)", n);
            x.consume(n);
            m.erase(0, n == -1 ? m.size() : n);
            break;
        }
        case 11: case 12: case 13: case 14: case 24:
        {
            int n = op == 11 || op == 13 ? -1 : op == 24 ? 0 : 1;
            bool rm = op < 13 || op == 24;
            if (n > (int)m.size()) n = (int)m.size();
            snprintf(name, sizeof name, "get_string(%d,%d)", n, rm);
            std::string s = x.get_string(n, rm);
            std::string e = m.substr(0, n == -1 ? m.size() : n);
            SEQ_CHECK(s == e, "%s returned %s, expected %s", name, seq::show(s).c_str(), seq::show(e).c_str());
            if (rm) m.erase(0, e.size());
            break;
        }
        case 15: case 16: case 17:
        {
            int n = op == 15 ? 1 : op == 16 ? 4 : 17;
            snprintf(name, sizeof name, "resize(%d)", n);
            x.resize(n);
            SEQ_CHECK(x.capacity() >= n, "%s left capacity %d", name, x.capacity());
            break;
        }
        case 18: snprintf(name, sizeof name, "tiny()"); x.tiny(); break;
        case 19: snprintf(name, sizeof name, "clear()"); x.clear(); m.clear(); break;
        case 20: snprintf(name, sizeof name, "other = *this (copy)"); p.b[1] = x; p.m[1] = m; break;
        case 21: snprintf(name, sizeof name, "other = move(*this), continue with the moved-from"); p.b[1] = std::move(x); p.m[1] = m; m.clear(); break;
        case 22:
        {
            snprintf(name, sizeof name, "copy-construct, swap by moves");
            buffer t(x);
            buffer u(std::move(p.b[1]));
            p.b[1] = std::move(t);
            p.b[0] = std::move(u);
            p.m[0].swap(p.m[1]);
            break;
        }
        case 23:
            snprintf(name, sizeof name, "self copy-assign and write through operator[]");
            { buffer &alias = x; x = alias; }
            for (int k = 0; k < (int)m.size(); k += 2) { x[k] = (char)('A' + k); m[k] = (char)('A' + k); }
            break;
        }
        seq::log("%s", name);
        check(p, name);
    }
    // both can be used on after everything, moved-from included
    for (int i = 0; i < 2; ++i)
    {
        std::string s = fresh(3);
        p.b[i].put_string(s);
        p.m[i] += s;
        check(p, "final put");
        std::string all = p.b[i].get_string();
        SEQ_CHECK(all == p.m[i], "final get_string returned %s, expected %s", seq::show(all).c_str(), seq::show(p.m[i]).c_str());
        p.m[i].clear();
        check(p, "final get");
    }
}
