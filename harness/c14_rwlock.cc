// C14: read-write lock and guards under all interleavings, in one or several processes.
#include "xs.h"
#include "cppev/lock.h"
#include <thread>
#include <vector>
using namespace cppev;

static const char *names[] = {
    "2 writers, 2 rounds", "2 writers in 2 processes", "1 reader, 1 writer, 2 rounds", "2 readers, 1 writer", "2 readers, 1 writer in 3 processes", "1 reader, 2 writers",
    "2 readers at the same time", "2 readers in 2 processes at the same time", "guards: 1 reader, 1 writer, unlocked and locked again", "guards: moved out of the function that locked",
    "guards: overwritten by a move while a writer waits", "try operations against a writer", "try operations against a reader", "2 writers of 2 processes try twice",
    "guards: exchanged between threads' locks",
};
int xs_nscenarios(void) { return sizeof names / sizeof *names; }
const char *xs_scenario_name(int i) { return names[i]; }
int xs_bound(int i, int deep)
{
    if (i == 3 || i == 4 || i == 5) return deep ? 5 : 3;
    return deep ? 7 : 4;
}
namespace
{
int readers, writers, data, done;
int gate[2];
int both(void *) { return gate[0] && gate[1]; }
void reading()
{
    ++readers;
    XS_CHECK(writers == 0, "a reader is inside together with a writer");
    volatile int x = data;      // race checked
    (void)x;
    xs_point(&readers);
    XS_CHECK(writers == 0, "a reader is inside together with a writer");
    --readers;
}
void writing()
{
    XS_CHECK(writers == 0 && readers == 0, "a writer is inside together with %d reader(s) and %d writer(s)", readers, writers);
    ++writers;
    ++data;
    xs_point(&readers);
    XS_CHECK(writers == 1 && readers == 0, "a writer is inside together with others");
    --writers;
}
void free_now(pshared_rwlock &l, const char *what)
{
    XS_CHECK(l.try_wrlock(), "%s is not free at the end", what);
    XS_CHECK(!l.try_rdlock(), "%s was read-locked although it is write-locked", what);
    XS_CHECK(!l.try_wrlock(), "%s was write-locked twice", what);
    l.unlock();
    XS_CHECK(l.try_rdlock(), "%s is not free after an unlock", what);
    XS_CHECK(l.try_rdlock(), "%s has no room for a second reader", what);
    XS_CHECK(!l.try_wrlock(), "%s was write-locked although it is read-locked", what);
    l.unlock();
    XS_CHECK(!l.try_wrlock(), "%s was write-locked although it is read-locked", what);
    l.unlock();
}
rdlockguard make_rd(pshared_rwlock &l) { rdlockguard g(l); rdlockguard h(std::move(g)); return h; }
wrlockguard make_wr(pshared_rwlock &l) { wrlockguard g(l); wrlockguard h(std::move(g)); return h; }
}
void xs_scenario(int s)
{
    xs_norace(&readers, sizeof readers);
    xs_norace(&writers, sizeof writers);
    xs_norace(&done, sizeof done);
    xs_norace(gate, sizeof gate);
    pshared_rwlock l, l2;
    std::vector<std::thread> t;
    auto R = [&](int rounds, int vp) { t.emplace_back([&, rounds, vp] { xs_vproc(vp); for (int i = 0; i < rounds; ++i) { l.rdlock(); reading(); l.unlock(); } }); };
    auto W = [&](int rounds, int vp) { t.emplace_back([&, rounds, vp] { xs_vproc(vp); for (int i = 0; i < rounds; ++i) { l.wrlock(); writing(); l.unlock(); } }); };
    int want = -1;
    switch (s)
    {
    case 0: W(2, 0); W(2, 0); want = 4; break;
    case 1: W(2, 1); W(2, 2); want = 4; break;
    case 2: R(2, 0); W(2, 0); want = 2; break;
    case 3: R(1, 0); R(1, 0); W(1, 0); want = 1; break;
    case 4: R(1, 1); R(1, 2); W(1, 3); want = 1; break;
    case 5: R(1, 0); W(1, 0); W(1, 0); want = 2; break;
    case 6: case 7:
        for (int i = 0; i < 2; ++i)
            t.emplace_back([&, i]
            {
                xs_vproc(s == 7 ? i : 0);
                rdlockguard g(l);
                gate[i] = 1;
                xs_wait_until(both, nullptr, "reader waits for the other reader to be inside, too");
                reading();
            });
        break;
    case 8:
        t.emplace_back([&]
        {
            rdlockguard g(l);
            reading();
            g.unlock();
            g.lock();
            reading();
            g.unlock();
        });
        t.emplace_back([&]
        {
            wrlockguard g(l);
            writing();
            g.unlock();
            g.lock();
            writing();
            g.unlock();
        });
        want = 2;
        break;
    case 9:
        t.emplace_back([&] { auto g = make_rd(l); reading(); });
        t.emplace_back([&] { auto g = make_wr(l); writing(); });
        want = 1;
        break;
    case 10:
        t.emplace_back([&]
        {
            wrlockguard g(l);
            writing();
            wrlockguard h(l2);
            g = std::move(h);           // gives up l, keeps l2
            XS_CHECK(!l2.try_rdlock(), "the lock taken over by a move is not held");
            t[0].native_handle();
            done = 1;
        });
        t.emplace_back([&] { wrlockguard g(l); writing(); });
        want = 2;
        break;
    case 11: case 12:
    {
        xs_unlock_points(1);
        int holding = 0;
        xs_norace(&holding, sizeof holding);
        t.emplace_back([&]
        {
            holding = 1;
            if (s == 11) { l.wrlock(); writing(); l.unlock(); }
            else { l.rdlock(); reading(); l.unlock(); }
            holding = 0;
        });
        t.emplace_back([&]
        {
            bool busy = holding;
            bool got = l.try_rdlock();
            if (s == 12) XS_CHECK(got, "try_rdlock failed although no writer exists");
            else if (!got) XS_CHECK(busy || holding, "try_rdlock failed although no writer exists");
            if (got) { reading(); l.unlock(); }
            busy = holding;
            got = l.try_wrlock();
            if (!got) XS_CHECK(busy || holding, "try_wrlock failed although the lock is free");
            if (got) { writing(); l.unlock(); }
            xs_obs("%d", got);
        });
        for (auto &x : t) x.join();
        t.clear();
        break;
    }
    case 13:
        xs_unlock_points(1);
        for (int i = 0; i < 2; ++i)
            t.emplace_back([&, i]
            {
                xs_vproc(i);
                for (int k = 0; k < 2; ++k) if (l.try_wrlock()) { writing(); l.unlock(); ++done; }
            });
        for (auto &x : t) x.join();
        t.clear();
        XS_CHECK(data == done && done >= 2, "%d writes, %d successful tries", data, done);
        break;
    case 14:
        for (int i = 0; i < 2; ++i)
            t.emplace_back([&, i]
            {
                {
                    rdlockguard a(l);
                    rdlockguard b(std::move(a));
                    rdlockguard c(l2);
                    b = std::move(c);
                    XS_CHECK(!l2.try_wrlock(), "the lock taken over by a move is not held");
                }
                wrlockguard w(l);
                writing();
            });
        want = 2;
        break;
    }
    for (auto &x : t) x.join();
    if (want >= 0) XS_CHECK(data == want, "%d of %d writes counted", data, want);
    free_now(l, "the lock");
    free_now(l2, "the other lock");
}
