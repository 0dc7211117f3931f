// C10: task queue pool under all interleavings.
#include "xs.h"
#include "cppev/thread_pool.h"
#include <memory>
#include <thread>
#include <vector>
using cppev::thread_pool_task_queue;
using cppev::thread_pool_task_handler;

static const char *names[] = {
    "1 worker, 3 tasks added singly (copy, move, batch), stop",
    "2 workers, 1 task and a batch of 2, stop",
    "1 worker, 2 producers with 2 tasks each, stop after both",
    "2 workers, 2 producers, stop after both",
    "2 workers, tasks added before the workers start",
    "1 worker, tasks that add tasks",
    "2 workers, stop without tasks",
    "2 workers, 2 tasks that need each other at the same time (single adds)",
    "2 workers, 2 tasks that need each other at the same time (batch)",
    "2 workers, stop races with another producer",
    "3 workers, 3 tasks that need each other (batch)",
    "1 worker, batch of 3 while running, tasks keep order, results visible after stop",
    "1 worker, a task whose captured object adds a task when destroyed",
    "2 workers, empty batch then a task, idle in between",
    "2 workers, a task added by a task while the other worker sleeps, both needed",
    "2 idle workers, tasks added in every way, needing each other or not, no stop",
    "3 idle workers, batch of 3 that need each other, no stop",
};
int xs_nscenarios() { return sizeof names / sizeof *names; }
const char *xs_scenario_name(int i) { return names[i]; }
int xs_bound(int i, int deep)
{
    if (i == 10 || i == 16) return deep ? 2 : 1;
    return deep ? 4 : 2;
}

namespace
{
int order[64], norder;        // execution log: one thread runs at a time
int runs[64];
int result[64];               // written by the task, read after stop(): must be ordered
int gate[8];
thread_pool_task_queue *P;

void ran(int k)
{
    order[norder++] = k;
    runs[k]++;
    result[k] = 100 + k;
}
thread_pool_task_handler task(int k) { return [k]() { ran(k); }; }
int all_in(void *n) { int c = 0; for (int i = 0; i < 8; ++i) c += gate[i]; return c >= (int)(intptr_t)n; }
thread_pool_task_handler meeting(int k, int n)
{
    return [k, n]()
    {
        gate[k] = 1;
        xs_wait_until(all_in, (void *)(intptr_t)n, "task waits for the other tasks to be running");
        ran(k);
    };
}
void expect(int n)
{
    XS_CHECK(norder == n, "%d of %d tasks were executed when stop() returned", norder, n);
    for (int i = 0; i < n; ++i)
    {
        XS_CHECK(runs[i] == 1, "task %d executed %d times", i, runs[i]);
        XS_CHECK(result[i] == 100 + i, "result of task %d not visible after stop", i);
    }
    XS_CHECK(xs_others_alive() == 0, "stop() returned but %d worker(s) still run", xs_others_alive());
    for (int i = 0; i < norder; ++i) xs_obs("%d ", order[i]);
}
// sometimes: everything added is executed although nobody stops the pool
void idle(int n)
{
    if (!xs_choose(2, 0)) return;
    xs_settle();
    XS_CHECK(norder == n, "%d of %d tasks were executed although the workers are idle", norder, n);
}
void in_order(std::vector<int> ks)
{
    int last = -1;
    for (int k : ks)
    {
        int pos = -1;
        for (int i = 0; i < norder; ++i) if (order[i] == k) pos = i;
        XS_CHECK(pos > last, "task %d was taken up before a task added earlier", k);
        last = pos;
    }
}
struct adder
{
    int k;
    explicit adder(int kk) : k(kk) {}
    ~adder() { P->add_task(task(k)); }
};
}

void xs_scenario(int s)
{
    xs_norace(order, sizeof order);
    xs_norace(&norder, sizeof norder);
    xs_norace(runs, sizeof runs);
    xs_norace(gate, sizeof gate);
    static const int workers[] = {1, 2, 1, 2, 2, 1, 2, 2, 2, 2, 3, 1, 1, 2, 2, 2, 3};
    thread_pool_task_queue pool(workers[s]);
    P = &pool;
    XS_CHECK(pool.size() == workers[s], "pool has %d threads instead of %d", pool.size(), workers[s]);
    switch (s)
    {
    case 0:
    {
        pool.run();
        auto t = task(0);
        pool.add_task(t);
        pool.add_task(task(1));
        pool.add_task(std::vector<thread_pool_task_handler>{task(2)});
        idle(3);
        pool.stop();
        expect(3);
        in_order({0, 1, 2});
        break;
    }
    case 1:
        pool.run();
        pool.add_task(task(0));
        pool.add_task(std::vector<thread_pool_task_handler>{task(1), task(2)});
        idle(3);
        pool.stop();
        expect(3);
        break;
    case 2: case 3:
    {
        pool.run();
        std::thread p([&] { pool.add_task(task(2)); pool.add_task(task(3)); });
        pool.add_task(task(0));
        pool.add_task(task(1));
        p.join();
        pool.stop();
        expect(4);
        if (s == 2) { in_order({0, 1}); in_order({2, 3}); }
        break;
    }
    case 4:
        pool.add_task(task(0));
        pool.add_task(std::vector<thread_pool_task_handler>{task(1), task(2)});
        pool.run();
        idle(3);
        pool.stop();
        expect(3);
        break;
    case 5:
        pool.run();
        pool.add_task([&] { ran(0); pool.add_task(task(2)); });
        pool.add_task([&] { ran(1); });
        pool.stop();
        // task 2 was added before the workers ended: it has run
        expect(3);
        break;
    case 6:
        pool.run();
        pool.stop();
        expect(0);
        break;
    case 7:
        pool.run();
        pool.add_task(meeting(0, 2));
        pool.add_task(meeting(1, 2));
        idle(2);
        pool.stop();
        expect(2);
        break;
    case 8:
        pool.run();
        pool.add_task(std::vector<thread_pool_task_handler>{meeting(0, 2), meeting(1, 2)});
        idle(2);
        pool.stop();
        expect(2);
        break;
    case 9:
    {
        pool.run();
        pool.add_task(task(0));
        std::thread p([&] { pool.add_task(task(1)); });
        pool.stop();
        int n = norder;
        XS_CHECK(runs[0] == 1 && runs[1] <= 1, "task 0 executed %d times, task 1 %d times", runs[0], runs[1]);
        p.join();
        XS_CHECK(norder == n, "a task ran after stop() returned");
        xs_obs("%d", n);
        break;
    }
    case 10:
        pool.run();
        pool.add_task(std::vector<thread_pool_task_handler>{meeting(0, 3), meeting(1, 3), meeting(2, 3)});
        idle(3);
        pool.stop();
        expect(3);
        break;
    case 11:
        pool.run();
        pool.add_task(std::vector<thread_pool_task_handler>{task(0), task(1), task(2)});
        pool.add_task(task(3));
        idle(4);
        pool.stop();
        expect(4);
        in_order({0, 1, 2, 3});
        break;
    case 12:
    {
        pool.run();
        {
            auto a = std::make_shared<adder>(1);
            pool.add_task([a] { ran(0); });
        }
        pool.add_task(task(2));
        pool.stop();
        XS_CHECK(runs[0] == 1 && runs[2] == 1 && runs[1] == 1, "executed %d %d %d times", runs[0], runs[2], runs[1]);
        break;
    }
    case 13:
        pool.run();
        xs_settle();
        pool.add_task(std::vector<thread_pool_task_handler>{});
        xs_settle();
        pool.add_task(task(0));
        xs_settle();
        XS_CHECK(norder == 1, "the task was not executed although both workers are idle");
        pool.stop();
        expect(1);
        break;
    case 14:
        pool.run();
        pool.add_task([&] { pool.add_task(meeting(1, 2)); meeting(0, 2)(); });
        xs_settle();
        XS_CHECK(norder == 2, "%d of 2 tasks executed although nothing else runs", norder);
        pool.stop();
        expect(2);
        break;
    case 15:
    {
        pool.run();
        if (xs_choose(2, 0)) xs_settle();
        int k = 0;
        auto one = task(0);
        switch (xs_choose(6, 0))
        {
        case 0: pool.add_task(one); k = 1; break;
        case 1: pool.add_task(task(0)); k = 1; break;
        case 2: pool.add_task(std::vector<thread_pool_task_handler>{one}); k = 1; break;
        case 3: pool.add_task(std::vector<thread_pool_task_handler>{one}); pool.add_task(std::vector<thread_pool_task_handler>{task(1)}); k = 2; break;
        case 4: pool.add_task(std::vector<thread_pool_task_handler>{meeting(0, 2), meeting(1, 2)}); k = 2; break;
        case 5: pool.add_task(meeting(0, 2)); pool.add_task(std::vector<thread_pool_task_handler>{meeting(1, 2)}); k = 2; break;
        }
        xs_settle();
        XS_CHECK(norder == k, "%d of %d tasks were executed although the workers are idle", norder, k);
        pool.add_task(task(k));
        xs_settle();
        XS_CHECK(norder == k + 1, "%d of %d tasks were executed although the workers are idle", norder, k + 1);
        pool.stop();
        expect(k + 1);
        break;
    }
    case 16:
        pool.run();
        xs_settle();
        pool.add_task(std::vector<thread_pool_task_handler>{meeting(0, 3), meeting(1, 3), meeting(2, 3)});
        xs_settle();
        XS_CHECK(norder == 3, "%d of 3 tasks were executed although nothing else runs", norder);
        pool.stop();
        expect(3);
        break;
    }
}
