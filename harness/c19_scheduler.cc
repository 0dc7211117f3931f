// C19: timed scheduler on a virtual clock: exact firing sequence, slow tasks, late wake-ups, stopping at any moment.
#include "xs.h"
#include "cppev/scheduler.h"
#include <algorithm>
#include <memory>
#include <string.h>
#include <string>
#include <vector>
using namespace cppev;
using ns = std::chrono::nanoseconds;

namespace
{
struct task { double freq; priority p; };
struct spec { const char *name; std::vector<task> tasks; bool align; int64_t run_ns; int clock; bool exact; int slow; int inits, exits; int bound, deep; };
const int64_t S = 1000000000, MS = 1000000;
const std::vector<spec> &specs()
{
    static const std::vector<spec> v = {
        {"1 Hz, aligned", {{1, priority::p0}}, true, 4 * S, 0, true, 0, 1, 1, 4, 7},
        {"1 Hz, not aligned", {{1, priority::p0}}, false, 4 * S - MS, 0, true, 0, 2, 2, 4, 7},
        {"3 tasks of equal period, priorities", {{10, priority::p5}, {10, priority::p0}, {10, priority::p6}}, false, 350 * MS, 0, true, 0, 1, 1, 3, 5},
        {"50, 20 and 40 Hz, aligned", {{50, priority::p6}, {20, priority::p0}, {40, priority::p3}}, true, 1250 * MS, 0, true, 0, 1, 1, 2, 3},
        {"0.5, 1 and 2 Hz", {{0.5, priority::p1}, {1, priority::p2}, {2, priority::p3}}, false, 5 * S, 0, true, 0, 0, 0, 2, 4},
        {"0.3 Hz", {{0.3, priority::p1}}, false, 11 * S, 0, true, 0, 0, 0, 3, 5},
        {"3 Hz", {{3, priority::p1}}, true, 5 * S, 0, true, 0, 0, 0, 2, 4},
        {"3 and 7 Hz", {{3, priority::p1}, {7, priority::p0}}, false, 2 * S, 0, true, 0, 0, 0, 2, 3},
        {"0.7 and 1.1 Hz", {{0.7, priority::p1}, {1.1, priority::p0}}, true, 5 * S, 0, true, 0, 0, 0, 2, 3},
        {"6 and 4 Hz, steady clock", {{6, priority::p1}, {4, priority::p0}}, true, 2 * S + 1, 1, true, 0, 0, 0, 2, 4},
        {"5 and 2 Hz, clock of milliseconds", {{5, priority::p1}, {2, priority::p4}}, true, 2 * S + 1, 2, true, 0, 0, 0, 2, 4},
        {"3 Hz, clock of milliseconds", {{3, priority::p1}}, false, 4 * S, 2, true, 0, 0, 0, 2, 4},
        {"1 task, shorthand constructor", {{4, priority::p0}}, true, 2 * S, 3, true, 0, 0, 0, 3, 5},
        {"1 task, shorthand constructor, not aligned", {{4, priority::p0}}, false, 2 * S, 3, true, 0, 0, 0, 3, 5},
        {"no periodic task", {}, true, 2 * S, 0, true, 0, 2, 2, 4, 6},
        {"no periodic task, not aligned", {}, false, 0, 0, false, 0, 1, 1, 4, 6},
        {"slow tasks", {{10, priority::p0}}, false, 800 * MS, 0, false, 1, 1, 1, 3, 5},
        {"slow tasks of 2 periods", {{10, priority::p0}, {5, priority::p1}}, true, 1700 * MS, 0, false, 1, 1, 1, 3, 4},
        {"slow tasks of 3 periods", {{8, priority::p3}, {4, priority::p1}, {2, priority::p2}}, false, 1100 * MS, 0, false, 1, 1, 1, 2, 3},
        {"late wake-ups", {{10, priority::p0}, {4, priority::p1}}, false, 600 * MS, 0, false, 2, 1, 1, 4, 6},
        {"late wake-ups, steady clock", {{10, priority::p0}, {3, priority::p1}}, true, 700 * MS, 1, false, 2, 1, 1, 4, 6},
        {"destroyed at once", {{10, priority::p0}}, false, 0, 0, false, 0, 2, 2, 6, 9},
        {"destroyed at once, aligned", {{10, priority::p0}, {5, priority::p0}}, true, 0, 0, false, 0, 2, 2, 6, 9},
        {"destroyed at the time of a firing", {{10, priority::p0}, {5, priority::p1}}, false, 200 * MS, 0, false, 0, 1, 1, 4, 6},
        {"destroyed between firings", {{1, priority::p0}, {2, priority::p1}}, false, 750 * MS, 0, false, 0, 1, 1, 4, 6},
        {"destroyed while a task runs", {{10, priority::p0}, {10, priority::p1}}, false, 100 * MS, 0, false, 3, 1, 1, 4, 6},
        {"slow initialisation", {{10, priority::p0}, {5, priority::p1}}, false, 700 * MS, 0, false, 5, 2, 1, 3, 5},
        {"slow initialisation, aligned", {{10, priority::p0}}, true, 2700 * MS, 0, false, 5, 2, 1, 3, 5},
        {"a task that always takes longer than its period", {{10, priority::p0}}, false, 350 * MS, 0, false, 4, 1, 1, 3, 5},
        {"a task that always takes longer than its period, another one", {{10, priority::p0}, {4, priority::p2}}, true, 1450 * MS, 0, false, 4, 1, 1, 2, 4},
        {"all single frequencies, clocks, alignments and phases", {}, true, 3500 * MS, 0, true, 0, 1, 1, 0, 0},
        {"all pairs of frequencies and priorities", {}, true, 2100 * MS, 0, true, 0, 1, 1, 0, 0},
        {"all triples of frequencies and priorities", {}, false, 1500 * MS, 0, true, 0, 1, 1, 0, 0},
        {"1 per minute", {{1.0 / 60, priority::p0}}, true, 130 * S, 0, true, 0, 0, 1, 3, 5},
    };
    return v;
}
// A clock that ticks in milliseconds.
struct coarse
{
    using rep = int64_t; using period = std::milli; using duration = std::chrono::milliseconds; using time_point = std::chrono::time_point<coarse>;
    static constexpr bool is_steady = false;
    static time_point now() { return time_point(std::chrono::duration_cast<duration>(std::chrono::system_clock::now().time_since_epoch())); }
};
struct fired { int id; int64_t planned, at; };
std::vector<fired> log_;
std::vector<int> inits, exits;
int64_t born, clock_skew;
bool gone;

template <class Clock> int64_t clock_now() { return std::chrono::duration_cast<ns>(Clock::now().time_since_epoch()).count(); }
}
int xs_nscenarios(void) { return (int)specs().size(); }
const char *xs_scenario_name(int i) { return specs()[i].name; }
int xs_bound(int i, int deep) { return deep ? specs()[i].deep : specs()[i].bound; }

namespace
{
template <class Clock> void drive(const spec &sp)
{
    if (sp.exact) xs_time_races(0);
    int n = (int)sp.tasks.size();
    std::vector<std::tuple<double, priority, timed_task_handler>> tasks;
    int in_task = 0;
    xs_norace(&in_task, sizeof in_task);
    for (int i = 0; i < n; ++i)
        tasks.emplace_back(sp.tasks[i].freq, sp.tasks[i].p, [&, i](const ns &t)
        {
            XS_CHECK(!gone, "task %d fired after the destruction", i);
            XS_CHECK(!in_task, "two tasks run at the same time");
            in_task = 1;
            int64_t now = clock_now<Clock>();
            if (now < t.count()) xs_fail("task %d fired %lld ns before its time", i, (long long)(t.count() - now));
            XS_CHECK((int)inits.size() == sp.inits, "a task fired before the initialisation tasks ran");
            XS_CHECK(exits.empty(), "a task fired after an exit task");
            log_.push_back({i, t.count(), now});
            if (sp.slow == 1)
            {
                int64_t period = (int64_t)(S / sp.tasks[i].freq);
                switch (xs_choose(4, 1)) { case 1: xs_advance(period / 2); break; case 2: xs_advance(period + period / 2); break; case 3: xs_advance(4 * period + 1); break; default: break; }
            }
            if (sp.slow == 4) { struct timespec d = {0, 150 * MS}; nanosleep(&d, nullptr); }
            if (sp.slow == 3) { struct timespec d = {0, 30 * MS}; nanosleep(&d, nullptr); }
            in_task = 0;
        });
    int64_t ready = 0;
    std::vector<init_task_handler> in;
    std::vector<exit_task_handler> out;
    for (int i = 0; i < sp.inits; ++i) in.push_back([&, i]
    {
        static const int64_t takes[] = {0, 250 * MS, S};
        if (sp.slow == 5) xs_advance(takes[xs_choose(3, 1)]);
        inits.push_back(i);
        ready = clock_now<Clock>();
    });
    for (int i = 0; i < sp.exits; ++i) out.push_back([i] { exits.push_back(i); });
    born = clock_now<Clock>();
    std::unique_ptr<timed_scheduler<Clock>> ts;
    if (sp.clock == 3) ts = std::make_unique<timed_scheduler<Clock>>(sp.tasks[0].freq, std::get<2>(tasks[0]), sp.align);
    else ts = std::make_unique<timed_scheduler<Clock>>(tasks, in, out, sp.align);
    if (sp.exact) { xs_settle(); if (sp.align && !sp.tasks.empty()) {} }
    if (sp.slow == 2)
    {
        // this thread lets time pass while the scheduler is to wake up
        for (int64_t left = sp.run_ns; left > 0; left -= 50 * MS) { struct timespec d = {0, 50 * MS}; nanosleep(&d, nullptr); if (xs_choose(2, 1)) xs_advance(110 * MS); }
    }
    else if (sp.run_ns) { struct timespec d = {(time_t)(sp.run_ns / S), (long)(sp.run_ns % S)}; nanosleep(&d, nullptr); }
    int64_t ended = clock_now<Clock>();
    ts.reset();
    int64_t destroyed = clock_now<Clock>();
    gone = true;
    size_t count = log_.size();
    xs_settle();
    XS_CHECK(log_.size() == count, "a task fired after the destruction");
    XS_CHECK((int)inits.size() == sp.inits, "%zu of %d initialisation tasks ran", inits.size(), sp.inits);
    XS_CHECK((int)exits.size() == sp.exits, "%zu of %d exit tasks ran", exits.size(), sp.exits);
    for (int i = 0; i < sp.inits; ++i) XS_CHECK(inits[i] == i, "initialisation tasks out of order");
    for (int i = 0; i < sp.exits; ++i) XS_CHECK(exits[i] == i, "exit tasks out of order");
    if (n == 0) return;
    // the firings are a prefix of the exact sequence
    if (!log_.empty())
    {
        int64_t start = log_[0].planned;
        XS_CHECK(start >= ready, "the start time lies %lld ns before the end of the initialisation", (long long)(ready - start));
        if (sp.align)
        {
            XS_CHECK(start % S == 0, "the first firing at %lld is not on a whole second", (long long)start);
            XS_CHECK(start > born && (sp.slow || start <= born + S || !sp.exact), "the aligned start is %lld ns after the construction", (long long)(start - born));
        }
        else XS_CHECK(start >= born && (!sp.exact || start == born), "the start time is %lld ns after the construction", (long long)(start - born));
        std::vector<int64_t> period, next(n, 0);
        for (auto &t : sp.tasks) period.push_back((int64_t)(1'000'000'000 / t.freq));
        size_t at = 0;
        while (at < log_.size())
        {
            int64_t due = *std::min_element(next.begin(), next.end());
            std::vector<int> ids;
            for (int i = 0; i < n; ++i) if (next[i] == due) ids.push_back(i);
            std::stable_sort(ids.begin(), ids.end(), [&](int a, int b) { return (int)sp.tasks[a].p > (int)sp.tasks[b].p; });
            std::vector<bool> seen(n);
            for (size_t k = 0; k < ids.size() && at < log_.size(); ++k, ++at)
            {
                auto &f = log_[at];
                XS_CHECK(f.planned == start + due, "firing %zu has planned time start + %lld ns instead of start + %lld ns", at, (long long)(f.planned - start), (long long)due);
                XS_CHECK(sp.tasks[f.id].p == sp.tasks[ids[k]].p && next[f.id] == due && !seen[f.id], "firing %zu at start + %lld is of task %d", at, (long long)due, f.id);
                seen[f.id] = true;
            }
            for (int i : ids) next[i] += period[i];
        }
        if (sp.exact)
        {
            // nobody was late: everything due before the destruction began has fired, at its time
            for (int i = 0; i < n; ++i)
            {
                int64_t k = 0;
                for (auto &f : log_) k += f.id == i;
                int64_t till = ended - start - (sp.clock == 2 ? MS : 0);      // a coarse clock is up to a tick late
                int64_t due = till > 0 ? (till - 1) / period[i] + 1 : 0;
                XS_CHECK(k >= due, "task %d fired %lld of %lld times", i, (long long)k, (long long)due);
            }
            for (auto &f : log_) XS_CHECK(f.at - f.planned < (sp.clock == 2 ? MS : 1), "a firing was %lld ns late although nobody kept it waiting", (long long)(f.at - f.planned));
        }
        // the destruction stops the firing: nothing planned later than the next due time after its begin
        XS_CHECK(log_.back().planned <= destroyed, "fired beyond the end");
    }
    else if (sp.exact) XS_CHECK(ended - born < (sp.align ? S : 0), "nothing fired in %lld ns", (long long)(ended - born));
    xs_obs("%zu firings", log_.size());
}
}
void xs_scenario(int s)
{
    spec sp = specs()[s];
    if (strncmp(sp.name, "all ", 4) == 0)
    {
        static const double f[] = {1, 2, 10, 4, 3, 7, 0.4, 2.5, 6, 0.9};
        static const priority pr[] = {priority::p3, priority::p0, priority::p6};
        int n = strstr(sp.name, "single") ? 1 : strstr(sp.name, "pairs") ? 2 : 3;
        int nf = n < 3 ? 10 : xs_deep() ? 10 : 7;
        for (int i = 0; i < n; ++i) { double x = f[xs_choose(nf, 0)]; sp.tasks.push_back({x, pr[n == 1 ? 0 : xs_choose(n == 2 ? 3 : 2, 0)]}); }
        if (n < 3) sp.align = xs_choose(2, 0);
        if (n == 1)
        {
            sp.clock = xs_choose(4, 0);
            static const int64_t phase[] = {0, 1, 500 * MS, S - 1, S - MS, 123456789};
            int64_t to = phase[xs_choose(6, 0)];
            xs_advance(S - xs_now() % S + to);
        }
        if (sp.clock == 3) sp.inits = sp.exits = 0;
    }
    xs_norace(&gone, sizeof gone);
    switch (sp.clock)
    {
    case 1: drive<std::chrono::steady_clock>(sp); break;
    case 2: drive<coarse>(sp); break;
    default: drive<std::chrono::system_clock>(sp);
    }
}
