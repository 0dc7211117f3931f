// C23: divisors, multiples, time points and timestamps against their mathematical definition.
#include "seq.h"
#include "cppev/utils.h"
#include <algorithm>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
typedef __int128 big;

static const char *names[] = {"gcd and lcm of small pairs", "gcd and lcm of large pairs", "gcd and lcm of lists",
    "whole second after a time point, clocks of several resolutions", "timestamps", "current time", "sleep_until on a scripted clock",
    "sleep_until on the system and steady clocks"};
int seq_nscenarios() { return 8; }
const char *seq_scenario_name(int i) { return names[i]; }

namespace
{
int64_t ref_gcd(int64_t a, int64_t b) { while (b) { int64_t t = a % b; a = b; b = t; } return a; }
// by definition for small numbers
int64_t def_gcd(int64_t a, int64_t b) { for (int64_t g = std::min(a, b);; --g) if (a % g == 0 && b % g == 0) return g; }
big ref_lcm(big a, int64_t b) { return a / ref_gcd((int64_t)a, b) * b; }

void check_pair(int64_t p, int64_t r, bool small)
{
    int64_t g = small ? def_gcd(p, r) : ref_gcd(p, r), got = cppev::greatest_common_divisor(p, r);
    SEQ_CHECK(got == g, "gcd(%ld, %ld) gives %ld instead of %ld", p, r, got, g);
    std::vector<int64_t> v{p, r};
    got = cppev::greatest_common_divisor(v);
    SEQ_CHECK(got == g, "gcd({%ld, %ld}) gives %ld instead of %ld", p, r, got, g);
    big l = ref_lcm(p, r);
    if (l > INT64_MAX) return;
    got = cppev::least_common_multiple(p, r);
    SEQ_CHECK(got == (int64_t)l, "lcm(%ld, %ld) gives %ld instead of %ld", p, r, got, (int64_t)l);
    got = cppev::least_common_multiple(v);
    SEQ_CHECK(got == (int64_t)l, "lcm({%ld, %ld}) gives %ld instead of %ld", p, r, got, (int64_t)l);
    seq::state((uint64_t)g * 1000003 + (uint64_t)l);
}
const int64_t menu[] = {1, 2, 3, 4, 6, 9, 12, 35, 97, 1000000000, 2147483647, 2147483648, 4294967296, 4294967291,
    3037000499, 4611686018427387904, 4052555153018976267, 9223372036854775807, 9223372036854775783, 7450580596923828125 };
const int64_t lmenu[] = {1, 2, 3, 4, 6, 10, 15, 49, 1000000007, 4294967296, 4611686018427387904};

template <int64_t N, int64_t D> struct clk
{
    typedef std::chrono::duration<int64_t, std::ratio<N, D>> duration;
    typedef std::chrono::time_point<clk> time_point;
    static time_point now() { return time_point(duration(0)); }
};
// points around a whole second s: s + off units
template <int64_t N, int64_t D> void check_ceil(int64_t s, int64_t off)
{
    typedef clk<N, D> C;
    int64_t per = D / N;                    // units in a second
    int64_t p = s * per + off;
    typename C::time_point tp{typename C::duration(p)};
    int64_t got = cppev::ceil_time_point<C>(tp).time_since_epoch().count();
    big fl = p >= 0 ? p / per : -((-(big)p + per - 1) / per);
    int64_t want = (int64_t)((fl + 1) * per);
    SEQ_CHECK(got == want, "the first whole second after %ld/%ld s is %ld/%ld s, not %ld", p, per, want, per, got);
}
struct civil { long y; int mo, d, h, mi, s; };
civil to_civil(int64_t t)
{
    int64_t days = t / 86400, rem = t % 86400;
    if (rem < 0) { rem += 86400; --days; }
    civil c;
    c.h = rem / 3600; c.mi = rem / 60 % 60; c.s = rem % 60;
    long y = 1968;
    days += 731;
    auto leap = [](long yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
    while (true) { int n = leap(y) ? 366 : 365; if (days < n) break; days -= n; ++y; }
    static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int m = 0;
    while (true) { int n = ml[m] + (m == 1 && leap(y)); if (days < n) break; days -= n; ++m; }
    c.y = y; c.mo = m + 1; c.d = days + 1;
    return c;
}
struct zone { const char *tz; int off; const char *abbr; };
const zone zones[] = {{"UTC0", 0, "UTC"}, {"CST-8", 28800, "CST"}, {"EST5", -18000, "EST"}, {"<+0545>-5:45", 20700, "+0545"}, {"NZST-12NZDT,M9.5.0,M4.1.0/3", 43200, "NZST"}};
// New Zealand in winter only (see times)
const int64_t times[] = {0, 1, 59, 60, 3599, 86399, 86400, 951782399, 951782400, 951868799, 1582934400, 1609459199, 1609459200,
    1752999999, 2147483647, 2147483648, 4107542399, 4107542400, 32503680000};

int64_t vnow, slept;
int sleeps;
}
struct script_clock
{
    typedef std::chrono::nanoseconds duration;
    typedef duration::rep rep;
    typedef duration::period period;
    typedef std::chrono::time_point<script_clock> time_point;
    static constexpr bool is_steady = false;
    static time_point now() { return time_point(duration(vnow)); }
};
struct coarse_clock
{
    typedef std::chrono::milliseconds duration;
    typedef duration::rep rep;
    typedef duration::period period;
    typedef std::chrono::time_point<coarse_clock> time_point;
    static constexpr bool is_steady = false;
    static time_point now() { return time_point(duration(vnow / 1000000)); }
};
// the scripted sleep: exactly, interrupted half-way, or while somebody sets the clock back
static bool scripted;
extern "C" int __real_nanosleep(const timespec *, timespec *);
static int sleep_ns(int64_t ns, timespec *rem)
{
    ++sleeps;
    int c = sleeps > 4 ? 0 : seq::choose(ns > 1 ? 3 : 1);
    int64_t d = c == 1 ? ns / 2 : ns;
    vnow += c == 2 ? d - 700 : d;
    seq::log("sleep %ld ns: %s", (long)ns, c == 0 ? "slept" : c == 1 ? "interrupted half-way" : "clock set back by 700 ns");
    if (c == 1)
    {
        if (rem) { rem->tv_sec = (ns - d) / 1000000000; rem->tv_nsec = (ns - d) % 1000000000; }
        errno = EINTR;
        return -1;
    }
    return 0;
}
extern "C" int __wrap_nanosleep(const timespec *r, timespec *rem)
{
    if (!scripted) return __real_nanosleep(r, rem);
    return sleep_ns(r->tv_sec * 1000000000ll + r->tv_nsec, rem);
}

void seq_run(int sc)
{
    switch (sc)
    {
    case 0:
    {
        int n = seq::bound(400, 1500);
        int64_t p = 1 + seq::choose(n);
        for (int64_t r = 1; r <= n; ++r) check_pair(p, r, true);
        break;
    }
    case 1:
    {
        int n = sizeof menu / sizeof *menu;
        int64_t p = menu[seq::choose(n)], r = menu[seq::choose(n)];
        int64_t dp = seq::choose(3), dr = seq::choose(3);
        if (p - dp < 1 || r - dr < 1) return;
        seq::log("%ld %ld", p - dp, r - dr);
        check_pair(p - dp, r - dr, false);
        break;
    }
    case 2:
    {
        int len = 2 + seq::choose(seq::bound(3, 5));
        std::vector<int64_t> v;
        std::string d;
        for (int i = 0; i < len; ++i) { v.push_back(lmenu[seq::choose(11)]); d += std::to_string(v.back()) + " "; }
        seq::log("%s", d.c_str());
        int64_t g = v[0];
        big l = v[0];
        bool fits = true;
        for (int64_t x : v)
        {
            g = ref_gcd(g, x);
            if (fits) { l = ref_lcm(l, x); fits = l <= INT64_MAX; }
        }
        int64_t got = cppev::greatest_common_divisor(v);
        SEQ_CHECK(got == g, "gcd(%s) gives %ld instead of %ld", d.c_str(), got, g);
        if (!fits) return;
        got = cppev::least_common_multiple(v);
        SEQ_CHECK(got == (int64_t)l, "lcm(%s) gives %ld instead of %ld", d.c_str(), got, (int64_t)l);
        break;
    }
    case 3:
    {
        static const int64_t secs[] = {0, 1, 2, -1, -2, 59, 1700000000, 4102444799, 9000000000, -1700000000};
        int64_t s = secs[seq::choose(10)];
        int k = seq::choose(6);
        static const int64_t per[] = {1000000000, 1000000, 1000, 100, 1, 10000000};
        int64_t offs[] = {0, 1, -1, per[k] / 2, -per[k] / 2, per[k] - 1};
        int64_t off = offs[seq::choose(6)];
        seq::log("%ld s + %ld/%ld", s, off, per[k]);
        switch (k)
        {
        case 0: check_ceil<1, 1000000000>(s, off); break;
        case 1: check_ceil<1, 1000000>(s, off); break;
        case 2: check_ceil<1, 1000>(s, off); break;
        case 3: check_ceil<1, 100>(s, off); break;
        case 4: check_ceil<1, 1>(s, off); break;
        case 5: check_ceil<1, 10000000>(s, off); break;
        }
        auto now = std::chrono::system_clock::time_point(std::chrono::seconds(s) + std::chrono::nanoseconds(off));
        auto c = cppev::ceil_time_point<>(now);
        SEQ_CHECK(c > now && c - now <= std::chrono::seconds(1), "system clock point not rounded to the next second");
        break;
    }
    case 4:
    {
        const zone &z = zones[seq::choose(5)];
        int64_t t = times[seq::choose(sizeof times / sizeof *times)] + seq::choose(2);
        setenv("TZ", z.tz, 1);
        tzset();
        civil c = to_civil(t + z.off);
        if (strlen(z.tz) > 12 && (c.mo < 5 || c.mo > 8)) return;   // daylight saving differs
        char full[200], want[3000];
        snprintf(full, sizeof full, "%04ld-%02d-%02d %02d:%02d:%02d %s", c.y, c.mo, c.d, c.h, c.mi, c.s, z.abbr);
        int f = seq::choose(8);
        std::string fmt, lit;
        const char *pf = nullptr;
        switch (f)
        {
        case 0: lit = full; break;
        case 1: fmt = "%F %T %Z"; lit = full; break;
        case 2: fmt = "%Y"; snprintf(want, sizeof want, "%ld", c.y); lit = want; break;
        case 3: fmt = "%H-%M-%S|%d/%m/%Y%%"; snprintf(want, sizeof want, "%02d-%02d-%02d|%02d/%02d/%ld%%", c.h, c.mi, c.s, c.d, c.mo, c.y); lit = want; break;
        case 4: fmt = "plain"; lit = "plain"; break;
        case 5: fmt = std::string(1000, 'x') + "%Y"; snprintf(want, sizeof want, "%ld", c.y); lit = std::string(1000, 'x') + want; break;
        case 6: fmt = "%s"; lit = std::to_string(t); break;
        case 7: fmt = "%Y%m%dT%H%M%S"; snprintf(want, sizeof want, "%ld%02d%02dT%02d%02d%02d", c.y, c.mo, c.d, c.h, c.mi, c.s); lit = want; break;
        }
        if (f) pf = fmt.c_str();
        std::string got = f ? cppev::timestamp(t, pf) : seq::choose(2) ? cppev::timestamp(t) : cppev::timestamp(t, nullptr);
        seq::state(seq::hash(got));
        SEQ_CHECK(got == lit, "timestamp(%ld, %s) in zone %s gives %s instead of %s", t, pf ? pf : "default", z.tz, seq::show(got).c_str(), seq::show(lit).c_str());
        break;
    }
    case 5:
    {
        setenv("TZ", zones[seq::choose(5)].tz, 1);
        tzset();
        auto now = [] { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec; };
        // the coarse clock behind time() may lag a tick behind
        int64_t a = now();
        int64_t x = seq::choose(2) ? (int64_t)cppev::time() : atoll((seq::choose(2) ? cppev::timestamp(-1, "%s") : cppev::timestamp(-1 - seq::choose(3), "%s")).c_str());
        int64_t b = now();
        SEQ_CHECK(x >= a - 1 && x <= b, "the current time %ld is not between %ld and %ld", x, a, b);
        break;
    }
    case 6:
    {
        static const int64_t ds[] = {-5, 0, 1, 999, 1000, 1000000, 999999, 1500001, 1000000000, 3000000001};
        int64_t d = ds[seq::choose(10)];
        vnow = 1700000000000000000ll + seq::choose(2) * 123456;
        int64_t target = vnow + d;
        sleeps = 0;
        scripted = true;
        bool coarse = seq::choose(2);
        seq::log("sleep until now %+ld ns, %s clock", (long)d, coarse ? "millisecond" : "nanosecond");
        if (coarse) cppev::sleep_until<coarse_clock>(std::chrono::nanoseconds(target));
        else cppev::sleep_until<script_clock>(std::chrono::nanoseconds(target));
        scripted = false;
        SEQ_CHECK(vnow >= target, "sleep_until returned %ld ns too early", (long)(target - vnow));
        break;
    }
    case 7:
    {
        int64_t d = seq::choose(4) * 700000;
        bool steady = seq::choose(2);
        auto now = [&] { return steady ? std::chrono::nanoseconds(std::chrono::steady_clock::now().time_since_epoch()).count()
                                       : std::chrono::nanoseconds(std::chrono::system_clock::now().time_since_epoch()).count(); };
        int64_t t = now() + d;
        if (steady) cppev::sleep_until<std::chrono::steady_clock>(std::chrono::nanoseconds(t));
        else cppev::sleep_until(std::chrono::nanoseconds(t));
        SEQ_CHECK(now() >= t, "sleep_until returned %ld ns too early", (long)(t - now()));
        break;
    }
    }
}
