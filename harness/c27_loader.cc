// C27: every short history of loaders over three libraries (one depends on another) and a set of bad files,
// against a reference count model; the libraries report being loaded and unloaded.
#include "seq.h"
#include "cppev/dynamic_loader.h"
#include <fcntl.h>
#include <memory>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace cppev;
using std::string;

static const char *names[] = {"one library, several loaders", "two libraries with equal symbols", "a library and one that depends on it", "all libraries, bad files"};
int seq_nscenarios() { return 4; }
const char *seq_scenario_name(int i) { return names[i]; }

static int loaded[3], ups;
extern "C" void c27_event(int lib, int delta) { loaded[lib] += delta; if (delta > 0) ++ups; }
extern "C" int c27_host(int x) { return x * 3; }      // a symbol of the program itself

namespace
{
string path(int k)
{
    static const char *env[] = {"SO_c27_a", "SO_c27_b", "SO_c27_c"};
    const char *p = getenv(env[k]);
    if (!p) abort();
    return p;
}
struct slot { std::unique_ptr<dynamic_loader> l; int lib = -1; };
bool opens(const string &file, std::unique_ptr<dynamic_loader> &out, string &why)
{
    try { out.reset(new dynamic_loader(file)); return true; }
    catch (const std::exception &e) { why = e.what(); return false; }
}
template <typename F> F *find(slot &s, const string &name, bool &ok)
{
    ok = true;
    try { return s.l->load<F>(name); }
    catch (const std::exception &e)
    {
        ok = false;
        SEQ_CHECK(e.what()[0], "a failed look-up names no cause");
        return nullptr;
    }
}
void check(slot *s, int n)
{
    int refs[3] = {0, 0, 0};
    for (int i = 0; i < n; ++i)
    {
        if (s[i].lib < 0) continue;
        refs[s[i].lib]++;
        if (s[i].lib == 2) refs[0]++;
    }
    for (int k = 0; k < 3; ++k)
        SEQ_CHECK(loaded[k] == (refs[k] > 0), "library %d is %s with %d loader(s)", k, loaded[k] ? "loaded" : "not loaded", refs[k]);
    seq::state(refs[0] * 100 + refs[1] * 10 + refs[2]);
}
void look(slot &s, int what)
{
    bool ok;
    switch (what)
    {
    case 0:
    {
        seq::log("look up c27_value in library %d", s.lib);
        auto f = find<int()>(s, "c27_value", ok);
        SEQ_CHECK(ok, "a symbol of the library was not found");
        int want = s.lib == 1 ? 200 : 100;
        SEQ_CHECK(f() == want, "c27_value of library %d is %d instead of %d", s.lib, f(), want);
        break;
    }
    case 1:
    {
        seq::log("look up c27_data in library %d", s.lib);
        auto d = find<int>(s, "c27_data", ok);
        SEQ_CHECK(ok, "a data symbol of the library was not found");
        SEQ_CHECK(*d == (s.lib == 1 ? 22 : 11), "c27_data of library %d is %d", s.lib, *d);
        break;
    }
    case 2: case 3: case 4:
    {
        static const char *sym[] = {"c27_only_a", "c27_only_b", "c27_only_c"};
        for (int k = 0; k < 3; ++k)
        {
            seq::log("look up %s in library %d", sym[k], s.lib);
            bool has = s.lib == k || (s.lib == 2 && k == 0);
            auto f = find<int(int)>(s, sym[k], ok);
            SEQ_CHECK(ok == has, "%s was %sfound in library %d", sym[k], ok ? "" : "not ", s.lib);
            int want[] = {6, 7, 16};
            if (ok) SEQ_CHECK(f(5) == want[k], "%s yields %d", sym[k], f(5));
        }
        break;
    }
    case 5:
    {
        static const char *bad[] = {"", "c27_missing", "c27_value2", "c27_host", "_Z9not_there"};
        for (auto b : bad)
        {
            seq::log("look up '%s' in library %d", b, s.lib);
            find<int()>(s, b, ok);
            SEQ_CHECK(!ok, "the missing symbol '%s' was found in library %d", b, s.lib);
        }
        break;
    }
    case 6:
    {
        // a symbol whose value is null: an address or an error, nothing else
        seq::log("look up a symbol with a null value in library %d", s.lib);
        find<int>(s, "c27_null", ok);
        break;
    }
    }
    auto again = find<int()>(s, "c27_value", ok);
    SEQ_CHECK(ok && again() == (s.lib == 1 ? 200 : 100), "the loader is not usable after a look-up");
}
string bad_file(int k)
{
    string d = "bad" + std::to_string(getpid());
    mkdir(d.c_str(), 0700);
    string f = "./" + d + "/f" + std::to_string(k) + ".so";
    auto put = [&](const string &s) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); close(fd); };
    switch (k)
    {
    case 0: return f;                                   // missing
    case 1: put(""); return f;
    case 2: put("this is no library\n"); return f;
    case 3: put(string("\x7f" "ELF\x02\x01\x01\0\0", 9)); return f;
    case 4: return "./" + d;                            // a directory
    case 5: return "libno_such_library_c27.so";
    case 6: return string(5000, 'x');
    }
    return f;
}
void run(int nslots, int libs, int depth, bool bad)
{
    slot s[3];
    struct end { slot *s; ~end() { for (int i = 0; i < 3; ++i) s[i].l.reset(); } } e{s};
    for (int d = 0; d < depth; ++d)
    {
        // loaders are alike: a new one takes the first free slot
        int used[3], nu = 0, free = -1;
        for (int k = 0; k < nslots; ++k) if (s[k].l) used[nu++] = k; else if (free < 0) free = k;
        int pick = seq::choose(nu + (free >= 0));
        int i = pick < nu ? used[pick] : free;
        if (!s[i].l)
        {
            int nl = 0, lib[3];
            for (int k = 0; k < 3; ++k) if (libs & (1 << k)) lib[nl++] = k;
            int c = seq::choose(nl + (bad ? 7 : 1));
            string why;
            if (c < nl)
            {
                seq::log("open library %d", lib[c]);
                int before = ups;
                SEQ_CHECK(opens(path(lib[c]), s[i].l, why), "library %d was not opened: %s", lib[c], why.c_str());
                s[i].lib = lib[c];
                (void)before;
            }
            else
            {
                string f = bad_file(c - nl);
                seq::log("open bad file %d", c - nl);
                SEQ_CHECK(!opens(f, s[i].l, why), "bad file %d was opened", c - nl);
                SEQ_CHECK(!why.empty(), "opening a bad file names no cause");
            }
        }
        else if (int what = seq::choose(8); what == 7)
        {
            seq::log("destroy loader of library %d", s[i].lib);
            s[i].l.reset();
            s[i].lib = -1;
        }
        else look(s[i], what);
        check(s, nslots);
    }
    for (int i = 0; i < nslots; ++i)
    {
        s[i].l.reset();
        s[i].lib = -1;
        check(s, nslots);
    }
}
}
void seq_run(int sc)
{
    switch (sc)
    {
    case 0: run(3, 1, seq::bound(5, 6), false); break;
    case 1: run(2, 3, seq::bound(5, 6), false); break;
    case 2: run(3, 5, seq::bound(4, 5), false); break;
    case 3: run(3, 7, seq::bound(4, 5), true); break;
    }
}
