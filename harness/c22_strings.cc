// C22: string helpers on every short text over a small alphabet, against the definition.
#include "seq.h"
#include "cppev/utils.h"
#include <stdexcept>
#include <system_error>
#include <string>
#include <vector>
using std::string;
using std::vector;

static const char *names[] = {"split: every short text and separator", "strip: every short text and strip string",
    "join: every short list", "split: texts of chunks", "strip: texts of chunks", "empty separators", "join: long lists"};
int seq_nscenarios() { return 7; }
const char *seq_scenario_name(int i) { return names[i]; }

namespace
{
const char alpha[] = {'a', 'b', '\0'};
string text(int maxlen, int minlen = 0)
{
    int len = minlen + seq::choose(maxlen - minlen + 1);
    string s;
    for (int i = 0; i < len; ++i) s += alpha[seq::choose(3)];
    return s;
}
string chunks(const string &sep, int n)
{
    const string menu[] = {sep, sep.substr(0, sep.size() - 1), sep.substr(1), "x", string(40, 'y'), string("\xff\0\n", 3)};
    string s;
    for (int k = seq::choose(n + 1); k > 0; --k) s += menu[seq::choose(6)];
    return s;
}
string sep_menu()
{
    const string m[] = {",", "ab", "aa", "aba", string("\0", 1), string("\0\0", 2), string("\0a", 2), "\xff", string(17, 'q'), "abab"};
    return m[seq::choose(10)];
}
// the definition: occurrences from the left, non-overlapping
vector<string> ref_split(const string &s, const string &sep)
{
    vector<string> r;
    size_t from = 0, at;
    while ((at = s.find(sep, from)) != string::npos)
    {
        r.push_back(s.substr(from, at - from));
        from = at + sep.size();
    }
    r.push_back(s.substr(from));
    return r;
}
string ref_join(const vector<string> &v, const string &sep)
{
    string r;
    bool first = true;
    for (auto &x : v)
    {
        if (!first) r += sep;
        first = false;
        r += x;
    }
    return r;
}
string ref_lstrip(string s, const string &c)
{
    while (s.size() >= c.size() && s.compare(0, c.size(), c) == 0) s = s.substr(c.size());
    return s;
}
string ref_rstrip(string s, const string &c)
{
    while (s.size() >= c.size() && s.compare(s.size() - c.size(), c.size(), c) == 0) s = s.substr(0, s.size() - c.size());
    return s;
}
string show(const vector<string> &v)
{
    string r = "[";
    for (auto &x : v) r += seq::show(x) + ",";
    return r + "]";
}
uint64_t h(const vector<string> &v)
{
    uint64_t x = v.size();
    for (auto &s : v) x = seq::hash(s, x);
    return x;
}
void check_split(const string &s, const string &sep)
{
    seq::log("split(%s, %s)", seq::show(s).c_str(), seq::show(sep).c_str());
    vector<string> got = cppev::split(s, sep), want = ref_split(s, sep);
    seq::state(h(got));
    SEQ_CHECK(got == want, "split(%s, %s) gives %s instead of %s", seq::show(s).c_str(), seq::show(sep).c_str(), show(got).c_str(), show(want).c_str());
    string back = cppev::join(got, sep);
    SEQ_CHECK(back == s, "join of split(%s, %s) gives %s", seq::show(s).c_str(), seq::show(sep).c_str(), seq::show(back).c_str());
}
void check_strip(const string &s, const string &c)
{
    seq::log("strip(%s, %s)", seq::show(s).c_str(), seq::show(c).c_str());
    string l = cppev::lstrip(s, c), r = cppev::rstrip(s, c), b = cppev::strip(s, c);
    seq::state(h({l, r, b}));
    SEQ_CHECK(l == ref_lstrip(s, c), "lstrip(%s, %s) gives %s", seq::show(s).c_str(), seq::show(c).c_str(), seq::show(l).c_str());
    SEQ_CHECK(r == ref_rstrip(s, c), "rstrip(%s, %s) gives %s", seq::show(s).c_str(), seq::show(c).c_str(), seq::show(r).c_str());
    SEQ_CHECK(b == ref_rstrip(ref_lstrip(s, c), c), "strip(%s, %s) gives %s", seq::show(s).c_str(), seq::show(c).c_str(), seq::show(b).c_str());
}
void check_join(const vector<string> &v, const string &sep)
{
    seq::log("join(%s, %s)", show(v).c_str(), seq::show(sep).c_str());
    string got = cppev::join(v, sep), want = ref_join(v, sep);
    seq::state(seq::hash(got));
    SEQ_CHECK(got == want, "join(%s, %s) gives %s", show(v).c_str(), seq::show(sep).c_str(), seq::show(got).c_str());
}
template <typename F> void refused(const char *what, F f)
{
    bool ok = false;
    try { f(); }
    catch (const std::runtime_error &e) { ok = dynamic_cast<const std::system_error *>(&e) == nullptr; }
    SEQ_CHECK(ok, "%s with an empty string not refused with a runtime error", what);
}
}

void seq_run(int sc)
{
    switch (sc)
    {
    case 0: { string sep = text(3, 1); check_split(text(seq::bound(9, 11)), sep); break; }
    case 1: { string c = text(3, 1); check_strip(text(seq::bound(9, 11)), c); break; }
    case 2:
    {
        string sep = text(2);
        vector<string> v;
        for (int k = seq::choose(seq::bound(4, 5)); k > 0; --k) v.push_back(text(2));
        check_join(v, sep);
        break;
    }
    case 3: { string sep = sep_menu(); check_split(chunks(sep, seq::bound(5, 7)), sep); break; }
    case 4: { string sep = sep_menu(); check_strip(chunks(sep, seq::bound(5, 7)), sep); break; }
    case 5:
    {
        string s = text(3);
        refused("split", [&] { cppev::split(s, ""); });
        refused("strip", [&] { cppev::strip(s, ""); });
        refused("lstrip", [&] { cppev::lstrip(s, ""); });
        refused("rstrip", [&] { cppev::rstrip(s, ""); });
        break;
    }
    case 6:
    {
        static const int ns[] = {0, 1, 2, 10, 100, 1000};
        vector<string> v(ns[seq::choose(6)]);
        string fill[] = {"", "p", string(30, 'z'), string("\0", 1)};
        int f = seq::choose(5);
        for (size_t i = 0; i < v.size(); ++i) v[i] = f < 4 ? fill[f] : fill[i % 4];
        string sep = seq::choose(2) ? sep_menu() : "";
        check_join(v, sep);
        if (!sep.empty()) check_split(ref_join(v, sep), sep);
        break;
    }
    }
}
