// Exhaustive enumeration of choice sequences on the real code (one process, many executions).
// A harness is a function of a sequence of choices; every sequence is executed, in depth-first order.
#ifndef SEQ_H
#define SEQ_H
#include <stdint.h>
#include <stddef.h>
#include <string>

// --- provided by the harness ---
int seq_nscenarios();
const char *seq_scenario_name(int i);
void seq_run(int scenario);          // one execution
extern bool seq_fork_each;           // each execution in its own process (default false)
extern int seq_exec_timeout;         // seconds before an execution counts as hanging

namespace seq
{
struct discard_t {};
// Next choice among n alternatives.
int choose(int n);
// The property is violated: ends the exploration.
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
// This execution is outside the assumptions.
[[noreturn]] void discard();
// Describe one step of the execution (kept for samples and replays only).
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool logging();
// Signature of a state reached (distinct ones are counted).
void state(uint64_t h);
uint64_t hash(const void *p, size_t n, uint64_t seed = 0);
inline uint64_t hash(const std::string &s, uint64_t seed = 0) { return hash(s.data(), s.size(), seed); }
// Tier-dependent bound.
bool thorough();
inline int bound(int quick, int deep) { return thorough() ? deep : quick; }
std::string show(const std::string &s);
// Listed in the known-findings file: ends the execution silently; else a violation.
void fail_key(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
struct known_t {};
}
#define SEQ_CHECK(c, ...) do { if (!(c)) ::seq::fail(__VA_ARGS__); } while (0)
#endif
