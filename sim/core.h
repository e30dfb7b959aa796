// Simulator core: one seed decides everything a run does. Every decision (schedule, fault, operation,
// argument) is drawn through choose()/flip()/bits64(), recorded as a list of integers, and a run is a
// pure function of that list: replaying the list reproduces the run, shrinking the list shrinks the run
// (0 is always the simplest choice: no fault, no preemption, first operation, stop).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---- decisions
u64 choose(u64 n);                         // uniform in [0,n)
u64 choose_w(const std::vector<int>& w);   // weighted index; index 0 is the shrink target
bool flip(u64 num, u64 den);               // true with probability num/den; shrinks to false
u64 bits64();                              // 64 random bits (often small / structured)
u64 logu(int maxlog2);                     // 0, or log-uniform in [1, 2^maxlog2)

// ---- run outcome
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // event log (hashed, kept as trace)
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void end_run();               // stop this run quietly (e.g. precondition not reachable)
void count(const char* name, u64 n = 1);   // named counters (fault kinds, probes)
void cover(u64 h);                         // a state / history hash
void step(u64 n = 1);                      // simulated time: one unit per simulated event
u64 hash64(const void* p, size_t n, u64 h = 1469598103934665603ull);

// ---- sub-processes of the simulated system (really forked, run one at a time by the simulator)
struct Victim { int kind; int code; };     // kind: 0 returned, 1 exit(code), 2 signal(code), 3 stuck (simulator stopped it)
Victim victim(const std::function<void()>& f);
void* shared_buf(size_t n);                // zeroed memory shared with victims (per run, bump allocated)
// counterfactual replica: re-executes f with the choices recorded from position `from`
u64 choice_pos();
Victim replica(u64 from, const std::function<void()>& f);
bool in_replica();

// ---- scenarios
struct Scenario { const char* name; void (*fn)(); };
void add_scenario(const char* name, void (*fn)());
struct Reg { Reg(const char* n, void (*f)()) { add_scenario(n, f); } };
#define SCENARIO(name) static void scen_##name(); static sim::Reg reg_##name(#name, scen_##name); static void scen_##name()
const char* assert_text();
void note_assert(const char* t);
void doing(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // what runs now (for crash and hang reports)
}
namespace sim { void run_scenario(const char* name); }
