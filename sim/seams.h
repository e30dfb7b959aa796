// Seams between the code under test and the world: memory, random device, threads, process end.
// All of them are installed at link time (ld --wrap) or through GMP's own allocation hooks, so the
// sources in /repo are compiled as they are.
#pragma once
#include "core.h"
#include <sys/types.h>
#include <stdio.h>
#include <functional>
#include <vector>
#ifndef SIM_VARIANT
#define SIM_VARIANT "plain"
#endif

namespace sim {
void seams_init();
void seams_run_begin();
void seams_run_end();
pid_t real_fork();

// ---- calls into the code under test
extern thread_local int in_sut;
void enter_sut(); void leave_sut();
struct Enter { Enter() { enter_sut(); } ~Enter() { leave_sut(); } };
struct Leave { int s; Leave() : s(in_sut) { in_sut = 0; } ~Leave() { in_sut = s; } };  // callbacks from SUT into harness
#define C(...) ([&]() -> decltype(auto) { sim::Enter _enter; return __VA_ARGS__; }())

// ---- memory
struct AllocCfg {
  int fill = 0;        // 0 leave stale, 1 zero, 2 0xFF, 3 0xA5, 4 pseudo-random
  int reuse = 1;       // reuse freed blocks (LIFO)
  int scribble = 1;    // scribble over the stack below each call
  u64 salt = 0;        // for fill 4 and scribble
  u64 fail_at = 0;     // fail the allocation with this number (1-based, counted since mem_arm()); 0 = never
  int fail_all = 0;    // and every later one
  int fail_mode = 0;   // fail_at is: 0 a number, 1 a size (the first allocation at least that large), 2 a call site (the n-th new one)
};
extern AllocCfg mem;
void mem_arm(u64 fail_at, bool all, int mode = 0);    // restart the allocation count of the code under test
u64 mem_allocs();                       // allocations by the code under test since mem_arm
u64 mem_sites(); u64 mem_largest();     // distinct call sites, largest size since mem_arm
u64 mem_failed();                       // how many were refused
u64 mem_live_blocks(); u64 mem_live_bytes();
std::string mem_live_list();
void mem_random_cfg();                  // draw a memory configuration
void mem_check();                       // canaries of live blocks, poison of freed blocks
void secrets_clear();
void secret_limbs(const void* le_words, size_t nbytes, const char* label);   // as GMP holds it
void secret_bytes(const void* p, size_t n, const char* label);               // as raw bytes
u64 secrets_scanned();

// ---- random device
struct DevRead { u64 pos; u32 len; u32 who; };
void dev_reset(u64 key);                // fresh device stream
void dev_script(const void* p, size_t n);   // next n bytes of the device will be these
void dev_script_clear();
void dev_flip(u64 pos, u8 mask);        // counterfactual: byte at absolute position pos differs (0 mask: off)
u64 dev_pos();
void dev_set_pos(u64);
u8 dev_byte(u64 pos);
void dev_reset_faults();                // a dead device works again
u64 dev_reads();
u64 dev_read_log_hash();
extern int dev_fault_den;               // 0: no faults, else a fault with probability 1/den at every read
extern int dev_fault_mask;              // bit set of kinds below
enum { DF_SHORT = 1, DF_EINTR = 2, DF_EIO = 4, DF_EOF = 8, DF_PERSIST = 16, DF_OPEN = 32, DF_SHORTALL = 64 };
u64 dev_faults();                       // number of faults injected so far
u64 dev_open_files();                   // handles the code under test has not closed
u64 dev_hard_faults();                  // EIO/EOF/open failures

// ---- process end
void run_atexit();                      // run the handlers the code under test registered
size_t atexit_pending();
extern int expect_exit;                 // exit() by the code under test ends the victim with its code

// ---- threads
struct SchedCfg { int strategy = 0; };
void run_threads(const std::vector<std::function<void()>>& fns);
int cur_tid();                          // 0 main
bool sched_on();
void yield_point(int cls);              // explicit preemption point (class 1: shared)
}
