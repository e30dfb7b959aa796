#include "seams.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <time.h>
#include <gmp.h>
#include <map>
#include <set>
#include <algorithm>

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
size_t __real_fread(void*, size_t, size_t, FILE*); int __real_fclose(FILE*); FILE* __real_fopen(const char*, const char*); FILE* __real_fopen64(const char*, const char*);
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_openat(int, const char*, int, ...);
ssize_t __real_read(int, void*, size_t); int __real_close(int);
ssize_t __real_getrandom(void*, size_t, unsigned); int __real_getentropy(void*, size_t);
pid_t __real_fork(void);
int __real_atexit(void (*)(void));
void __real_exit(int) __attribute__((noreturn));
void __real_abort(void) __attribute__((noreturn));
void __real___assert_fail(const char*, const char*, unsigned, const char*) __attribute__((noreturn));
void __real___gmp_set_memory_functions(void* (*)(size_t), void* (*)(void*, size_t, size_t), void (*)(void*, size_t));
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);

int __real_pthread_spin_lock(pthread_spinlock_t*); int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __real_sched_yield(void); int __real_usleep(useconds_t); int __real_nanosleep(const struct timespec*, struct timespec*);
}

namespace sim {
thread_local int in_sut;
static thread_local int g_tid;
AllocCfg mem;
pid_t real_fork() { return __real_fork(); }
int expect_exit;

// ================================================================= memory
// Blocks of the code under test live in their own arena, one region per thread (so that the owner of
// an address is known), with a header, a trailing guard, a controlled fill and a controlled reuse order.
static const u64 ARENA = 0x200000000000ull; static const int REG_SHIFT = 31; static const int NREG = 12;
static const u32 LIVE = 0x11FE11FE, DEAD = 0xDEADB10C;
struct Hdr { u32 magic; u32 size; u32 cap; u32 seq; Hdr* next; u64 pad; };   // 32 bytes
static u8* reg_top[NREG]; static u8* reg_base[NREG];
static const int NCLS = 4096 / 16 + 64;
static Hdr* freel[NCLS];
static u64 n_live, b_live, n_alloc, n_failed, g_seq, n_armed;
static std::vector<Hdr*>* dead_list;    // freed, never reused blocks (no-reuse mode)
static std::vector<Hdr*>* all_blocks;
u64 mem_live_blocks() { return n_live; } u64 mem_live_bytes() { return b_live; }
u64 mem_allocs() { return n_armed; } u64 mem_failed() { return n_failed; }
static const int MAX_SITES = 512; static const void* sites[MAX_SITES]; static int n_sites; static u64 largest;
void mem_arm(u64 at, bool all, int mode) { mem.fail_at = at; mem.fail_all = all; mem.fail_mode = mode; n_armed = 0; n_failed = 0; n_sites = 0; largest = 0; }
u64 mem_sites() { return (u64)n_sites; } u64 mem_largest() { return largest; }
static bool refuse(size_t n, const void* site) {
  n_armed++; n_alloc++; if (n > largest) largest = n;
  bool fresh = true; for (int i = 0; i < n_sites && fresh; i++) fresh = sites[i] != site;
  if (fresh && n_sites < MAX_SITES) sites[n_sites++] = site;
  if (!mem.fail_at) return false;
  bool hit = n_failed ? mem.fail_all != 0 : mem.fail_mode == 0 ? n_armed == mem.fail_at : mem.fail_mode == 1 ? n >= mem.fail_at : fresh && (u64)n_sites == mem.fail_at;
  if (hit) { n_failed++; count("fault.alloc_refused"); errno = ENOMEM; }
  return hit;
}
static inline bool in_arena(const void* p) { return (u64)p >= ARENA && (u64)p < ARENA + ((u64)NREG << REG_SHIFT); }
static inline int owner_of(const void* p) { return (int)(((u64)p - ARENA) >> REG_SHIFT); }
static int cls_of(size_t n, size_t* cap) {
  if (n <= 4096) { int c = (int)((n + 15) / 16); *cap = c ? c * 16 : 16; return c ? c : 1; }
  int l = 13; while (((size_t)1 << l) < n) l++; *cap = (size_t)1 << l; return 4096 / 16 + l - 12;
}
static inline u64 guard_of(Hdr* h) { return 0xC0DEC0DE5AFEull ^ (u64)h->seq * 0x9E3779B97F4A7C15ull; }
static u64 mix(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void fill(u8* p, size_t n, u32 seq) {
  switch (mem.fill) { case 1: memset(p, 0, n); break; case 2: memset(p, 0xFF, n); break; case 3: memset(p, 0xA5, n); break;
    case 4: for (size_t i = 0; i < n; i += 8) { u64 v = mix(mem.salt + seq * 1000003ull + i); memcpy(p + i, &v, n - i < 8 ? n - i : 8); } break; }
}
static std::vector<u64>* needles; static u8 bloom[8192]; static std::map<u64, std::string>* needle_label; static u64 n_scanned;
void secrets_clear() { needles->clear(); needle_label->clear(); memset(bloom, 0, sizeof bloom); }
static void needle(u64 w, const char* label) {
  if (__builtin_popcountll(w) < 12 || __builtin_popcountll(w) > 52) return;    // not recognisable
  needles->push_back(w); std::sort(needles->begin(), needles->end()); (*needle_label)[w] = label; u64 h = mix(w) & 0xFFFF; bloom[h >> 3] |= 1 << (h & 7);
}
void secret_limbs(const void* p, size_t n, const char* l) { for (size_t i = 0; i + 8 <= n; i += 8) { u64 w; memcpy(&w, (const u8*)p + i, 8); needle(w, l); } }
void secret_bytes(const void* p, size_t n, const char* l) { for (size_t i = 0; i + 8 <= n; i++) { u64 w; memcpy(&w, (const u8*)p + i, 8); needle(w, l); } }
u64 secrets_scanned() { return n_scanned; }
static void scan_secret(const u8* p, size_t n, const char* how) {
  if (needles->empty()) return;
  n_scanned++;
  for (size_t i = 0; i + 8 <= n; i++) {
    u64 w; memcpy(&w, p + i, 8); if (!w) continue;
    u64 h = mix(w) & 0xFFFF; if (!(bloom[h >> 3] & (1 << (h & 7)))) continue;
    if (std::binary_search(needles->begin(), needles->end(), w)) { in_sut = 0; violation("secret-left", "a block of %zu bytes was %s while it still contained part of %s (at offset %zu)", n, how, (*needle_label)[w].c_str(), i); }
  }
}
#ifdef SIM_ASAN
static std::map<void*, size_t>* asan_live;
static void untrack(void* p) { auto i = asan_live->find(p); if (i != asan_live->end()) { n_live--; b_live -= i->second; asan_live->erase(i); } }
#endif
static void* sut_alloc(size_t n, bool clear, const void* site) {
  if (refuse(n, site)) return 0;
#ifdef SIM_ASAN
  u8* p = (u8*)__real_malloc(n + 0); if (!p) return 0; if (clear) memset(p, 0, n);
  (*asan_live)[p] = n; n_live++; b_live += n;
  return p;
#else
  size_t cap; int c = cls_of(n, &cap); Hdr* h = 0;
  if (mem.reuse && freel[c] && (c <= 256 || freel[c]->cap >= n)) { h = freel[c]; freel[c] = h->next; }
  else {
    int r = g_tid < NREG ? g_tid : NREG - 1; u8* t = reg_top[r];
    if (t + cap + 64 > reg_base[r] + ((u64)1 << REG_SHIFT)) { count("run.arena_full"); end_run(); }
    h = (Hdr*)t; h->cap = (u32)cap; reg_top[r] += sizeof(Hdr) + cap + 16;
  }
  h->magic = LIVE; h->size = (u32)n; h->seq = (u32)++g_seq; h->next = 0; h->pad = 0x6F6F6F6F6F6F6F6Full;
  u8* p = (u8*)(h + 1);
  if (clear) memset(p, 0, n); else fill(p, n, h->seq);
  u64 g = guard_of(h); memcpy(p + n, &g, 8); memcpy(p + n + 8 <= p + cap + 8 ? p + n + 8 : p + n, &g, 8);
  n_live++; b_live += n;
  return p;
#endif
}
#ifdef SIM_ASAN
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*); extern "C" int __sanitizer_get_ownership(const volatile void*);
#endif
static void chk_block(Hdr* h, const char* what) {
  u8* p = (u8*)(h + 1); u64 g = guard_of(h), g2;
  if (h->magic != LIVE) { in_sut = 0; violation(h->magic == DEAD ? "double-free" : "bad-free", "%s of a block that is not live", what); }
  memcpy(&g2, p + h->size, 8);
  if (g2 != g || h->pad != 0x6F6F6F6F6F6F6F6Full) { in_sut = 0; violation("heap-overrun", "bytes outside a heap block of %u bytes were overwritten (noticed at %s)", h->size, what); }
}
static void sut_free(void* p, bool scan) {
  Hdr* h = (Hdr*)p - 1; chk_block(h, "free");
  if (scan) scan_secret((u8*)p, h->size, "released");
  n_live--; b_live -= h->size;
  h->magic = DEAD;
  if (mem.reuse) { size_t cap; int c = cls_of(h->cap, &cap); if (mem.fill) memset(p, 0xDD, h->size); h->next = freel[c]; freel[c] = h; }
  else { memset(p, 0xDD, h->size); if (dead_list->size() < 20000) dead_list->push_back(h); }
}
std::string mem_live_list() {   // sizes of the live blocks, oldest first per thread
  std::string o; int k = 0;
#ifdef SIM_ASAN
  for (auto& x : *asan_live) if (k++ < 6) o += (o.empty() ? "" : ", ") + std::to_string(x.second) + " bytes";
#else
  for (int r = 0; r < NREG; r++) for (u8* t = reg_base[r]; t < reg_top[r];) { Hdr* h = (Hdr*)t; if (h->magic == LIVE && k++ < 6) { char b[120]; u64 w = 0; memcpy(&w, h + 1, h->size < 8 ? h->size : 8); snprintf(b, sizeof b, "%s%u bytes (allocation %u, thread %d, first word %llx)", o.empty() ? "" : ", ", h->size, h->seq, r, (unsigned long long)w); o += b; } t += sizeof(Hdr) + h->cap + 16; }
#endif
  return o;
}
void mem_check() {
#ifndef SIM_ASAN
  for (Hdr* h : *dead_list) { u8* p = (u8*)(h + 1); for (u32 i = 0; i < h->size; i++) if (p[i] != 0xDD) violation("use-after-free", "a released block of %u bytes was written to", h->size); }
  for (int r = 0; r < NREG; r++) for (u8* t = reg_base[r]; t < reg_top[r];) { Hdr* h = (Hdr*)t; if (h->magic == LIVE) chk_block(h, "final check"); t += sizeof(Hdr) + h->cap + 16; }
#endif
}
static thread_local u64 stale_sink;
__attribute__((noinline, optimize("no-tree-dse"))) static void scribble() {
  volatile u64 buf[1536]; u64 v = mem.fill == 1 ? 0 : mem.fill == 2 ? ~0ull : mix(mem.salt ^ 77);
  for (int i = 0; i < 1536; i++) buf[i] = mem.fill == 4 ? v * (i + 1) : v;
  stale_sink += buf[7];
}
void enter_sut() { if (mem.scribble && !in_sut) scribble(); in_sut++; }
void leave_sut() { in_sut--; }
void mem_random_cfg() {
  mem.fill = (int)choose(5); mem.reuse = !flip(1, 4); mem.salt = choose(1 << 20);
  static const char* fk[] = {"fault.memory_stale", "fault.memory_zeroed", "fault.memory_ff", "fault.memory_a5", "fault.memory_random"};
  count(fk[mem.fill]); if (!mem.reuse) count("fault.memory_never_reused");
  ev("memory: fill=%d reuse=%d", mem.fill, mem.reuse);
}
// GMP's hooks (used until the library installs its own, and always for allocation)
static void* gmp_alloc(size_t n) {
  if (!in_sut) return __real_malloc(n);
  yield_point(2);
  void* p = sut_alloc(n, false, __builtin_return_address(0));
  if (!p) { note_assert("GMP allocation failure"); if (getenv("SIM_STDERR")) fprintf(stderr, "GNU MP: Cannot allocate memory\n"); __real_abort(); }
  return p;
}
static void gmp_free(void* p, size_t) {
  if (!p) return;
#ifdef SIM_ASAN
  untrack(p); __real_free(p);
#else
  if (in_arena(p)) sut_free(p, in_sut); else __real_free(p);
#endif
}
static void* gmp_realloc(void* o, size_t os, size_t n) {
#ifdef SIM_ASAN
  if (in_sut) { void* p = gmp_alloc(n); memcpy(p, o, os < n ? os : n); untrack(o); __real_free(o); return p; }
  untrack(o); return __real_realloc(o, n);
#else
  if (!in_sut && !in_arena(o)) return __real_realloc(o, n);
  void* p = gmp_alloc(n); memcpy(p, o, os < n ? os : n); gmp_free(o, os); return p;
#endif
}

// the library's own memory functions, used for its memory only: the reference model must not depend on them
static void* (*lib_a)(size_t); static void* (*lib_r)(void*, size_t, size_t); static void (*lib_f)(void*, size_t);
static void* disp_alloc(size_t n) { return in_sut && lib_a ? lib_a(n) : gmp_alloc(n); }
#ifdef SIM_ASAN
#define LIBS(p) (in_sut && asan_live->count(p))
#else
#define LIBS(p) (in_sut && in_arena(p))
#endif
static void disp_free(void* p, size_t n) { if (LIBS(p) && lib_f) { yield_point(2); lib_f(p, n); } else gmp_free(p, n); }
static void* disp_realloc(void* o, size_t os, size_t n) { if (LIBS(o) && lib_r) { yield_point(2); return lib_r(o, os, n); } return gmp_realloc(o, os, n); }

// ================================================================= random device
enum { SCRIPT_MAX = 8192 };
struct Dev { u64 key, pos, reads, loghash, faults, hard, fails_in_a_row; u64 script_at; u32 script_len; u64 flip_pos; u8 flip_mask; int persist; u8 script[SCRIPT_MAX]; };
static Dev* dev; int dev_fault_den, dev_fault_mask;
void dev_reset(u64 key) { memset(dev, 0, sizeof *dev); dev->key = mix(key + 99); dev->script_at = ~0ull; }
void dev_script(const void* p, size_t n) { if (n > SCRIPT_MAX) harness_error("device script too long"); dev->script_at = dev->pos; dev->script_len = (u32)n; memcpy(dev->script, p, n); }
void dev_script_clear() { dev->script_at = ~0ull; dev->script_len = 0; }
void dev_flip(u64 pos, u8 mask) { dev->flip_pos = pos; dev->flip_mask = mask; }
u64 dev_pos() { return dev->pos; } void dev_set_pos(u64 p) { dev->pos = p; }
void dev_reset_faults() { dev->persist = 0; dev->fails_in_a_row = 0; }
u64 dev_reads() { return dev->reads; } u64 dev_read_log_hash() { return dev->loghash; }
u64 dev_faults() { return dev->faults; } u64 dev_hard_faults() { return dev->hard; }
u8 dev_byte(u64 pos) {
  u8 b = (u8)mix(dev->key + pos * 0x2545F4914F6CDD1Dull);
  if (pos >= dev->script_at && pos - dev->script_at < dev->script_len) b = dev->script[pos - dev->script_at];
  if (dev->flip_mask && pos == dev->flip_pos) b ^= dev->flip_mask;
  return b;
}
static ssize_t dev_fail(int e) { dev->hard++; if (++dev->fails_in_a_row > 3000) { count("run.stuck_on_dead_device"); _exit(82); } if (e) { errno = e; return -1; } return 0; }
static ssize_t dev_read(void* buf, size_t n) {
  if (n == 0) return 0;
  dev->reads++;
  if (dev->persist == 1) return dev_fail(0);
  if (dev->persist == 2) return dev_fail(EIO);
  size_t want = n;
  if (dev->persist == 3 && n > 1) want = 1;
  else if (dev_fault_den && (dev_fault_mask & ~DF_OPEN) && flip(1, dev_fault_den)) {
    std::vector<int> ks; for (int k : {DF_SHORT, DF_EINTR, DF_EIO, DF_EOF}) if (dev_fault_mask & k) ks.push_back(k);
    if (dev_fault_mask & DF_PERSIST) { ks.push_back(DF_PERSIST); ks.push_back(DF_PERSIST | DF_EIO); } if (dev_fault_mask & DF_SHORTALL) ks.push_back(DF_SHORTALL);
    int k = ks[choose(ks.size())]; dev->faults++;
    switch (k) {
      case DF_SHORT: if (n > 1) { want = 1 + choose(n - 1); count("fault.device_short_read"); ev("device: short read %zu of %zu", want, n); } break;
      case DF_EINTR: count("fault.device_eintr"); ev("device: EINTR"); return dev_fail(EINTR);
      case DF_EIO: count("fault.device_eio"); ev("device: EIO"); return dev_fail(EIO);
      case DF_EOF: count("fault.device_eof"); ev("device: end of file"); return dev_fail(0);
      case DF_PERSIST: count("fault.device_dead_eof"); ev("device: dead (end of file)"); dev->persist = 1; return dev_fail(0);
      case DF_PERSIST | DF_EIO: count("fault.device_dead_eio"); ev("device: dead (EIO)"); dev->persist = 2; return dev_fail(EIO);
      case DF_SHORTALL: count("fault.device_one_byte_at_a_time"); ev("device: one byte per read from now on"); dev->persist = 3; if (n > 1) want = 1; break;
    }
  }
  dev->fails_in_a_row = 0;
  for (size_t i = 0; i < want; i++) ((u8*)buf)[i] = dev_byte(dev->pos + i);
  u64 l[3] = {dev->pos, want, (u64)g_tid}; dev->loghash = hash64(l, sizeof l, dev->loghash);
  dev->pos += want; count("device.bytes", want); step();
  return (ssize_t)want;
}
static ssize_t ck_read(void*, char* b, size_t n) { int s = in_sut; in_sut = 0; ssize_t r = dev_read(b, n); int e = errno; in_sut = s; errno = e; return r; }
static u64 n_files, n_closed; u64 dev_open_files() { return n_files - n_closed; }
static int ck_close(void*) { n_closed++; return 0; }
static bool is_dev(const char* p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static bool open_fails() {
  if (dev_fault_den && (dev_fault_mask & DF_OPEN) && flip(1, dev_fault_den)) { dev->faults++; dev->hard++; count("fault.device_open"); ev("device: open fails"); errno = flip(1, 2) ? EMFILE : ENOENT; return true; }
  return false;
}
static FILE* dev_fopen() { if (open_fails()) return 0; cookie_io_functions_t f = {ck_read, 0, 0, ck_close}; FILE* r = fopencookie((void*)1, "r", f); n_files++; return r; }
enum { FAKE_FD = 900000 };

// ================================================================= process end
static std::vector<void (*)(void)>* handlers;
size_t atexit_pending() { return handlers->size(); }
void run_atexit() { while (!handlers->empty()) { auto f = handlers->back(); handlers->pop_back(); Enter e; f(); } }

// ================================================================= threads
struct Th { pthread_t t; sem_t s; bool done, blocked; const void* on; std::function<void()> fn; u8 *lo, *hi; int id; };
static Th* ths[NREG]; static int n_ths; static bool g_sched; static sem_t g_main;
static u64 gapA, gapB, g_spin; static int strat;
static const u64 NEVER = ~0ull; static bool g_forked;   // forked while threads run: the others do not exist here
static std::map<const void*, int>* once_state;
static thread_local u8 *st_lo, *st_hi;
int cur_tid() { return g_tid; } bool sched_on() { return g_sched; }
static u64 g_switches, g_yields; static u64 sched_hash;
static void draw_gap() {
  // 0 = never again; otherwise the number of further points until the next preemption
  u64 a, b;
  switch (strat) {
    case 0: a = logu(4); b = 0; break;              // dense at shared accesses
    case 1: a = logu(8); b = 0; break;
    case 2: a = logu(12); b = logu(14); break;
    default: a = logu(6); b = logu(10); break;
  }
  gapA = a ? a : NEVER; gapB = b ? b : NEVER;
}
static void switch_to(int next) {
  int me = g_tid; if (next == me) return;
  g_switches++; u64 l[2] = {(u64)next, g_yields}; sched_hash = hash64(l, 16, sched_hash);
  sem_post(&ths[next]->s);
  while (sem_wait(&ths[me]->s)) {}
}
static std::vector<int> runnable(bool others) { std::vector<int> v; for (int i = 1; i <= n_ths; i++) if (!ths[i]->done && !ths[i]->blocked && !(others && i == g_tid)) v.push_back(i); return v; }
static void preempt() {
  int s = in_sut; in_sut = 0;
  std::vector<int> r = runnable(true);
  if (r.empty()) { gapA = gapB = NEVER; in_sut = s; return; }
  u64 k = choose(r.size()); draw_gap();
  ev("t%d preempted -> t%d (after %llu points)", g_tid, r[k], (unsigned long long)g_yields); count("sched.preemptions");
  switch_to(r[k]); in_sut = s;
}
void yield_point(int cls) {
  if (!g_sched || !g_tid || !in_sut) return;
  g_yields++; step();
  if (++g_spin > 3000000) { g_spin = 0; std::vector<int> r = runnable(true); if (!r.empty()) { int s = in_sut; in_sut = 0; ev("t%d has run very long, forced switch", g_tid); switch_to(r[0]); in_sut = s; } return; }
  if (cls == 1) { if (gapA != NEVER && --gapA == 0) { g_spin = 0; preempt(); } }
  else { if (gapB != NEVER && --gapB == 0) { g_spin = 0; preempt(); } }
}
static void block_on(const void* obj) {   // current thread waits for obj; run someone else
  int s = in_sut; in_sut = 0;
  ths[g_tid]->blocked = true; ths[g_tid]->on = obj;
  std::vector<int> r = runnable(false);
  if (r.empty() && g_forked) { count("probe.lock_lost_at_fork"); _exit(82); }   // a lock held by a thread the child does not have
  if (r.empty()) violation("deadlock", "every unfinished thread is waiting for a lock");
  u64 k = choose(r.size()); ev("t%d waits for a lock -> t%d", g_tid, r[k]); switch_to(r[k]); in_sut = s;
}
static void unblock(const void* obj) { for (int i = 1; i <= n_ths; i++) if (ths[i]->blocked && ths[i]->on == obj) ths[i]->blocked = false; }
static void thread_end(int id) {
  ths[id]->done = true;
  std::vector<int> r; bool left = false; for (int i = 1; i <= n_ths; i++) if (!ths[i]->done) { left = true; if (!ths[i]->blocked) r.push_back(i); }
  if (!left) { sem_post(&g_main); return; }
  if (r.empty()) violation("deadlock", "every unfinished thread is waiting for a lock");
  u64 k = choose(r.size()); ev("t%d ends -> t%d", id, r[k]); sem_post(&ths[r[k]]->s);
}
static void* th_main(void* p) {
  Th* t = (Th*)p; g_tid = t->id;
  pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void* sp; size_t sz; pthread_attr_getstack(&a, &sp, &sz); st_lo = (u8*)sp; st_hi = st_lo + sz; pthread_attr_destroy(&a);
  sem_post(&g_main);
  while (sem_wait(&t->s)) {}
  t->fn();
  thread_end(t->id);
  return 0;
}
void run_threads(const std::vector<std::function<void()>>& fns) {
  if (fns.size() >= NREG) harness_error("too many threads");
  n_ths = (int)fns.size(); sem_init(&g_main, 0, 0);
  strat = (int)choose(4);
  for (int i = 1; i <= n_ths; i++) {
    Th* t = ths[i] = new Th(); t->done = t->blocked = false; t->on = 0; t->fn = fns[i - 1]; t->id = i; sem_init(&t->s, 0, 0);
    if (pthread_create(&t->t, 0, th_main, t)) harness_error("pthread_create");
    while (sem_wait(&g_main)) {}
  }
  g_sched = true; g_yields = 0; g_spin = 0; draw_gap();
  u64 k = choose(n_ths); ev("threads start with t%d, strategy %d", (int)k + 1, strat);
  sem_post(&ths[k + 1]->s);
  while (sem_wait(&g_main)) {}
  g_sched = false;
  for (int i = 1; i <= n_ths; i++) pthread_join(ths[i]->t, 0);
  count("sched.points", g_yields); count("sched.switches", g_switches); cover(sched_hash);
}
static void sched_after_fork() { if (!g_sched) return; g_forked = true; for (int i = 1; i <= n_ths; i++) if (i != g_tid) ths[i]->done = true; }

// ================================================================= life cycle
void seams_init() {
  reg_base[0] = 0;
#ifndef SIM_ASAN
  for (int i = 0; i < NREG; i++) {
    void* w = (void*)(ARENA + ((u64)i << REG_SHIFT));
    void* p = mmap(w, (u64)1 << REG_SHIFT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != w) { perror("arena"); __real_exit(3); }
    reg_base[i] = reg_top[i] = (u8*)p;
  }
#endif
#ifdef SIM_ASAN
  asan_live = new std::map<void*, size_t>();
#endif
  dead_list = new std::vector<Hdr*>(); all_blocks = new std::vector<Hdr*>(); handlers = new std::vector<void (*)(void)>();
  needles = new std::vector<u64>(); needle_label = new std::map<u64, std::string>(); once_state = new std::map<const void*, int>();
  __real___gmp_set_memory_functions(disp_alloc, disp_realloc, disp_free);
}
void seams_run_begin() {
  dev = (Dev*)shared_buf(sizeof(Dev)); dev_reset(choose(1u << 30)); dev_fault_den = 0; dev_fault_mask = 0; mem = AllocCfg();
  pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void* sp; size_t sz; pthread_attr_getstack(&a, &sp, &sz); st_lo = (u8*)sp; st_hi = st_lo + sz; pthread_attr_destroy(&a);
}
void seams_run_end() { in_sut = 0; mem_check(); }
}  // namespace sim
using namespace sim;

// ================================================================= wrappers
extern "C" {
#ifdef SIM_ASAN
void* __wrap_malloc(size_t n) { return in_sut ? sut_alloc(n, false, __builtin_return_address(0)) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!in_sut) return __real_calloc(a, b); return sut_alloc(a * b, true, __builtin_return_address(0)); }
void __wrap_free(void* p) { if (p) untrack(p); __real_free(p); }
void* __wrap_realloc(void* p, size_t n) { if (!in_sut) { untrack(p); return __real_realloc(p, n); } if (!p) return sut_alloc(n, false, __builtin_return_address(0));
  void* q = sut_alloc(n, false, __builtin_return_address(0)); if (!q) return 0; size_t o = __sanitizer_get_allocated_size(p); memcpy(q, p, o < n ? o : n); untrack(p); __real_free(p); return q; }
#else
void* __wrap_malloc(size_t n) { if (!in_sut) return __real_malloc(n); yield_point(2); return sut_alloc(n, false, __builtin_return_address(0)); }
void* __wrap_calloc(size_t a, size_t b) { if (!in_sut) return __real_calloc(a, b); if (b && a > ((size_t)1 << 40) / b) { errno = ENOMEM; return 0; } yield_point(2); return sut_alloc(a * b, true, __builtin_return_address(0)); }
void __wrap_free(void* p) { if (!p) return; if (in_arena(p)) { yield_point(2); sut_free(p, in_sut); } else __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (!in_sut && !in_arena(p)) return __real_realloc(p, n);
  if (!p) return __wrap_malloc(n);
  void* q = in_sut ? sut_alloc(n, false, __builtin_return_address(0)) : __real_malloc(n); if (!q) return 0;
  if (in_arena(p)) { Hdr* h = (Hdr*)p - 1; chk_block(h, "realloc"); memcpy(q, p, h->size < n ? h->size : n); sut_free(p, in_sut); }
  else harness_error("realloc of a foreign block");
  return q;
}
#endif
FILE* __wrap_fopen(const char* p, const char* m) { if (in_sut && is_dev(p)) { yield_point(1); Leave l; return dev_fopen(); } return __real_fopen(p, m); }
size_t __wrap_fread(void* b, size_t z, size_t n, FILE* f) { if (in_sut) { yield_point(1); size_t r = __real_fread(b, z, n, f); int e = errno; yield_point(1); errno = e; return r; } return __real_fread(b, z, n, f); }
int __wrap_fclose(FILE* f) { if (in_sut) yield_point(1); return __real_fclose(f); }
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
static int dev_open() { yield_point(1); Leave l; if (open_fails()) return -1; n_files++; return FAKE_FD; }
int __wrap_open(const char* p, int f, ...) { if (in_sut && is_dev(p)) return dev_open(); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(p, f, m); }
int __wrap_open64(const char* p, int f, ...) { if (in_sut && is_dev(p)) return dev_open(); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(p, f, m); }
int __wrap___open_2(const char* p, int f) { return __wrap_open(p, f, 0); }
int __wrap_openat(int d, const char* p, int f, ...) { if (in_sut && is_dev(p)) return dev_open(); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_openat(d, p, f, m); }
static ssize_t rd(void* b, size_t n) { yield_point(1); ssize_t r; { Leave l; r = dev_read(b, n); } int e = errno; yield_point(1); errno = e; return r; }
ssize_t __wrap_read(int fd, void* b, size_t n) { if (in_sut && fd == FAKE_FD) return rd(b, n); return __real_read(fd, b, n); }
ssize_t __wrap___read_chk(int fd, void* b, size_t n, size_t) { return __wrap_read(fd, b, n); }
int __wrap_close(int fd) { if (fd == FAKE_FD) { n_closed++; return 0; } return __real_close(fd); }
ssize_t __wrap_getrandom(void* b, size_t n, unsigned f) { if (in_sut) return rd(b, n); return __real_getrandom(b, n, f); }
int __wrap_getentropy(void* b, size_t n) { if (!in_sut) return __real_getentropy(b, n); size_t d = 0; while (d < n) { ssize_t r = rd((u8*)b + d, n - d); if (r < 0 && errno == EINTR) continue; if (r <= 0) { errno = EIO; return -1; } d += r; } return 0; }
void __wrap_arc4random_buf(void* b, size_t n) { size_t d = 0; while (d < n) { ssize_t r = rd((u8*)b + d, n - d); if (r > 0) d += r; } }
pid_t __wrap_fork(void) { pid_t p = __real_fork(); if (p == 0) sched_after_fork(); return p; }
int __wrap_atexit(void (*f)(void)) { if (in_sut) { Leave l; handlers->push_back(f); return 0; } return __real_atexit(f); }
void __wrap_exit(int c) { if (in_sut) { in_sut = 0; _exit(c & 255); } __real_exit(c); }
void __wrap_abort(void) { __real_abort(); }
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  in_sut = 0; char b[400]; const char* s = strrchr(f, '/'); snprintf(b, sizeof b, "assertion failed: %s (%s, %s)", e, s ? s + 1 : f, fn); (void)l; note_assert(b);
  if (getenv("SIM_STDERR")) fprintf(stderr, "%s\n", b);
  __real_abort();
}
void __wrap___gmp_set_memory_functions(void* (*a)(size_t), void* (*r)(void*, size_t, size_t), void (*f)(void*, size_t)) { lib_a = a; lib_r = r; lib_f = f; }
#define TH (g_sched && g_tid && in_sut)
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!TH) return __real_pthread_mutex_lock(m); yield_point(1); int r; while ((r = __real_pthread_mutex_trylock(m)) == EBUSY) block_on(m); yield_point(1); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (TH) yield_point(1); return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!TH) return __real_pthread_mutex_unlock(m); yield_point(1); int r = __real_pthread_mutex_unlock(m); unblock(m); yield_point(1); return r; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!g_sched) { int& s = (*once_state)[o]; if (s != 2) { s = 2; f(); } return 0; }
  yield_point(1);
  for (;;) { int st; { Leave l; st = (*once_state)[o]; } if (st == 2) return 0; if (st == 0) { { Leave l; (*once_state)[o] = 1; } f(); { Leave l; (*once_state)[o] = 2; } unblock(o); return 0; } block_on(o); }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!TH) return __real_pthread_rwlock_rdlock(m); yield_point(1); int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) block_on(m); yield_point(1); return r; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!TH) return __real_pthread_rwlock_wrlock(m); yield_point(1); int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) block_on(m); yield_point(1); return r; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!TH) return __real_pthread_rwlock_unlock(m); yield_point(1); int r = __real_pthread_rwlock_unlock(m); unblock(m); yield_point(1); return r; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { if (!TH) return __real_pthread_spin_lock(m); yield_point(1); while (pthread_spin_trylock(m) == EBUSY) block_on((const void*)m); return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { if (!TH) return __real_pthread_spin_unlock(m); yield_point(1); int r = __real_pthread_spin_unlock(m); unblock((const void*)m); yield_point(1); return r; }
static void spin_hint() { if (!TH) return; int s = in_sut; in_sut = 0; std::vector<int> r = runnable(true); if (!r.empty()) switch_to(r[choose(r.size())]); in_sut = s; }
int __wrap_sched_yield(void) { if (TH) { spin_hint(); return 0; } return __real_sched_yield(); }
int __wrap_usleep(useconds_t u) { if (in_sut) { step(u); spin_hint(); return 0; } return __real_usleep(u); }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { if (in_sut) { step(); spin_hint(); return 0; } return __real_nanosleep(a, b); }
void __gmp_dummy_never(void) {}
// block and thread bookkeeping used by victims
void sim_after_fork(void) { sched_after_fork(); }

// ---------------- own runtime for -fsanitize=thread instrumentation: every access is a scheduling point
#ifdef SIM_TSAN
extern char __executable_start, __data_start, _end;
static inline void acc(void* a) {
  if (!g_sched || !in_sut || !g_tid) return;
  u8* p = (u8*)a;
  if (p >= st_lo && p < st_hi) return;
  if (in_arena(p)) { yield_point(owner_of(p) != g_tid ? 1 : 2); return; }
  if (p >= (u8*)&__executable_start && p < (u8*)&__data_start) return;   // constants
  if (p >= (u8*)&__data_start && p < (u8*)&_end) { yield_point(1); return; }
  yield_point(1);   // elsewhere (another thread's stack, thread-local, libc): rare
}
static inline bool is_shared(const void* a) { const u8* p = (const u8*)a; return in_arena(p) ? owner_of(p) != g_tid : p >= (u8*)&__data_start && p < (u8*)&_end; }
void sim_call_hook(const void* a, const void* b, const void* c) { if (!g_sched || !in_sut || !g_tid) return; int e = errno; yield_point(is_shared(a) || is_shared(b) || is_shared(c) ? 1 : 2); errno = e; }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {} void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void* a) { acc(a); } void __tsan_write##n(void* a) { acc(a); } void __tsan_unaligned_read##n(void* a) { acc(a); } void __tsan_unaligned_write##n(void* a) { acc(a); } \
  void __tsan_volatile_read##n(void* a) { acc(a); } void __tsan_volatile_write##n(void* a) { acc(a); } void __tsan_unaligned_volatile_read##n(void* a) { acc(a); } void __tsan_unaligned_volatile_write##n(void* a) { acc(a); } \
  void __tsan_read_write##n(void* a) { acc(a); } void __tsan_unaligned_read_write##n(void* a) { acc(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t) { acc(a); } void __tsan_write_range(void* a, size_t) { acc(a); }
void __tsan_vptr_update(void** a, void*) { acc(a); } void __tsan_vptr_read(void** a) { acc(a); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { acc((void*)a); return __atomic_load_n(a, 5); } void __tsan_atomic##b##_store(volatile T* a, T v, int) { acc((void*)a); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { acc((void*)a); return __atomic_exchange_n(a, v, 5); } T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { acc((void*)a); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { acc((void*)a); return __atomic_fetch_sub(a, v, 5); } T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { acc((void*)a); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { acc((void*)a); return __atomic_fetch_or(a, v, 5); } T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { acc((void*)a); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { acc((void*)a); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { acc((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { acc((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { acc((void*)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#endif
}
