// Seams under the Go binding: C heap (no reuse, poisoned, accounted), random device, and an event at every
// allocation and at every entry into the library at which the simulator can run the collector or another task.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
extern void goSeam(int);
int sim_gc = 0, sim_armed = 0; long sim_ev = 0, sim_gc_at = 0, sim_sw_at = 0, sim_seams = 0, sim_frees = 0;
static __thread int held;   // a task that holds a lock is not interrupted: it would only make the others wait
void sim_enter(void) {
  if (!sim_armed || sim_gc || held) return;
  sim_ev++; sim_seams++;
  int k = (sim_ev == sim_gc_at ? 1 : 0) | (sim_ev == sim_sw_at ? 2 : 0);
  if (k) goSeam(k);
}
static void fail(const char *cls, const char *msg) { char b[300]; int n = snprintf(b, sizeof b, "SIMFAIL %s %s\n", cls, msg); if (write(2, b, n) < 0) {} _exit(86); }
// ---- heap
#define ARENA ((size_t)1 << 31)
typedef struct { uint32_t magic, freed; size_t n; } head;
static char *arena; static size_t used; static long live_, mark_;
static size_t total(size_t n) { return (n + sizeof(head) + 16 + 15) & ~(size_t)15; }
static void *get(size_t n) {
  if (!arena) { char *a = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *z = 0; if (a == MAP_FAILED) fail("harness", "no arena"); if (!__atomic_compare_exchange_n(&arena, &z, a, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) munmap(a, ARENA); }
  size_t t = total(n), o = __atomic_fetch_add(&used, t, __ATOMIC_SEQ_CST);
  if (o + t > ARENA) fail("harness", "arena exhausted");
  head *h = (head *)(arena + o); h->magic = 0x51ABCD01; h->freed = 0; h->n = n;
  unsigned char *p = (unsigned char *)(h + 1); memset(p, 0xA7, n); memset(p + n, 0x5C, t - sizeof(head) - n);
  __atomic_fetch_add(&live_, 1, __ATOMIC_SEQ_CST); return p;
}
static head *own(void *p, const char *what) {
  if ((char *)p < arena || (char *)p >= arena + used) fail("memory", what);
  head *h = (head *)p - 1; if (h->magic != 0x51ABCD01) fail("memory", "a block header is damaged");
  if (h->freed) fail("memory", "a block is released twice");
  unsigned char *c = p; for (size_t i = h->n; i < total(h->n) - sizeof(head); i++) if (c[i] != 0x5C) fail("memory", "write behind a block");
  return h;
}
static void put(void *p) { head *h = own(p, "release of foreign memory"); h->freed = 1; __atomic_fetch_add(&sim_frees, 1, __ATOMIC_SEQ_CST); memset(p, 0xDB, h->n); __atomic_fetch_sub(&live_, 1, __ATOMIC_SEQ_CST); }
long sim_live(void) { return live_ - mark_; }
void sim_mark(void) { mark_ = live_; }
// blocks written after their release, or past their end
long sim_written(void) {
  long bad = 0;
  for (size_t o = 0; o < used;) {
    head *h = (head *)(arena + o); unsigned char *p = (unsigned char *)(h + 1); size_t t = total(h->n);
    if (h->magic != 0x51ABCD01) return bad + 1;
    int b = 0; if (h->freed) for (size_t i = 0; i < h->n; i++) if (p[i] != 0xDB) b = 1;
    for (size_t i = h->n; i < t - sizeof(head); i++) if (p[i] != 0x5C) b = 1;
    bad += b; o += t;
  }
  return bad;
}
void *__wrap_malloc(size_t n) { return get(n); }
void *__wrap_calloc(size_t a, size_t b) { if (b && a > ARENA / b) return 0; void *p = get(a * b); memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *o, size_t n) { void *p = get(n); if (o) { head *h = own(o, "growing foreign memory"); memcpy(p, o, h->n < n ? h->n : n); put(o); } return p; }
void __real_free(void *);
void __wrap_free(void *p) { if (!p) return; if (arena && (char *)p >= arena && (char *)p < arena + ARENA) put(p); else __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __wrap_malloc(strlen(s) + 1); strcpy(p, s); return p; }
char *__wrap_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = __wrap_malloc(l + 1); memcpy(p, s, l); p[l] = 0; return p; }
// ---- random device
static uint64_t dev_seed = 1, dev_pos = 0;
void sim_seed(uint64_t s) { dev_seed = s; dev_pos = 0; }
static void dev_fill(void *b, size_t n) { unsigned char *p = b; for (size_t i = 0; i < n; i++) { uint64_t z = dev_seed + 0x9e3779b97f4a7c15ull * (dev_pos++ + 1); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; p[i] = (unsigned char)(z >> 24); } }
static int is_dev(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static ssize_t ck_read(void *c, char *b, size_t n) { (void)c; dev_fill(b, n); return n; }
static FILE *dev_file(void) { cookie_io_functions_t f; memset(&f, 0, sizeof f); f.read = ck_read; return fopencookie(NULL, "rb", f); }
static int dev_fds[64], n_dev_fds;
FILE *__real_fopen(const char *, const char *); FILE *__real_fdopen(int, const char *); int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int);
static int dev_open(void) { int fd = __real_open("/dev/null", O_RDONLY | O_CLOEXEC); if (fd >= 0 && n_dev_fds < 64) dev_fds[n_dev_fds++] = fd; return fd; }
static int is_dev_fd(int fd) { for (int i = 0; i < n_dev_fds; i++) if (dev_fds[i] == fd) return i + 1; return 0; }
FILE *__wrap_fopen(const char *p, const char *m) { return is_dev(p) ? dev_file() : __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) { return is_dev_fd(fd) ? dev_file() : __real_fdopen(fd, m); }
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); return is_dev(p) ? dev_open() : __real_open(p, fl, md); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); return __wrap_open(p, fl, md); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (n_dev_fds && is_dev_fd(fd)) { dev_fill(b, n); return n; } return __real_read(fd, b, n); }
int __wrap_close(int fd) { int i = n_dev_fds ? is_dev_fd(fd) : 0; if (i) dev_fds[i - 1] = dev_fds[--n_dev_fds]; return __real_close(fd); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { (void)f; dev_fill(b, n); return n; }
int __wrap_getentropy(void *b, size_t n) { dev_fill(b, n); return 0; }
int __real_pthread_mutex_lock(void *); int __real_pthread_mutex_trylock(void *); int __real_pthread_mutex_unlock(void *);
int __wrap_pthread_mutex_lock(void *m) { int r = __real_pthread_mutex_lock(m); if (!r) held++; return r; }
int __wrap_pthread_mutex_trylock(void *m) { int r = __real_pthread_mutex_trylock(m); if (!r) held++; return r; }
int __wrap_pthread_mutex_unlock(void *m) { int r = __real_pthread_mutex_unlock(m); if (!r) held--; return r; }
// the allocations of the library itself are events, those of the Go runtime and of the harness are not
void *simL_malloc(size_t n) { sim_enter(); return __wrap_malloc(n); }
void *simL_calloc(size_t a, size_t b) { sim_enter(); return __wrap_calloc(a, b); }
void *simL_realloc(void *o, size_t n) { sim_enter(); return __wrap_realloc(o, n); }
void simL_free(void *p) { sim_enter(); __wrap_free(p); }
