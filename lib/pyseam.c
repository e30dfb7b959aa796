// Seams under the Python binding: the random device, and exact accounting of the C heap.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#define EXPORT __attribute__((visibility("default")))
static uint64_t dev_seed = 1, dev_pos = 0; static long dev_reads = 0;
static unsigned char dev_byte(void) { uint64_t z = dev_seed + 0x9e3779b97f4a7c15ull * (dev_pos++ + 1); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return (unsigned char)(z >> 24); }
static void dev_fill(void *b, size_t n) { unsigned char *p = b; dev_reads++; for (size_t i = 0; i < n; i++) p[i] = dev_byte(); }
EXPORT void sim_seed(uint64_t s) { dev_seed = s; dev_pos = 0; }
EXPORT uint64_t sim_dev_pos(void) { return dev_pos; }
static int is_dev(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static ssize_t ck_read(void *c, char *b, size_t n) { dev_fill(b, n); return n; }
static FILE *dev_file(void) { cookie_io_functions_t f; memset(&f, 0, sizeof f); f.read = ck_read; return fopencookie(NULL, "rb", f); }
static int dev_fds[64], n_dev_fds;
static int dev_open(void) { extern int __real_open(const char *, int, ...); int fd = __real_open("/dev/null", O_RDONLY | O_CLOEXEC); if (fd >= 0 && n_dev_fds < 64) dev_fds[n_dev_fds++] = fd; return fd; }
static int is_dev_fd(int fd) { for (int i = 0; i < n_dev_fds; i++) if (dev_fds[i] == fd) return i + 1; return 0; }
FILE *__real_fopen(const char *, const char *); FILE *__real_fdopen(int, const char *); int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int);
FILE *__wrap_fopen(const char *p, const char *m) { return is_dev(p) ? dev_file() : __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) { return is_dev_fd(fd) ? dev_file() : __real_fdopen(fd, m); }
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); return is_dev(p) ? dev_open() : __real_open(p, fl, md); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); return __wrap_open(p, fl, md); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (is_dev_fd(fd)) { dev_fill(b, n); return n; } return __real_read(fd, b, n); }
int __wrap_close(int fd) { int i = is_dev_fd(fd); if (i) dev_fds[i - 1] = dev_fds[--n_dev_fds]; return __real_close(fd); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { (void)f; dev_fill(b, n); return n; }
int __wrap_getentropy(void *b, size_t n) { dev_fill(b, n); return 0; }
// the C heap of the extension, the library and GMP (which allocates through the library's hooks)
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static void **tab; static size_t cap; static long live, total;
static size_t hs(void *p) { return ((((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 32) & (cap - 1); }
static void ins(void *p) { size_t i = hs(p); while (tab[i]) i = (i + 1) & (cap - 1); tab[i] = p; }
static void put(void *p) {
  if (!p) return;
  total++; live++;
  if ((size_t)live * 2 > cap) { void **o = tab; size_t n = cap; cap = cap ? cap * 2 : 1 << 16; tab = __real_calloc(cap, sizeof *tab); if (!tab) abort(); for (size_t i = 0; i < n; i++) if (o[i]) ins(o[i]); __real_free(o); }
  ins(p);
}
static int take(void *p) {
  if (!p || !cap) return 0;
  size_t i = hs(p);
  while (tab[i] && tab[i] != p) i = (i + 1) & (cap - 1);
  if (!tab[i]) return 0;
  live--; tab[i] = 0;
  for (size_t k = (i + 1) & (cap - 1); tab[k]; k = (k + 1) & (cap - 1)) { void *q = tab[k]; tab[k] = 0; ins(q); }
  return 1;
}
EXPORT long sim_live(void) { return live; }
EXPORT long sim_total(void) { return total; }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); put(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); put(p); return p; }
void *__wrap_realloc(void *o, size_t n) { int t = take(o); void *p = __real_realloc(o, n); if (!p && n && t) { put(o); return p; } put(p); return p; }
void __wrap_free(void *p) { take(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __wrap_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
char *__wrap_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = __wrap_malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
