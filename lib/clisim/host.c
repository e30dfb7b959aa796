// Host of the command-line programs: every command is a forked child which runs the real main() of a
// program with its standard streams, its files, its random device and libsodium's random source served
// from a simulated machine which the driver describes in shared memory.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sodium.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#define NF 8
#define OUTCAP (8u << 20)
#define INCAP (8u << 20)
#define ERRCAP 16384u
enum { ENONE, EEIO, EENOSPC, EKILL, EPIPESIG };
struct file { char name[64]; uint32_t exists, off, len, chunk, fail_at, fail_kind, fail_times, keep_going; };
struct shm {
  uint32_t prog, argc; char args[16][80];
  uint64_t seed; uint32_t dev_mode, dev_at;            // random device: 1 open fails, 2 ends after dev_at bytes, 3 error after dev_at bytes, 4 its first dev_at bytes are zero
  uint32_t out_fail_at, out_kind, out_times, out_buf, err_fail;
  uint32_t nfiles; struct file f[NF];                  // f[0] is standard input
  // results
  uint32_t outlen, errlen, reads, writes, opens, injected, devbytes, status, hang, killed;
  char err[ERRCAP]; unsigned char in[INCAP], out[OUTCAP];
};
static struct shm *S;
#define P(n) extern int main_##n(int, char **);
P(ecdh_gen) P(ecdh_pub) P(ecdh_enc) P(ecdh_dec) P(ecdsa_sign) P(ecdsa_verify) P(ecelgamal_enc) P(ecelgamal_dec)
static int (*mains[])(int, char **) = { main_ecdh_gen, main_ecdh_pub, main_ecdh_enc, main_ecdh_dec, main_ecdsa_sign, main_ecdsa_verify, main_ecelgamal_enc, main_ecelgamal_dec };
static const char *names[] = { "ecdh_gen", "ecdh_pub", "ecdh_enc", "ecdh_dec", "ecdsa_sign", "ecdsa_verify", "ecelgamal_enc", "ecelgamal_dec" };
static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t dev_pos, sod_pos;
// the random device; a long random stream in which the bytes of a degenerate draw can be planned by the seed
static int dev_take(unsigned char *b, size_t n, size_t *got) {
  *got = 0;
  for (size_t i = 0; i < n; i++) {
    if ((S->dev_mode == 2 || S->dev_mode == 3) && dev_pos >= S->dev_at) { S->injected |= 1; if (S->dev_mode == 3) { errno = EIO; return -1; } return 0; }
    dev_pos++; b[i] = (S->dev_mode == 4 && dev_pos <= S->dev_at) ? 0 : (unsigned char)(mix(S->seed + 0x9e3779b97f4a7c15ull * dev_pos) >> 24);
    (*got)++;
  }
  S->devbytes += n; return 0;
}
static void sim_exit(int hang) { S->hang = hang; _exit(97); }
static int idling;    // calls since the last byte of a file moved
static void idle(void) { if (++idling > 8000) sim_exit(1); }
static ssize_t dev_read(void *c, char *b, size_t n) { size_t g; idle(); if (dev_take((unsigned char *)b, n, &g) && !g) return -1; return (ssize_t)g; }
static void sod_buf(void *const b, const size_t n) { unsigned char *p = b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(mix(~S->seed + 0x9e3779b97f4a7c15ull * ++sod_pos) >> 16); }
static uint32_t sod_u32(void) { uint32_t v; sod_buf(&v, 4); return v; }
static const char *sod_name(void) { return "sim"; }
static void sod_stir(void) {}
static int sod_close(void) { return 0; }
static randombytes_implementation sod = { sod_name, sod_u32, sod_stir, NULL, sod_buf, sod_close };
// simulated files
struct rd { struct file *f; uint32_t pos, fails; };
static ssize_t f_read(void *c, char *b, size_t n) {
  struct rd *r = c; struct file *f = r->f; S->reads++; idle();
  if (f->fail_kind && r->pos >= f->fail_at && r->fails < f->fail_times) {
    r->fails++; S->injected |= 2;
    if (f->fail_kind == EKILL) { S->killed = 1; raise(SIGKILL); }
    errno = EIO; return -1;
  }
  uint32_t left = f->len - r->pos; if (f->fail_kind && r->fails < f->fail_times && f->fail_at - r->pos < left) left = f->fail_at - r->pos;
  if (n > left) n = left;
  if (f->chunk && n > f->chunk) n = f->chunk;
  memcpy(b, S->in + f->off + r->pos, n); r->pos += n; if (n) idling = 0; return (ssize_t)n;
}
static uint32_t outfails;
static ssize_t o_write(void *c, const char *b, size_t n) {
  S->writes++; idle();
  size_t ok = n; int fail = 0;
  if (S->out_kind && S->outlen + n > S->out_fail_at && outfails < S->out_times) { fail = 1; ok = S->out_fail_at > S->outlen ? S->out_fail_at - S->outlen : 0; outfails++; S->injected |= 4; }
  if (S->outlen + ok > OUTCAP) sim_exit(2);
  memcpy(S->out + S->outlen, b, ok); S->outlen += ok; if (ok) idling = 0;
  if (fail) {
    if (S->out_kind == EKILL) { S->killed = 1; raise(SIGKILL); }
    if (S->out_kind == EPIPESIG) { S->killed = 1; signal(SIGPIPE, SIG_DFL); raise(SIGPIPE); }
    errno = S->out_kind == EENOSPC ? ENOSPC : EIO;
  }
  return (ssize_t)ok;
}
static ssize_t e_write(void *c, const char *b, size_t n) {
  if (S->err_fail) { errno = EIO; return 0; }
  size_t k = S->errlen + n > ERRCAP ? ERRCAP - S->errlen : n; memcpy(S->err + S->errlen, b, k); S->errlen += k; return (ssize_t)n;
}
static FILE *reader(struct file *f) { struct rd *r = calloc(1, sizeof *r); r->f = f; cookie_io_functions_t io = { f_read, NULL, NULL, NULL }; return fopencookie(r, "r", io); }
static FILE *devfile(void) { if (S->dev_mode == 1) { S->injected |= 1; errno = EMFILE; return NULL; } cookie_io_functions_t io = { dev_read, NULL, NULL, NULL }; return fopencookie(NULL, "r", io); }
static int is_dev(const char *p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }
static struct file *find(const char *p) { for (uint32_t i = 1; i < S->nfiles; i++) if (S->f[i].exists && !strncmp(S->f[i].name, p, 64)) return &S->f[i]; return NULL; }
// descriptors of open(): 0x4000 the device, 0x4100 + i a file
static struct rd fdrd[NF];
FILE *__wrap_fopen(const char *p, const char *m) {
  S->opens++; if (is_dev(p)) return devfile();
  struct file *f = find(p); if (!f || *m != 'r') { S->injected |= 8; errno = ENOENT; return NULL; }
  return reader(f);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __wrap_open(const char *p, int fl, ...) {
  S->opens++; if (is_dev(p)) { if (S->dev_mode == 1) { S->injected |= 1; errno = EMFILE; return -1; } return 0x4000; }
  struct file *f = find(p); if (!f || (fl & O_ACCMODE) != O_RDONLY) { errno = ENOENT; return -1; }
  fdrd[f - S->f].f = f; fdrd[f - S->f].pos = 0; return 0x4100 + (int)(f - S->f);
}
int __wrap_open64(const char *p, int fl, ...) { return __wrap_open(p, fl); }
FILE *__real_fdopen(int, const char *); ssize_t __real_read(int, void *, size_t); int __real_close(int);
FILE *__wrap_fdopen(int fd, const char *m) { if (fd == 0x4000) return devfile(); if (fd >= 0x4100 && fd < 0x4100 + NF) return reader(&S->f[fd - 0x4100]); return __real_fdopen(fd, m); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fd == 0x4000) return dev_read(NULL, b, n); if (fd >= 0x4100 && fd < 0x4100 + NF) return f_read(&fdrd[fd - 0x4100], b, n); return __real_read(fd, b, n); }
int __wrap_close(int fd) { if (fd >= 0x4000 && fd < 0x4100 + NF) return 0; return __real_close(fd); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) { size_t g; idle(); if (S->dev_mode == 1) { S->injected |= 1; errno = ENOSYS; return -1; } if (dev_take(b, n, &g) && !g) return -1; return (ssize_t)g; }
int __wrap_getentropy(void *b, size_t n) { size_t g; if (S->dev_mode == 1 || dev_take(b, n, &g) || g != n) { S->injected |= 1; errno = EIO; return -1; } return 0; }
static void child(void) {
  struct rlimit l = { 6, 8 }; setrlimit(RLIMIT_CPU, &l); l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l);
  cookie_io_functions_t o = { NULL, o_write, NULL, NULL }, e = { NULL, e_write, NULL, NULL };
  stdin = reader(&S->f[0]); stdout = fopencookie(NULL, "w", o); stderr = fopencookie(NULL, "w", e); setvbuf(stderr, NULL, _IONBF, 0);
  if (S->out_buf == 1) setvbuf(stdout, NULL, _IONBF, 0); else if (S->out_buf) setvbuf(stdout, NULL, _IOFBF, S->out_buf);
  randombytes_set_implementation(&sod);
  char *argv[18]; argv[0] = (char *)names[S->prog]; for (uint32_t i = 0; i < S->argc; i++) argv[i + 1] = strdup(S->args[i]);
  argv[S->argc + 1] = NULL;
  exit(mains[S->prog]((int)S->argc + 1, argv));
}
int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("CLISIM_RE")) { setenv("CLISIM_RE", "1", 1); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
  if (argc > 1 && !strcmp(argv[1], "size")) { printf("%zu\n", sizeof *S); return 0; }
  int fd = atoi(argv[1]); S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (S == MAP_FAILED) return 96;
  char ch;
  while (__real_read(0, &ch, 1) == 1) {
    S->outlen = S->errlen = S->reads = S->writes = S->opens = S->injected = S->devbytes = S->hang = S->killed = 0;
    pid_t p = fork(); if (p < 0) return 95;
    if (!p) child();
    int st; waitpid(p, &st, 0); S->status = (uint32_t)st;
    if (write(1, "R", 1) != 1) return 94;
  }
  return 0;
}
