#include "core.h"
#include "seams.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <map>
#include <set>
#include <algorithm>

extern "C" void sim_after_fork(void);
namespace sim {
enum { MAXC = 1 << 17, MAXCNT = 192, MAXCOV = 256, TRACE = 1 << 16, SHBUF = 1 << 22 };
enum { ST_RUN = 0, ST_OK = 1, ST_VIOL = 2, ST_HERR = 3 };
struct Sh {
  volatile int status;
  char cls[96];
  char msg[4096];
  char asrt[512];
  char doing[200];
  u64 rng[4];
  u64 loghash, nev, steps;
  int replaying;
  u32 nreplay, ridx;
  u32 nchoices, rpos;
  u32 ncnt;
  struct { char name[44]; u64 v; } cnt[MAXCNT];
  u32 ncov; u64 cov[MAXCOV];
  u32 tlen; char trace[TRACE];
  u32 sbuf; 
  u64 choices[MAXC];
  u64 replay[MAXC];
  u8 buf[SHBUF];
};
static Sh* sh;
static int g_depth;            // >0 in a victim
static bool g_replica; static u32 g_rend;
static int g_quiet;            // replicas: no log, no counters

static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rng_next() {
  u64* s = sh->rng; u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r;
}
static void rng_seed(u64 x) {
  for (int i = 0; i < 4; i++) { x += 0x9E3779B97F4A7C15ull; u64 z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; sh->rng[i] = z ^ (z >> 31); }
}
template <class F> static u64 raw(F gen, u64 bound) {
  u64 v;
  if (g_replica) return sh->rpos < g_rend ? sh->choices[sh->rpos++] : 0;
  if (sh->replaying) { v = sh->ridx < sh->nreplay ? sh->replay[sh->ridx] : 0; sh->ridx++; if (bound) v %= bound; }
  else v = gen();
  if (sh->nchoices >= MAXC) { count("run.choice_overflow"); end_run(); }
  sh->choices[sh->nchoices++] = v;
  return v;
}
u64 choose(u64 n) { if (n <= 1) return 0; return raw([&] { return rng_next() % n; }, n); }
u64 choose_w(const std::vector<int>& w) {
  u64 tot = 0; for (int x : w) tot += x;
  return raw([&] { u64 r = rng_next() % tot; for (size_t i = 0; i < w.size(); i++) { if (r < (u64)w[i]) return (u64)i; r -= w[i]; } return (u64)0; }, w.size());
}
bool flip(u64 num, u64 den) { return raw([&] { return (u64)(rng_next() % den < num); }, 2); }
u64 bits64() {
  return raw([&] { u64 r = rng_next(), k = rng_next() % 16; 
    if (k == 0) return (u64)(r % 8); if (k == 1) return r % 65536; if (k == 2) return ~(r % 8); if (k == 3) return (u64)1 << (r % 64); return r; }, 0);
}
u64 logu(int m) { return raw([&] { u64 k = rng_next() % (m + 1); if (!k) return (u64)0; return ((u64)1 << (k - 1)) + rng_next() % ((u64)1 << (k - 1)); }, (u64)1 << m); }

u64 hash64(const void* p, size_t n, u64 h) { const u8* b = (const u8*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } h ^= h >> 29; return h; }
void ev(const char* fmt, ...) {
  char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  if (g_quiet) return;
  sh->loghash = hash64(b, n, sh->loghash); sh->nev++;
  if (sh->tlen + n + 2 < TRACE) { memcpy(sh->trace + sh->tlen, b, n); sh->tlen += n; sh->trace[sh->tlen++] = '\n'; }
}
void count(const char* name, u64 n) {
  if (g_quiet) return;
  for (u32 i = 0; i < sh->ncnt; i++) if (!strcmp(sh->cnt[i].name, name)) { sh->cnt[i].v += n; return; }
  if (sh->ncnt < MAXCNT) { snprintf(sh->cnt[sh->ncnt].name, 44, "%s", name); sh->cnt[sh->ncnt++].v = n; }
}
void cover(u64 h) { if (g_quiet) return; if (sh->ncov < MAXCOV) sh->cov[sh->ncov++] = h; }
void step(u64 n) { if (!g_quiet) sh->steps += n; }
const char* assert_text() { return sh->asrt; }
void doing(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(sh->doing, sizeof sh->doing, fmt, ap); va_end(ap); }
void note_assert(const char* t) { snprintf(sh->asrt, sizeof sh->asrt, "%s", t); }
static void fin(int code) { _exit(code); }
void violation(const char* cls, const char* fmt, ...) {
  if (g_replica) fin(78);
  va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
  snprintf(sh->cls, sizeof sh->cls, "%s", cls);
  sh->status = ST_VIOL; fin(77); __builtin_unreachable();
}
void harness_error(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
  snprintf(sh->cls, sizeof sh->cls, "harness-error"); sh->status = ST_HERR; fin(79); __builtin_unreachable();
}
void end_run() { if (g_replica || g_depth) fin(80); sh->status = ST_OK; fin(0); __builtin_unreachable(); }
void* shared_buf(size_t n) { n = (n + 15) & ~(size_t)15; if (sh->sbuf + n > SHBUF) harness_error("shared_buf full"); void* p = sh->buf + sh->sbuf; sh->sbuf += n; return p; }
u64 choice_pos() { return sh->nchoices; }
bool in_replica() { return g_replica; }

static void cpu_limit(int sec) { struct itimerval it = {{0, 0}, {sec, 0}}; setitimer(ITIMER_PROF, &it, 0); }
static Victim decode(int st) {
  Victim v;
  if (WIFSIGNALED(st)) { v.kind = WTERMSIG(st) == SIGPROF ? 3 : 2; v.code = WTERMSIG(st); return v; }
  int c = WEXITSTATUS(st);
  if (c == 99) violation("sanitizer", "memory error or undefined behaviour reported by the sanitizer in %s (set SIM_STDERR=1 and replay to see it)", sh->doing);
  if (c == 77 || c == 79) fin(c);           // violation or harness error inside: already recorded
  if (c == 80) { end_run(); }
  if (c == 81) { v.kind = 0; v.code = 0; return v; }
  if (c == 82) { v.kind = 3; v.code = 0; return v; }
  v.kind = 1; v.code = c; return v;
}
Victim victim(const std::function<void()>& f) {
  pid_t p = real_fork();
  if (p < 0) harness_error("fork: %s", strerror(errno));
  if (p == 0) { g_depth++; sim_after_fork(); prctl(PR_SET_PDEATHSIG, SIGKILL); cpu_limit(10); f(); _exit(81); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return decode(st);
}
Victim replica(u64 from, const std::function<void()>& f) {
  pid_t p = real_fork();
  if (p < 0) harness_error("fork: %s", strerror(errno));
  if (p == 0) { g_depth++; g_replica = true; g_quiet = 1; sh->rpos = (u32)from; g_rend = sh->nchoices; sim_after_fork(); prctl(PR_SET_PDEATHSIG, SIGKILL); cpu_limit(10); f(); _exit(81); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 79) harness_error("in replica: %s", sh->msg);
  Victim v; if (WIFEXITED(st) && (WEXITSTATUS(st) == 78 || WEXITSTATUS(st) == 80)) { v.kind = 1; v.code = WEXITSTATUS(st); return v; }
  return decode(st);
}

// ---------------------------------------------------------------- runner
static std::vector<Scenario>& scens() { static std::vector<Scenario> v; return v; }
void add_scenario(const char* n, void (*f)()) { scens().push_back({n, f}); }
static int g_devnull = -1;
static Sh* map_sh() {
  void* p = mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); } return (Sh*)p;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int g_run_cpu = 12; static double g_max_cpu = 0;
struct Res { int status; std::string cls, msg; u64 loghash, nev; std::vector<u64> choices; };
static Res one_run(const Scenario& sc, u64 seed, const std::vector<u64>* rep, bool keep) {
  size_t head = offsetof(Sh, choices);
  memset((void*)sh, 0, head);
  memset(sh->buf, 0, 4096 * 16);
  rng_seed(seed);
  if (rep) { sh->replaying = 1; sh->nreplay = std::min<size_t>(rep->size(), MAXC); memcpy(sh->replay, rep->data(), sh->nreplay * 8); }
  sh->loghash = 1469598103934665603ull;
  fflush(stdout); fflush(stderr);
  pid_t p = real_fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    cpu_limit(g_run_cpu); alarm(g_run_cpu * 10);
    if (!getenv("SIM_STDERR")) dup2(g_devnull, 2);
    dup2(g_devnull, 1);
    seams_run_begin();
    sc.fn();
    seams_run_end();
    sh->status = ST_OK; _exit(0);
  }
  int st; struct rusage ru; while (wait4(p, &st, 0, &ru) < 0 && errno == EINTR) {}
  { double c = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) * 1e-6; if (c > g_max_cpu) g_max_cpu = c; }
  kill(-p, SIGKILL);
  Res r; r.status = sh->status;
  if (sh->status == ST_RUN || (WIFSIGNALED(st) && sh->status == ST_OK)) {
    r.status = ST_VIOL; char b[64];
    if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      if (s == SIGPROF || s == SIGALRM) { snprintf(sh->cls, sizeof sh->cls, "hang"); snprintf(sh->msg, sizeof sh->msg, "run did not end within %d s of processor time; last operation: %s", g_run_cpu, sh->doing); }
      else if (s == SIGKILL) { r.status = ST_HERR; snprintf(sh->cls, sizeof sh->cls, "harness-error"); snprintf(sh->msg, sizeof sh->msg, "run was killed"); }
      else { snprintf(b, sizeof b, "crash-%s", s == SIGABRT ? "abort" : s == SIGSEGV || s == SIGBUS ? "segv" : strsignal(s)); snprintf(sh->cls, sizeof sh->cls, "%s", b);
        snprintf(sh->msg, sizeof sh->msg, "the process died (%s) in %s %s", strsignal(s), sh->doing, sh->asrt); }
    } else if (WEXITSTATUS(st) == 99) { snprintf(sh->cls, sizeof sh->cls, "sanitizer"); snprintf(sh->msg, sizeof sh->msg, "memory error or undefined behaviour reported by the sanitizer in %s (set SIM_STDERR=1 and replay to see it)", sh->doing); }
    else { snprintf(sh->cls, sizeof sh->cls, "unexpected-exit"); snprintf(sh->msg, sizeof sh->msg, "the process called exit(%d) in %s", WEXITSTATUS(st), sh->doing); }
  }
  r.cls = sh->cls; r.msg = sh->msg; r.loghash = sh->loghash; r.nev = sh->nev;
  if (keep || r.status != ST_OK) r.choices.assign(sh->choices, sh->choices + sh->nchoices);
  return r;
}
static std::string jstr(const std::string& s) {
  std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\"";
}
static std::vector<u64> minimise(const Scenario& sc, u64 seed, std::vector<u64> best, const std::string& cls, double budget, int* tried) {
  double t0 = now(); int n = 0;
  auto fails = [&](std::vector<u64> c) -> bool {
    if (now() - t0 > budget) return false;
    n++;
    Res r = one_run(sc, seed, &c, true);
    if (r.status != ST_VIOL || r.cls != cls) return false;
    std::vector<u64> got = r.choices; while (!got.empty() && got.back() == 0) got.pop_back();
    // keep only if not worse
    if (got.size() < best.size() || (got.size() == best.size() && got < best)) { best = got; return true; }
    return false;
  };
  while (!best.empty() && best.back() == 0) best.pop_back();
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t len = best.size(); len >= 1; len = len > 8 ? len / 2 : len - 1) {
      for (size_t i = 0; i + len <= best.size() && now() - t0 < budget;) {
        std::vector<u64> c(best.begin(), best.begin() + i); c.insert(c.end(), best.begin() + i + len, best.end());
        if (fails(c)) progress = true; else i += len > 4 ? std::max<size_t>(1, len / 2) : 1;
      }
      for (size_t i = 0; i + len <= best.size() && now() - t0 < budget; i += std::max<size_t>(1, len)) {
        bool nz = false; for (size_t j = i; j < i + len; j++) nz |= best[j] != 0; if (!nz) continue;
        std::vector<u64> c = best; for (size_t j = i; j < i + len; j++) c[j] = 0;
        if (fails(c)) progress = true;
      }
    }
    for (size_t i = 0; i < best.size() && now() - t0 < budget; i++) {
      u64 v = best[i]; if (!v) continue;
      for (u64 d : {(u64)0, (u64)1, v / 2, v - 1}) { if (d >= best[i] || i >= best.size()) continue; std::vector<u64> c = best; c[i] = d; if (fails(c)) { progress = true; break; } }
    }
  }
  *tried = n; return best;
}
static std::string counters_json(const std::map<std::string, u64>& m) {
  std::string s = "{"; bool f = true; for (auto& k : m) { if (!f) s += ","; f = false; s += jstr(k.first) + ":" + std::to_string(k.second); } return s + "}";
}
struct Agg { u64 runs, events, steps, checked, mismatches, choices; };
}  // namespace sim
using namespace sim;

static int write_replay(const char* path, const Scenario& sc, u64 seed, u64 idx, const Res& r, const char* variant, const std::vector<u64>& ch, size_t orig) {
  FILE* f = fopen(path, "w"); if (!f) return -1;
  std::string t(sh->trace, sh->tlen);
  fprintf(f, "{\"scenario\":%s,\"variant\":%s,\"seed\":%llu,\"run\":%llu,\"class\":%s,\"message\":%s,\"loghash\":\"%016llx\",\"original_choices\":%zu,\n\"choices\":[",
          jstr(sc.name).c_str(), jstr(variant).c_str(), (unsigned long long)seed, (unsigned long long)idx, jstr(r.cls).c_str(), jstr(r.msg).c_str(), (unsigned long long)r.loghash, orig);
  for (size_t i = 0; i < ch.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)ch[i]);
  fprintf(f, "],\n\"trace\":[");
  bool first = true; size_t p = 0;
  while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); fprintf(f, "%s\n%s", first ? "" : ",", jstr(t.substr(p, e - p)).c_str()); first = false; p = e + 1; }
  fprintf(f, "]}\n"); fclose(f); return 0;
}

int main(int argc, char** argv) {
  // fixed address layout, so that nothing can depend on where things were mapped
  if (!getenv("SIM_NOASLR_DONE")) { int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR_DONE", "1", 1); execv("/proc/self/exe", argv); } }
  std::map<std::string, std::string> o; std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  g_devnull = open("/dev/null", O_RDWR);
  signal(SIGPIPE, SIG_IGN);
  sim::sh = map_sh();
  sim::seams_init();
  if (cmd == "list") { for (auto& s : scens()) puts(s.name); return 0; }
  const Scenario* sc = 0; for (auto& s : scens()) if (o["--scenario"] == s.name) sc = &s;
  if (!sc) { fprintf(stderr, "no such scenario %s\n", o["--scenario"].c_str()); return 3; }
  const char* variant = SIM_VARIANT;
  if (o.count("--cpu")) g_run_cpu = atoi(o["--cpu"].c_str());
  u64 base = strtoull(o.count("--seed") ? o["--seed"].c_str() : "1", 0, 10);
  auto run_seed = [&](u64 i) { u64 a[2] = {base, i}; u64 h = hash64(sc->name, strlen(sc->name)); return hash64(a, 16, h); };
  if (cmd == "replay") {  // choices from stdin; prints class and hash
    std::vector<u64> ch; unsigned long long v; while (scanf("%llu", &v) == 1) ch.push_back(v);
    Res r = one_run(*sc, strtoull(o["--runseed"].c_str(), 0, 10), &ch, true);
    std::string t(sh->trace, sh->tlen);
    if (o.count("--trace")) fputs(t.c_str(), stderr);
    printf("{\"status\":%d,\"class\":%s,\"message\":%s,\"loghash\":\"%016llx\"}\n", r.status, jstr(r.cls).c_str(), jstr(r.msg).c_str(), (unsigned long long)r.loghash);
    return 0;
  }
  if (cmd == "one") {
    u64 i = strtoull(o["--run"].c_str(), 0, 10);
    Res r = one_run(*sc, run_seed(i), 0, true);
    std::string t(sh->trace, sh->tlen); fputs(t.c_str(), stdout);
    printf("run %llu status=%d class=%s msg=%s loghash=%016llx choices=%zu\n", (unsigned long long)i, r.status, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.loghash, r.choices.size());
    return 0;
  }
  if (cmd == "hashes") {  // print loghash of runs a..b, for the determinism proof
    u64 a = strtoull(o["--from"].c_str(), 0, 10), b = strtoull(o["--to"].c_str(), 0, 10);
    for (u64 i = a; i < b; i++) { Res r = one_run(*sc, run_seed(i), 0, true); u64 ch = hash64(r.choices.data(), r.choices.size() * 8); printf("%llu %d %s %016llx %016llx\n", (unsigned long long)i, r.status, r.cls.c_str(), (unsigned long long)r.loghash, (unsigned long long)ch); }
    return 0;
  }
  if (cmd != "run") { fprintf(stderr, "usage: sim list|run|one|replay|hashes --scenario S --seed N --time T --max N --jobs J --out F --replay F\n"); return 3; }
  double T = atof(o.count("--time") ? o["--time"].c_str() : "10"), t0 = now();
  u64 maxr = o.count("--max") ? strtoull(o["--max"].c_str(), 0, 10) : ~0ull;
  int J = o.count("--jobs") ? atoi(o["--jobs"].c_str()) : 8;
  u64 chk = o.count("--check-every") ? strtoull(o["--check-every"].c_str(), 0, 10) : 16;
  // shared between workers: stop flag and lowest failing run
  struct Ctl { volatile u64 fail; volatile int stop; };
  Ctl* ctl = (Ctl*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ctl->fail = ~0ull; ctl->stop = 0;
  std::vector<int> fds; std::vector<pid_t> pids;
  for (int w = 0; w < J; w++) {
    int pfd[2]; if (pipe(pfd)) { perror("pipe"); return 3; }
    pid_t p = real_fork();
    if (p == 0) {
      close(pfd[0]); for (int fd : fds) close(fd); prctl(PR_SET_PDEATHSIG, SIGKILL);
      sh = map_sh();
      Agg a = {0, 0, 0, 0, 0, 0}; std::map<std::string, u64> cnt; std::set<u64> covs, logs; std::string sample; std::string bad;
      for (u64 i = w; i < maxr && !ctl->stop && now() - t0 < T; i += J) {
        if (ctl->fail < i) break;
        Res r = one_run(*sc, run_seed(i), 0, false);
        a.runs++; a.events += sh->nev; a.steps += sh->steps; a.choices += sh->nchoices;
        for (u32 k = 0; k < sh->ncnt; k++) cnt[sh->cnt[k].name] += sh->cnt[k].v;
        for (u32 k = 0; k < sh->ncov; k++) if (covs.size() < 2000000) covs.insert(sh->cov[k]);
        if (logs.size() < 2000000) logs.insert(r.loghash);
        if (sample.size() < 2000 && (a.runs <= 2)) sample.append(sh->trace, std::min<u32>(sh->tlen, 900)), sample += "\n--\n";
        if (r.status != 1) { u64 o2 = ctl->fail; while (i < o2 && !__sync_bool_compare_and_swap(&ctl->fail, o2, i)) o2 = ctl->fail; break; }
        if (chk && a.runs % chk == 1) { Res r2 = one_run(*sc, run_seed(i), 0, false); a.checked++; if (r2.loghash != r.loghash || r2.status != r.status) { a.mismatches++; bad += " " + std::to_string(i); ctl->stop = 1; break; } }
      }
      FILE* f = fdopen(pfd[1], "w");
      fprintf(f, "%.3f\n", g_max_cpu); fprintf(f, "%llu %llu %llu %llu %llu %llu\n", (unsigned long long)a.runs, (unsigned long long)a.events, (unsigned long long)a.steps, (unsigned long long)a.checked, (unsigned long long)a.mismatches, (unsigned long long)a.choices);
      fprintf(f, "%zu\n", cnt.size()); for (auto& k : cnt) fprintf(f, "%s %llu\n", k.first.c_str(), (unsigned long long)k.second);
      fprintf(f, "%zu\n", covs.size()); for (u64 x : covs) fprintf(f, "%llx\n", (unsigned long long)x);
      fprintf(f, "%zu\n", logs.size()); for (u64 x : logs) fprintf(f, "%llx\n", (unsigned long long)x);
      fprintf(f, "%zu\n", w == 0 ? sample.size() : 0); if (w == 0) fwrite(sample.data(), 1, sample.size(), f);
      fprintf(f, "%zu\n", bad.size()); fwrite(bad.data(), 1, bad.size(), f);
      fclose(f); _exit(0);
    }
    close(pfd[1]); fds.push_back(pfd[0]); pids.push_back(p);
  }
  Agg A = {0, 0, 0, 0, 0, 0}; std::map<std::string, u64> cnt; std::set<u64> covs, logs; std::string sample, bad;
  for (int w = 0; w < J; w++) {
    FILE* f = fdopen(fds[w], "r"); unsigned long long a[6], v; char nm[64]; size_t n;
    double mc; if (fscanf(f, "%lf", &mc) != 1) { fprintf(stderr, "worker %d died\n", w); return 3; } if (mc > g_max_cpu) g_max_cpu = mc;
    if (fscanf(f, "%llu %llu %llu %llu %llu %llu", a, a + 1, a + 2, a + 3, a + 4, a + 5) != 6) { fprintf(stderr, "worker %d died\n", w); return 3; }
    A.runs += a[0]; A.events += a[1]; A.steps += a[2]; A.checked += a[3]; A.mismatches += a[4]; A.choices += a[5];
    if (fscanf(f, "%zu", &n) != 1) return 3; for (size_t i = 0; i < n; i++) { if (fscanf(f, "%63s %llu", nm, &v) != 2) return 3; cnt[nm] += v; }
    if (fscanf(f, "%zu", &n) != 1) return 3; for (size_t i = 0; i < n; i++) { if (fscanf(f, "%llx", &v) != 1) return 3; covs.insert(v); }
    if (fscanf(f, "%zu", &n) != 1) return 3; for (size_t i = 0; i < n; i++) { if (fscanf(f, "%llx", &v) != 1) return 3; logs.insert(v); }
    if (fscanf(f, "%zu\n", &n) != 1) return 3; std::string s(n, 0); if (n && fread(&s[0], 1, n, f) != n) return 3; sample += s;
    if (fscanf(f, "%zu\n", &n) != 1) return 3; std::string s2(n, 0); if (n && fread(&s2[0], 1, n, f) != n) return 3; bad += s2;
    fclose(f);
  }
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
  double wall = now() - t0;
  std::string fail = "null"; int rc = 0;
  if (A.mismatches) { fprintf(stderr, "NONDETERMINISTIC runs:%s\n", bad.c_str()); rc = 3; }
  else if (ctl->fail != ~0ull) {
    u64 i = ctl->fail;
    Res r1 = one_run(*sc, run_seed(i), 0, true), r2 = one_run(*sc, run_seed(i), 0, true);
    if (r1.status == 3) { fprintf(stderr, "HARNESS ERROR run %llu: %s\n%.*s\n", (unsigned long long)i, r1.msg.c_str(), (int)sh->tlen, sh->trace); rc = 3; }
    else if (r1.status != 2 || r2.status != 2 || r1.cls != r2.cls || r1.loghash != r2.loghash) { fprintf(stderr, "run %llu did not fail the same way twice: %d/%s %d/%s\n", (unsigned long long)i, r1.status, r1.cls.c_str(), r2.status, r2.cls.c_str()); rc = 3; }
    else {
      int tried = 0; std::vector<u64> best = minimise(*sc, run_seed(i), r1.choices, r1.cls, o.count("--min-time") ? atof(o["--min-time"].c_str()) : 20, &tried);
      Res m = one_run(*sc, run_seed(i), &best, true);
      if (m.status != 2 || m.cls != r1.cls) { fprintf(stderr, "minimised run does not fail\n"); rc = 3; }
      else {
        if (write_replay(o["--replay"].c_str(), *sc, run_seed(i), i, m, variant, best, r1.choices.size())) { perror("replay file"); rc = 3; }
        else { rc = 1; fail = "{\"run\":" + std::to_string(i) + ",\"class\":" + jstr(m.cls) + ",\"message\":" + jstr(m.msg) + ",\"choices\":" + std::to_string(best.size()) + ",\"original_choices\":" + std::to_string(r1.choices.size()) + ",\"minimiser_runs\":" + std::to_string(tried) + "}"; }
      }
    }
  }
  FILE* f = fopen(o["--out"].c_str(), "w"); if (!f) { perror("out"); return 3; }
  fprintf(f, "{\"scenario\":%s,\"variant\":%s,\"seed\":%llu,\"runs\":%llu,\"events\":%llu,\"steps\":%llu,\"choices\":%llu,\"determinism_checked\":%llu,\"determinism_mismatches\":%llu,\"wall_s\":%.3f,\"max_run_cpu_s\":%.3f,\"distinct_states\":%zu,\"distinct_histories\":%zu,\"counters\":%s,\"failure\":%s,\"sample\":%s}\n",
          jstr(sc->name).c_str(), jstr(variant).c_str(), (unsigned long long)base, (unsigned long long)A.runs, (unsigned long long)A.events, (unsigned long long)A.steps, (unsigned long long)A.choices, (unsigned long long)A.checked, (unsigned long long)A.mismatches, wall, g_max_cpu, covs.size(), logs.size(), counters_json(cnt).c_str(), fail.c_str(), jstr(sample).c_str());
  fclose(f);
  return rc;
}
namespace sim { void run_scenario(const char* name) { for (auto& s : scens()) if (!strcmp(s.name, name)) { s.fn(); return; } harness_error("no scenario %s", name); } }
