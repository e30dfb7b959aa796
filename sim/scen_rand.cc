// R01 no shared randomness, R02 failing random source, R03 degenerate random output
#include "proto.h"
#include <stdlib.h>
#include <signal.h>
namespace {
struct D { u64 key, p0, p1; int kind, proc; };
struct Log { int n, procs, over; D d[96]; };
struct RWorld {
  ref::Curve c; mpECurve_t cv; bool ecp = false, sch = false; mpECP_t pt; mpECDSASignatureScheme_t ss; int hi; Key key; std::vector<std::string> msgs; Pt ptxt; Z m1;
};
const char* kinds[] = {"mpz_urandom", "mpFp_urandom", "mpECP_urandom", "signature nonce", "encryption ephemeral"};
}
static u64 val_key(const Z& space, const std::string& v) { std::string s = ref::str(space) + ":" + v; return hash64(s.data(), s.size()); }
// one draw; the returned key identifies the random value within its space
static u64 draw(RWorld& w, int kind, const std::string& msg) {
  const ref::Curve& c = w.c; u64 k = 0;
  switch (kind) {
    case 0: { MZ z, m(w.m1); C(mpz_urandom(z, m)); k = val_key(w.m1, ref::str(z.get())); break; }
    case 1: { mpFp_t a; MZ n(c.n); C(mpFp_init(a, n)); C(mpFp_urandom(a, n)); k = val_key(c.n, ref::str(lib_fp(a))); C(mpFp_clear(a)); break; }
    case 2: { mpECP_t p; C(mpECP_init(p, w.cv)); C(mpECP_urandom(p, w.cv)); Pt v = lib_value(p, c); k = val_key(c.n, show(v)); C(mpECP_clear(p)); break; }
    case 3: { mpECDSASignature_t s; if (C(mpECDSASignature_init_Sign(s, w.ss, w.key.sk, (unsigned char*)msg.data(), msg.size()))) violation("sign-failed", "signing failed without a fault"); Z r = lib_fp(s->r), t = lib_fp(s->s); if (t == 0) violation("degenerate", "a signature with s = 0"); k = val_key(c.n, ref::str(recover_nonce(c, w.key.d, hash_e(c, w.hi, msg), r, t))); C(mpECDSASignature_clear(s)); break; }
    default: { mpECElgamalCiphertext_t x; if (C(mpECElgamal_init_encrypt(x, w.key.pk, w.pt))) violation("encrypt-failed", "encryption failed without a fault"); k = val_key(c.n, show(lib_value(x->C, c))); C(mpECElgamal_clear(x)); }
  }
  return k;
}
static void one_draw(RWorld& w, Log* l, int kind, int proc, int msg) {
  u64 p0 = dev_pos(); doing("%s", kinds[kind]); u64 k = draw(w, kind, w.msgs[msg]); u64 p1 = dev_pos();
  int i = l->n++; if (i >= 96) { l->n = 96; l->over = 1; return; } l->d[i] = {k, p0, p1, kind, proc};
  ev("process %d: %s", proc, kinds[kind]);
}
// a thread forks while the others are anywhere inside the library: the child has only this thread
static void thread_fork(RWorld& w, Log* l, int proc, int n) {
  int cp = ++l->procs; std::vector<int> ks; for (int i = 0; i < n; i++) ks.push_back((int)choose(w.ecp ? 3 : 2)); if (w.sch && flip(1, 3)) ks.push_back(3);
  ev("thread %d forks process %d while the others run", proc, cp); count("fault.fork_among_threads"); step();
  Victim v = victim([&]() { for (int k : ks) one_draw(w, l, k, cp, 0); });
  if (v.kind == 2 && v.code != SIGABRT) violation("crash", "process %d, forked by a thread, died with signal %d in a draw", cp, v.code);
  ev("process %d ended (%d)", cp, v.kind);
}
static void r01_history(RWorld& w, Log* l, int depth, int proc, int budget) {
  int kmax = w.sch ? 5 : w.ecp ? 3 : 2;
  auto kind = [&]() { int k = (int)choose(kmax + (w.ecp && !w.sch)); return k == 3 && !w.sch ? 4 : k; };
  while (budget-- > 0) {
    int op = (int)choose_w({6, depth < 2 ? 2 : 0, 1, 0});
    if (op == 0) one_draw(w, l, kind(), proc, (int)choose(w.msgs.size()));
    else if (op == 1) {
      int cp = ++l->procs, b = 1 + (int)choose(3); ev("process %d forks process %d", proc, cp); count("fault.fork"); step();
      Victim v = victim([&]() { r01_history(w, l, depth + 1, cp, b); });
      if (v.kind == 2 && v.code != SIGABRT) violation("crash", "process %d died with signal %d in %s", cp, v.code, "a draw");
      ev("process %d ended", cp);
    } else {
      int nt = 2 + (int)choose(2); std::vector<std::function<void()>> f; struct P { int k, m; }; std::vector<std::vector<P>> plan(nt);
      bool fk = depth < 2 && flip(1, 2);
      for (auto& p : plan) { int m = 1 + (int)choose(2); for (int i = 0; i < m; i++) { if (fk && flip(1, 3)) { p.push_back({-1, 1 + (int)choose(2)}); continue; } int k = (int)choose(w.ecp ? 3 : 2); if (w.ecp && flip(1, 4)) k = 4; if (w.sch && flip(1, 4)) k = 3; p.push_back({k, (int)choose(w.msgs.size())}); } }
      for (int t = 0; t < nt; t++) f.push_back([&, t]() { for (auto& p : plan[t]) if (p.k < 0) thread_fork(w, l, proc * 10 + t, p.m); else one_draw(w, l, p.k, proc * 10 + t, p.m); });
      ev("process %d starts %d threads", proc, nt); run_threads(f);
    }
  }
}
SCENARIO(R01_history) {
  mem_random_cfg(); RWorld w; Log* A = (Log*)shared_buf(sizeof(Log)); Log* B = (Log*)shared_buf(sizeof(Log));
  w.c = big_curve(100, 200); w.m1 = flip(1, 2) ? w.c.n : (Z(1) << (100 + choose(500))) - 1 - 2 * Z((unsigned long)choose(1000));
  int depth = (int)choose(3); w.ecp = depth >= 1; w.sch = depth == 2; for (int i = 0; i < 3; i++) w.msgs.push_back(rand_msg(30, true)); w.hi = (int)choose(n_hashes());
  Z d = w.ecp ? rand_key(w.c) : Z(1); w.ptxt = w.ecp ? rand_sub_point(w.c) : Pt(); int budget = 2 + (int)choose(6); bool clean = flip(1, 3); bool soft = flip(1, 5);
  u64 p0 = dev_pos(), cp = choice_pos();
  Log* cur = A;
  auto all = [&]() {
    if (soft) { dev_fault_den = 6; dev_fault_mask = DF_SHORT | DF_EINTR | DF_SHORTALL; }
    if (clean) C(_enable_gmp_safe_clean());
    if (w.ecp) { lib_curve_make(w.cv, w.c); key_make(w.key, w.cv, w.c, d); C(mpECP_init(w.pt, w.cv)); lib_set(w.pt, w.cv, w.ptxt); if (w.sch) C(mpECDSASignatureScheme_init(w.ss, w.cv, hash_handle(w.hi))); }
    r01_history(w, cur, 0, 0, budget);
  };
  Victim v = victim(all); u64 p1 = dev_pos();
  if (v.kind == 2 && v.code != SIGABRT) violation("crash", "the process died with signal %d (%s)", v.code, assert_text());
  if (v.kind == 2 && !soft) violation("crash", "the process aborted without a fault (%s)", assert_text());
  for (int i = 0; i < A->n; i++) for (int j = 0; j < i; j++) if (A->d[i].key == A->d[j].key) violation("repeated-value", "draws %d (%s, process %d, device bytes %llu-%llu) and %d (%s, process %d, device bytes %llu-%llu) returned the same value", j + 1, kinds[A->d[j].kind], A->d[j].proc, (unsigned long long)(A->d[j].p0 - p0), (unsigned long long)(A->d[j].p1 - p0), i + 1, kinds[A->d[i].kind], A->d[i].proc, (unsigned long long)(A->d[i].p0 - p0), (unsigned long long)(A->d[i].p1 - p0));
  u64 h[4] = {(u64)A->n, (u64)A->procs, (u64)depth, p1 - p0}; cover(hash64(h, sizeof h)); count("probe.draws", A->n);
  if (v.kind || p1 == p0 || soft) return;
  int reps = w.sch ? 2 : 5; cur = B;
  for (int t = 0; t < reps; t++) {
    u64 at = p0 + choose(p1 - p0); u8 mask = (u8)(1 << choose(8)); memset(B, 0, sizeof *B);
    dev_set_pos(p0); dev_flip(at, mask);
    Victim r = replica(cp, all); bool same = dev_pos() == p1; dev_flip(0, 0); count("probe.replicas");
    if (r.kind || B->n != A->n || !same) { count("probe.replica_diverged"); continue; }
    bool sameplan = true; for (int i = 0; i < A->n; i++) if (A->d[i].kind != B->d[i].kind || A->d[i].proc != B->d[i].proc) sameplan = false;
    if (!sameplan) { count("probe.replica_diverged"); continue; }
    int ch = 0, f = -1, g = -1; for (int i = 0; i < A->n; i++) if (A->d[i].key != B->d[i].key) { ch++; if (f < 0) f = i; g = i; }
    ev("a change of device byte %llu reaches %d draws", (unsigned long long)(at - p0), ch);
    if (ch > 1) violation("shared-randomness", "device byte %llu influences %d draws, among them %d (%s, process %d) and %d (%s, process %d)", (unsigned long long)(at - p0), ch, f + 1, kinds[A->d[f].kind], A->d[f].proc, g + 1, kinds[A->d[g].kind], A->d[g].proc);
  }
  dev_set_pos(p1);
}
// the first use of the device by several threads at once, and threads drawing heavily
SCENARIO(R01_threads) {
  mem_random_cfg(); RWorld w; Log* A = (Log*)shared_buf(sizeof(Log)); w.c = big_curve(100, 140); w.m1 = flip(1, 2) ? w.c.n : (Z(1) << (100 + choose(300))) - 1; w.msgs.push_back("m"); w.hi = 0;
  w.ecp = flip(1, 3); Z d = rand_key(w.c); w.ptxt = ref::gen(w.c); if (w.ecp) { lib_curve_make(w.cv, w.c); key_make(w.key, w.cv, w.c, d); C(mpECP_init(w.pt, w.cv)); lib_set(w.pt, w.cv, w.ptxt); }
  if (flip(1, 2)) { MZ n(w.c.n); mpFp_t a; C(mpFp_init(a, n)); C(mpFp_clear(a)); if (flip(1, 2)) one_draw(w, A, 1, 0, 0); }
  int nt = 2 + (int)choose(4); std::vector<std::vector<int>> plan(nt); for (auto& p : plan) { int m = 1 + (int)choose(4); for (int i = 0; i < m; i++) p.push_back(flip(1, 8) ? -1 : (int)choose(w.ecp ? 3 : 2)); }
  std::vector<std::function<void()>> f; u64 p0 = dev_pos(); for (int t = 0; t < nt; t++) f.push_back([&, t]() { for (int k : plan[t]) if (k < 0) thread_fork(w, A, t + 1, 2); else one_draw(w, A, k, t + 1, 0); });
  A->procs = 100; run_threads(f); count("probe.draws", A->n);
  for (int i = 0; i < A->n; i++) for (int j = 0; j < i; j++) if (A->d[i].key == A->d[j].key) violation("repeated-value", "draws by threads %d and %d (%s, %s) returned the same value", A->d[j].proc, A->d[i].proc, kinds[A->d[j].kind], kinds[A->d[i].kind]);
  (void)p0; if (w.ecp) { C(mpECP_clear(w.pt)); key_clear(w.key); C(mpECurve_clear(w.cv)); }
}
// ---------------------------------------------------------------- R02
namespace { struct Out { int done, st, range, skip; u64 p0, p1; u64 val; char txt[200]; }; }
SCENARIO(R02_faults) {
  mem_random_cfg(); AllocCfg m0 = mem; Out* A = (Out*)shared_buf(sizeof(Out)); Out* B = (Out*)shared_buf(sizeof(Out)); Out* cur = A;
  int kind = (int)choose_w({6, 4, 2, 1, 1}); RWorld w; Z space;
  if (kind >= 2 || flip(1, 3)) { w.c = big_curve(kind >= 2 ? 60 : 20, kind >= 2 ? 130 : 256); space = w.c.n; }
  else { int b = 2 + (int)choose(300); space = (Z(1) << b) - 1 - 2 * Z((unsigned long)choose(std::min<u64>(1u << std::min(b - 2, 12), 4000))); if (space < 3) space = 3; if (flip(1, 6)) space = Z(1) << (b - 1); if (space < 2) space = 2; if (kind == 1 && mpz_even_p(space.get_mpz_t())) space += 1; }
  if (kind >= 2) { w.hi = (int)choose(n_hashes()); }
  Z d = kind >= 2 ? rand_key(w.c) : Z(1); std::string msg = "message"; int pre = kind < 2 ? (int)choose(3) : (int)choose(2);
  int mode = (int)choose(6); int den = 1 + (int)choose(6);
  ev("%s below %s, %d earlier draws, fault mode %d 1/%d", kinds[kind], ref::str(space).c_str(), pre, mode, den);
  u64 q0 = dev_pos(), cp = choice_pos(); int fillmode = -1;
  auto all = [&]() {
    mem = m0; if (fillmode >= 0) { mem.fill = fillmode; mem.salt = m0.salt + 12345; }
    if (kind >= 2) { lib_curve_make(w.cv, w.c); key_make(w.key, w.cv, w.c, d); C(mpECP_init(w.pt, w.cv)); lib_set(w.pt, w.cv, ref::gen(w.c)); w.ptxt = ref::gen(w.c); if (kind == 3) C(mpECDSASignatureScheme_init(w.ss, w.cv, hash_handle(w.hi))); }
    auto arm = [&]() { dev_fault_den = mode ? den : 0; dev_fault_mask = mode == 1 ? DF_SHORT | DF_EINTR : mode == 2 ? DF_EIO | DF_EOF : mode == 3 ? DF_PERSIST : mode == 4 ? DF_OPEN : DF_SHORT | DF_EINTR | DF_EIO | DF_EOF | DF_PERSIST | DF_OPEN | DF_SHORTALL; };
    MZ sp(space); MZ z; if (mode == 4 || flip(1, 2)) arm();
    for (int i = 0; i < pre; i++) C(mpz_urandom(z, sp)); arm();
    doing("%s with a failing random device", kinds[kind]); cur->p0 = dev_pos(); std::string v; int st = 0; bool ok = true;
    switch (kind) {
      case 0: { C(mpz_urandom(z, sp)); Z x = z.get(); ok = x >= 0 && x < space; v = ref::str(x); break; }
      case 1: { mpFp_t a; C(mpFp_init(a, sp)); C(mpFp_urandom(a, sp)); Z x = lib_fp(a); ok = x >= 0 && x < space && Z(a->fp->p) == space; v = ref::str(x); break; }
      case 2: { mpECP_t p; C(mpECP_init(p, w.cv)); C(mpECP_urandom(p, w.cv)); Pt x = lib_value(p, w.c); ok = ref::on_curve(w.c, x); v = show(x); break; }
      case 3: { mpECDSASignature_t s; st = C(mpECDSASignature_init_Sign(s, w.ss, w.key.sk, (unsigned char*)msg.data(), msg.size())); if (!st) { Z r = lib_fp(s->r), t = lib_fp(s->s); ok = ref::ecdsa_ok(w.c, w.key.Q, hash_e(w.c, w.hi, msg), r, t); v = ref::str(r) + "," + ref::str(t); } break; }
      default: { mpECElgamalCiphertext_t x; st = C(mpECElgamal_init_encrypt(x, w.key.pk, w.pt)); if (!st) { Pt a = lib_value(x->C, w.c), b = lib_value(x->D, w.c); ok = ref::sub(w.c, b, ref::mul(w.c, a, d)) == w.ptxt && !ref::is_neutral(w.c, a); v = show(a); } }
    }
    cur->p1 = dev_pos(); cur->st = st; cur->range = ok; cur->val = hash64(v.data(), v.size()); snprintf(cur->txt, sizeof cur->txt, "%s", v.c_str()); cur->done = 1;
  };
  Victim v = victim(all); u64 q1 = dev_pos();
  u64 h[5] = {(u64)kind, (u64)mode, (u64)v.kind, (u64)A->done, (u64)ref::bitlen(space)}; cover(hash64(h, sizeof h));
  if (v.kind == 2 && v.code != SIGABRT) violation("crash", "%s died with signal %d when the random device failed", kinds[kind], v.code);
  if (v.kind == 1 && v.code == 0) violation("exit-zero", "%s ended the process with status 0 when the random device failed", kinds[kind]);
  if (v.kind == 2 && !dev_hard_faults() && mode != 1 && mode != 5) violation("crash", "%s aborted (%s) although the device worked", kinds[kind], assert_text());
  if (!A->done || A->st) { count("probe.refused"); return; }
  if (!A->range) violation("bad-value", "%s returned %s, which is not a valid result below %s", kinds[kind], A->txt, ref::str(space).c_str());
  count(dev_faults() ? "probe.success_despite_faults" : "probe.success");
  cur = B; size_t want = (ref::bitlen(space - 1) + 7) / 8;
  auto again = [&]() { memset(B, 0, sizeof *B); dev_reset_faults(); dev_set_pos(q0); Victim r = replica(cp, all); count("probe.replicas"); return r.kind == 0 && B->done && !B->st; };
  // the same device output must give the same value whatever memory holds
  fillmode = m0.fill == 4 ? 2 : 4; if (!again()) violation("undetermined", "%s succeeds or fails depending on what memory held before", kinds[kind]);
  if (B->val != A->val) violation("undetermined", "%s returned %s, but %s with the same device output and other memory contents: part of the value did not come from the device", kinds[kind], A->txt, B->txt);
  fillmode = -1; if (kind >= 3 && flip(2, 3)) return; if (kind == 2 && flip(1, 2)) return;
  size_t infl = 0; std::vector<u64> dead; u64 from = q0;   // a buffered reader may have fetched the bytes earlier
  for (u64 p = from; p < q1 && infl < want; p++) {
    u64 at = A->p0 > from && A->p1 > A->p0 ? A->p0 + (p - from) : p; if (at >= q1) break;
    bool hit = false; for (u8 mask : {(u8)1, (u8)(1 << (p & 7)), (u8)0xFF}) if (!hit) { dev_flip(at, mask); bool ok = again(); dev_flip(0, 0); hit = !ok || B->val != A->val; }
    if (hit) infl++; else dead.push_back(at - q0);
  }
  dev_set_pos(q1); ev("%zu device bytes matter, the range has %zu", infl, want);
  if (infl < want) violation("little-entropy", "%s below %s depends on %zu device bytes only, its range has %zu", kinds[kind], ref::str(space).c_str(), infl, want);
}
// ---------------------------------------------------------------- R03
SCENARIO(R03_degenerate) {
  mem_random_cfg(); if (flip(1, 4)) C(_enable_gmp_safe_clean());
  CurveReq q; q.named = false; std::vector<Pt> pts; bool big = flip(1, 8); ref::Curve c;
  if (big) c = big_curve(60, 130); else { c = ref_tiny((int)choose(4), &pts); ev("curve %s", show(c).c_str()); }
  mpECurve_t cv; lib_curve_make(cv, c); int hi = (int)choose(n_hashes()); mpECDSASignatureScheme_t ss; C(mpECDSASignatureScheme_init(ss, cv, hash_handle(hi)));
  Key k; key_make(k, cv, c, rand_key(c)); int steps = 2 + (int)choose(big ? 3 : 12);
  for (int i = 0; i < steps; i++) {
    // what the device returns next: runs of zeros, multiples of the order, ones, or its own noise
    size_t w = 2 * c.nlen(); std::string s; int nd = (int)choose(6);
    for (int j = 0; j < nd; j++) switch (choose(5)) { case 0: case 1: s += std::string(w, 0); break; case 2: s += ref::to_bytes(c.n * Z((unsigned long)choose(200)), w + 2).substr(2); break; case 3: s += ref::to_bytes(c.n + 1, w); break; default: s += std::string(w, (char)0xFF); }
    if (s.size()) { dev_script(s.data(), s.size()); count("fault.degenerate_device_output"); }
    step(); u64 r0 = dev_reads();
    if (flip(1, 2)) {
      std::string m = rand_msg(12, true); Z e = hash_e(c, hi, m); if (!big && usable_nonces(c, k.d, e).empty()) { count("probe.no_usable_nonce"); continue; }
      doing("signing %s (e = %s, d = %s) with scripted random output on %s", hexs(m).c_str(), ref::str(e).c_str(), ref::str(k.d).c_str(), show(c).c_str());
      mpECDSASignature_t sg; int st = C(mpECDSASignature_init_Sign(sg, ss, k.sk, (unsigned char*)m.data(), m.size()));
      if (st) violation("sign-failed", "signing failed (%d) on %s", st, show(c).c_str());
      Z r = lib_fp(sg->r), t = lib_fp(sg->s); ev("signature %s,%s after %llu reads", ref::str(r).c_str(), ref::str(t).c_str(), (unsigned long long)(dev_reads() - r0));
      if (r == 0 || t == 0) violation("degenerate", "a signature (%s,%s) with a zero component was released; e=%s d=%s on %s", ref::str(r).c_str(), ref::str(t).c_str(), ref::str(e).c_str(), ref::str(k.d).c_str(), show(c).c_str());
      if (!ref::ecdsa_ok(c, k.Q, e, r, t)) violation("degenerate", "the signature (%s,%s) does not verify; e=%s d=%s on %s", ref::str(r).c_str(), ref::str(t).c_str(), ref::str(e).c_str(), ref::str(k.d).c_str(), show(c).c_str());
      st = C(mpECDSASignature_verify_cmp(sg, k.pk, (unsigned char*)m.data(), m.size())); if (st) violation("degenerate", "the library does not verify its own signature (%s,%s) on %s", ref::str(r).c_str(), ref::str(t).c_str(), show(c).c_str());
      C(mpECDSASignature_clear(sg)); if (dev_reads() - r0 > 1) count("probe.redraws");
    } else {
      Pt v = rand_point(c, &pts); mpECP_t p, o; C(mpECP_init(p, cv)); lib_set(p, cv, v); doing("encrypting %s with scripted random output on %s", show(v).c_str(), show(c).c_str());
      mpECElgamalCiphertext_t x; int st = C(mpECElgamal_init_encrypt(x, k.pk, p)); if (st) violation("encrypt-failed", "encryption failed (%d)", st);
      Pt a = lib_value(x->C, c), b = lib_value(x->D, c); ev("ciphertext %s %s after %llu reads", show(a).c_str(), show(b).c_str(), (unsigned long long)(dev_reads() - r0));
      if (ref::is_neutral(c, a)) violation("degenerate", "a ciphertext with ephemeral 0 was released: it shows the plaintext %s on %s", show(v).c_str(), show(c).c_str());
      if (ref::sub(c, b, ref::mul(c, a, k.d)) != v) violation("degenerate", "the ciphertext (%s,%s) does not decrypt to %s on %s", show(a).c_str(), show(b).c_str(), show(v).c_str(), show(c).c_str());
      st = C(mpECElgamal_init_decrypt(o, k.sk, x)); if (st) violation("decrypt-failed", "decryption failed (%d)", st); expect_pt("degenerate", o, c, v, "decryption"); C(mpECP_clear(o)); C(mpECP_clear(p)); C(mpECElgamal_clear(x)); if (dev_reads() - r0 > 1) count("probe.redraws");
    }
    dev_script_clear(); u64 hh[4] = {(u64)c.type, dev_reads() - r0, (u64)nd, (u64)ref::bitlen(c.n)}; cover(hash64(hh, sizeof hh));
  }
  key_clear(k); C(mpECDSASignatureScheme_clear(ss)); C(mpECurve_clear(cv));
}
