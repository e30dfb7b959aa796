// T01 threads on separate objects, T02 threads sharing inputs. Every memory access of the code under test
// outside the own stack, and every call into GMP or libc, is a preemption point.
#include "proto.h"
using std::string; using std::vector;
namespace {
struct TCtx { ref::Curve c; vector<Pt> pts; int hi; Z d; bool tiny; };
}
static ref::Curve thread_curve(vector<Pt>* pts) { CurveReq q; q.maxbits = 130; q.minn = 11; ref::Curve c = pick_curve(q, pts); return c; }
static bool can_sign(const TCtx& x, const Z& d, const string& m) { return !x.tiny || !usable_nonces(x.c, d, hash_e(x.c, x.hi, m)).empty(); }
static void chk_fp(mpFp_t f, const Z& want, const char* what) { Z g = lib_fp(f); if (g != want) violation("wrong-result", "thread %d: %s gave %s, alone it gives %s", cur_tid(), what, ref::str(g).c_str(), ref::str(want).c_str()); }
static void chk_pt(mpECP_t p, const ref::Curve& c, const Pt& want, const char* what) { Pt g = lib_value(p, c); if (g != want) violation("wrong-result", "thread %d: %s gave %s, alone it gives %s, on %s", cur_tid(), what, show(g).c_str(), show(want).c_str(), show(c).c_str()); }
// one piece of work on objects of its own
static void own_work(int k, const TCtx& x, const Z& p, const Z& a, const Z& b, const Pt& P, const Pt& Q, const string& msg, Z* rnd) {
  const ref::Curve& c = x.c; doing("thread work %d on %s", k, show(c).c_str()); MZ n(c.n);
  switch (k) {
    case 0: { MZ zp(p), za(a), zb(b); mpFp_t f, g, h; C(mpFp_init(f, zp)); C(mpFp_init(g, zp)); C(mpFp_init(h, zp)); C(mpFp_set_mpz(f, za, zp)); C(mpFp_set_mpz(g, zb, zp)); C(mpFp_mul(h, f, g)); chk_fp(h, ref::mod(a * b, p), "mul"); C(mpFp_add(h, h, f)); chk_fp(h, ref::mod(a * b + a, p), "add");
      Z w; bool ok = ref::inv(w, a, p); int st = C(mpFp_inv(h, f)); if ((st == 0) != ok) violation("wrong-result", "thread %d: inverse status %d", cur_tid(), st); if (ok) chk_fp(h, w, "inv"); Z s2 = ref::mod(b * b, p); C(mpFp_sqr(h, g)); st = C(mpFp_sqrt(h, h)); if (st) violation("wrong-result", "thread %d: no root of the square %s mod %s", cur_tid(), ref::str(s2).c_str(), ref::str(p).c_str()); Z r = lib_fp(h); if (ref::mod(r * r, p) != s2) violation("wrong-result", "thread %d: sqrt(%s) mod %s gave %s", cur_tid(), ref::str(s2).c_str(), ref::str(p).c_str(), ref::str(r).c_str());
      if (Z(f->fp->p) != p) violation("wrong-result", "thread %d: an element belongs to field %s, not %s", cur_tid(), ref::str(Z(f->fp->p)).c_str(), ref::str(p).c_str()); C(mpFp_clear(f)); C(mpFp_clear(g)); C(mpFp_clear(h)); break; }
    case 1: { mpECurve_t cv, d; lib_curve_make(cv, c); lib_curve_expect(cv, c, "own curve"); C(mpECurve_init(d)); C(mpECurve_set(d, cv)); if (C(mpECurve_cmp(d, cv))) violation("wrong-result", "thread %d: a copy of a curve differs", cur_tid()); C(mpECurve_clear(cv)); lib_curve_expect(d, c, "own copy"); C(mpECurve_clear(d)); break; }
    case 2: { mpECurve_t cv; lib_curve_make(cv, c); mpECP_t u, v, w; C(mpECP_init(u, cv)); C(mpECP_init(v, cv)); C(mpECP_init(w, cv)); lib_set(u, cv, P); lib_set(v, cv, Q); C(mpECP_add(w, u, v)); chk_pt(w, c, ref::add(c, P, Q), "add"); C(mpECP_double(w, u)); chk_pt(w, c, ref::add(c, P, P), "double"); C(mpECP_sub(w, w, v)); chk_pt(w, c, ref::sub(c, ref::add(c, P, P), Q), "sub"); C(mpECP_clear(u)); C(mpECP_clear(v)); C(mpECP_clear(w)); C(mpECurve_clear(cv)); break; }
    case 3: case 4: { mpECurve_t cv; lib_curve_make(cv, c); mpECP_t g, r; C(mpECP_init(g, cv)); C(mpECP_init(r, cv)); lib_set(g, cv, P); Z s = ref::mod(a, c.n); MZ zs(s); mpFp_t f; C(mpFp_init(f, n)); C(mpFp_set_mpz(f, zs, n)); if (k == 3) C(mpECP_scalar_mul(r, g, f)); else C(mpECP_scalar_base_mul(r, g, f)); chk_pt(r, c, ref::mul(c, P, s), k == 3 ? "scalar_mul" : "scalar_base_mul"); C(mpFp_clear(f)); C(mpECP_clear(g)); C(mpECP_clear(r)); C(mpECurve_clear(cv)); break; }
    case 5: { mpFp_t f; C(mpFp_init(f, n)); C(mpFp_urandom(f, n)); Z v = lib_fp(f); if (v >= c.n) violation("wrong-result", "thread %d: random element %s out of range", cur_tid(), ref::str(v).c_str()); rnd[0] = v; C(mpFp_urandom(f, n)); rnd[1] = lib_fp(f); C(mpFp_clear(f)); break; }
    case 6: { mpECurve_t cv; lib_curve_make(cv, c); mpECP_t r; C(mpECP_init(r, cv)); C(mpECP_urandom(r, cv)); Pt v = lib_value(r, c); if (!ref::on_curve(c, v)) violation("wrong-result", "thread %d: random point off the curve", cur_tid()); C(mpECP_clear(r)); C(mpECurve_clear(cv)); break; }
    case 7: { Z d = ref::mod(b, c.n - 1) + 1; if (!can_sign(x, d, msg)) return; mpECurve_t cv; lib_curve_make(cv, c); Key K; key_make(K, cv, c, d); mpECDSASignatureScheme_t ss; C(mpECDSASignatureScheme_init(ss, cv, hash_handle(x.hi))); mpECDSASignature_t s, t; if (C(mpECDSASignature_init_Sign(s, ss, K.sk, (unsigned char*)msg.data(), msg.size()))) violation("wrong-result", "thread %d: signing failed", cur_tid());
      Z rr = lib_fp(s->r), sv = lib_fp(s->s); if (!ref::ecdsa_ok(c, K.Q, hash_e(c, x.hi, msg), rr, sv)) violation("wrong-result", "thread %d: signature (%s,%s) is wrong on %s", cur_tid(), ref::str(rr).c_str(), ref::str(sv).c_str(), show(c).c_str());
      char* str = (char*)C(mpECDSASignature_export_str(s)); string want = hexs(ref::to_bytes(rr, c.nlen()) + ref::to_bytes(sv, c.nlen())); if (want != str) violation("wrong-result", "thread %d: exported %s instead of %s", cur_tid(), str, want.c_str()); if (C(mpECDSASignature_init_import_str(t, ss, str))) violation("wrong-result", "thread %d: import failed", cur_tid()); C(free(str));
      if (C(mpECDSASignature_verify_cmp(t, K.pk, (unsigned char*)msg.data(), msg.size()))) violation("wrong-result", "thread %d: own signature does not verify on %s", cur_tid(), show(c).c_str()); C(mpECDSASignature_clear(s)); C(mpECDSASignature_clear(t)); C(mpECDSASignatureScheme_clear(ss)); key_clear(K); C(mpECurve_clear(cv)); break; }
    case 8: { mpECurve_t cv; lib_curve_make(cv, c); Key K; key_make(K, cv, c, ref::mod(b, c.n - 1) + 1); mpECP_t m, o; C(mpECP_init(m, cv)); lib_set(m, cv, P); mpECElgamalCiphertext_t ct; if (C(mpECElgamal_init_encrypt(ct, K.pk, m)) || C(mpECElgamal_init_decrypt(o, K.sk, ct))) violation("wrong-result", "thread %d: encryption failed", cur_tid()); chk_pt(o, c, P, "decryption"); C(mpECElgamal_clear(ct)); C(mpECP_clear(o)); C(mpECP_clear(m)); key_clear(K); C(mpECurve_clear(cv)); break; }
    case 11: { mpECurve_t cv; lib_curve_make(cv, c); mpECDSASignatureScheme_t ss; C(mpECDSASignatureScheme_init(ss, cv, hash_handle(x.hi)));
      for (int i = 0; i < 3; i++) { Z r = ref::mod(a + b * i, c.n - 1) + 1, s = ref::mod(b + a * i, c.n - 1) + 1; string enc = ref::to_bytes(r, c.nlen()) + ref::to_bytes(s, c.nlen()); mpECDSASignature_t t; if (C(mpECDSASignature_init_import_bytes(t, ss, (unsigned char*)enc.data(), enc.size()))) violation("wrong-result", "thread %d: import of (%s,%s) failed", cur_tid(), ref::str(r).c_str(), ref::str(s).c_str());
        size_t l = 0; unsigned char* o = (unsigned char*)C(mpECDSASignature_export_bytes(t, &l)); if (string((char*)o, l) != enc) violation("wrong-result", "thread %d: exported %s instead of %s", cur_tid(), hexs(string((char*)o, l)).c_str(), hexs(enc).c_str()); C(free(o)); char* st = (char*)C(mpECDSASignature_export_str(t)); if (hexs(enc) != st) violation("wrong-result", "thread %d: exported %s instead of %s", cur_tid(), st, hexs(enc).c_str());
        mpECDSASignature_t q; if (C(mpECDSASignature_init_import_str(q, ss, st))) violation("wrong-result", "thread %d: import of own text failed", cur_tid()); chk_fp(q->r, r, "r after import"); chk_fp(q->s, s, "s after import"); C(free(st)); C(mpECDSASignature_clear(q)); C(mpECDSASignature_clear(t)); }
      C(mpECDSASignatureScheme_clear(ss)); C(mpECurve_clear(cv)); break; }
    default: { mpECurve_t cv; lib_curve_make(cv, c); mpECP_t u, v; C(mpECP_init(u, cv)); C(mpECP_init(v, cv)); lib_set(u, cv, P); int comp = (int)(mpz_odd_p(a.get_mpz_t())); if (k == 9) { string s(C(mpECP_out_strlen(u, comp)) + 1, 0); C(mpECP_out_str(&s[0], u, comp)); s.resize(s.size() - 1); if (s != hexs(ref::encode(c, P, comp))) violation("wrong-result", "thread %d: text of %s is %s", cur_tid(), show(P).c_str(), s.c_str()); if (C(mpECP_set_str(v, (char*)s.c_str(), cv))) violation("wrong-result", "thread %d: own text refused", cur_tid()); }
      else { string s(C(mpECP_out_bytelen(u, comp)), 0); C(mpECP_out_bytes((unsigned char*)&s[0], u, comp)); if (s != ref::encode(c, P, comp)) violation("wrong-result", "thread %d: bytes of %s are wrong", cur_tid(), show(P).c_str()); if (C(mpECP_set_bytes(v, (unsigned char*)s.data(), s.size(), cv))) violation("wrong-result", "thread %d: own bytes refused", cur_tid()); }
      chk_pt(v, c, P, "decoding"); C(mpECP_clear(u)); C(mpECP_clear(v)); C(mpECurve_clear(cv)); }
  }
}
static const int N_OWN = 12;
static vector<Z>& thread_primes() { static vector<Z> v; if (v.empty()) for (auto s : {"d", "1f", "fb", "fffffffb", "ffffffffffffffc5", "7fffffffffffffffffffffffffffffff", "db7c2abf62e35e668076bead208b"}) v.push_back(ref::hex(s)); return v; }
SCENARIO(T01_separate) {
  mem_random_cfg(); if (flip(1, 4)) { C(_enable_gmp_safe_clean()); ev("safe cleaning on"); } bool soft = flip(1, 6); if (soft) { }
  // threads use one or two sets of parameters, so that they meet in what the library shares
  TCtx x[2]; int nx = 1 + (int)choose(2); for (int i = 0; i < nx; i++) { x[i].c = thread_curve(&x[i].pts); x[i].tiny = !x[i].pts.empty(); x[i].hi = (int)choose(n_hashes()); }
  int warm = (int)choose(3); if (warm) { MZ n(x[0].c.n); mpFp_t f; C(mpFp_init(f, n)); if (warm == 2) C(mpFp_urandom(f, n)); C(mpFp_clear(f)); ev("the main thread used field %s before", ref::str(x[0].c.n).c_str()); }
  int nt = 2 + (int)choose(3); struct W { int k, x; Z p, a, b; Pt P, Q; string m; Z rnd[2]; }; vector<vector<W>> plan(nt); vector<Z>& pr = thread_primes(); int same = (int)choose(3); int k0 = (int)choose(N_OWN); int b0 = (int)choose(pr.size());
  for (int t = 0; t < nt; t++) { int m = 1 + (int)choose(3); for (int i = 0; i < m; i++) { W w; w.k = same == 0 ? (int)choose(N_OWN) : same == 1 ? k0 : 0; w.x = (int)choose(nx); w.p = pr[same ? (b0 + i) % pr.size() : choose(pr.size())]; w.a = rand_below(w.p); w.b = rand_below(w.p); auto& X = x[w.x]; w.P = rand_point(X.c, &X.pts); w.Q = rand_point(X.c, &X.pts); w.m = rand_msg(12, true); plan[t].push_back(w); } }
  vector<std::function<void()>> f; for (int t = 0; t < nt; t++) f.push_back([&, t]() { for (auto& w : plan[t]) { ev("t%d: work %d", t + 1, w.k); own_work(w.k, x[w.x], w.p, w.a, w.b, w.P, w.Q, w.m, w.rnd); } });
  run_threads(f); mem_check();
  // one after the other, everything still works
  { W& w = plan[0][0]; for (int k : {0, 3}) own_work(k, x[w.x], w.p, w.a, w.b, w.P, w.Q, "m", w.rnd); }
  run_atexit(); if (mem_live_blocks()) violation("lost-state", "%llu blocks are still allocated after every thread cleared its objects and the process ended: %s", (unsigned long long)mem_live_blocks(), mem_live_list().c_str());
  if (dev_open_files()) violation("lost-state", "%llu handles of the random device are still open at the end", (unsigned long long)dev_open_files());
}
// ---------------------------------------------------------------- T02
namespace { struct Sh2 { TCtx x; mpECurve_t cv; Key K; mpECP_t A, B; Pt a, b; mpFp_t f, g; Z fv, gv; mpECDSASignatureScheme_t ss; mpECDSASignature_t sg; Z r, s; string m; mpECElgamalCiphertext_t ct; Pt cm, cC, cD; bool sig = false; }; }
static void shared_work(int k, Sh2& S, const Z& z, const Pt& P) {
  const ref::Curve& c = S.x.c; doing("shared work %d on %s", k, show(c).c_str()); MZ n(c.n); mpECP_t r, q; C(mpECP_init(r, S.cv));
  switch (k) {
    case 0: C(mpECP_scalar_mul(r, S.A, S.f)); chk_pt(r, c, ref::mul(c, S.a, S.fv), "scalar_mul of a shared point"); break;
    case 1: C(mpECP_scalar_base_mul(r, S.A, S.f)); chk_pt(r, c, ref::mul(c, S.a, S.fv), "scalar_base_mul of a shared point"); break;
    case 2: C(mpECP_add(r, S.A, S.B)); chk_pt(r, c, ref::add(c, S.a, S.b), "add of shared points"); C(mpECP_sub(r, S.A, S.B)); chk_pt(r, c, ref::sub(c, S.a, S.b), "sub of shared points"); break;
    case 3: { bool e = C(mpECP_cmp(S.A, S.B)) == 0; if (e != (S.a == S.b)) violation("wrong-result", "thread %d: comparison of shared points", cur_tid()); C(mpECP_double(r, S.A)); chk_pt(r, c, ref::add(c, S.a, S.a), "double of a shared point"); C(mpECP_neg(r, S.A)); chk_pt(r, c, ref::neg(c, S.a), "neg of a shared point"); break; }
    case 4: { bool text = mpz_odd_p(z.get_mpz_t()); int comp = mpz_tstbit(z.get_mpz_t(), 1); if (text) { string s(C(mpECP_out_strlen(S.A, comp)) + 1, 0); C(mpECP_out_str(&s[0], S.A, comp)); s.resize(s.size() - 1); if (s != hexs(ref::encode(c, S.a, comp))) violation("wrong-result", "thread %d: text of the shared point %s is %s", cur_tid(), show(S.a).c_str(), s.c_str()); } else { string s(C(mpECP_out_bytelen(S.A, comp)), 0); C(mpECP_out_bytes((unsigned char*)&s[0], S.A, comp)); if (s != ref::encode(c, S.a, comp)) violation("wrong-result", "thread %d: bytes of the shared point %s are %s", cur_tid(), show(S.a).c_str(), hexs(s).c_str()); } break; }
    case 5: C(mpECP_set(r, S.A)); chk_pt(r, c, S.a, "copy of a shared point"); C(mpECP_scalar_base_mul(r, r, S.g)); chk_pt(r, c, ref::mul(c, S.a, S.gv), "multiplication of a copy"); break;
    case 6: { if (S.a.inf) break; MZ x, y; C(mpz_set_mpECP_affine_x(x, S.A)); C(mpz_set_mpECP_affine_y(y, S.A)); if (x.get() != S.a.x || y.get() != S.a.y) violation("wrong-result", "thread %d: coordinates of the shared point", cur_tid()); break; }
    case 7: { mpFp_t t; C(mpFp_init(t, n)); C(mpFp_mul(t, S.f, S.g)); chk_fp(t, ref::mod(S.fv * S.gv, c.n), "mul of shared elements"); C(mpFp_add(t, S.f, S.g)); chk_fp(t, ref::mod(S.fv + S.gv, c.n), "add of shared elements"); Z w; bool ok = ref::inv(w, S.fv, c.n); int st = C(mpFp_inv(t, S.f)); if ((st == 0) != ok) violation("wrong-result", "thread %d: inverse of a shared element", cur_tid()); if (ok) chk_fp(t, w, "inverse of a shared element"); C(mpFp_clear(t)); break; }
    case 8: { mpECurve_t d; C(mpECurve_init(d)); C(mpECurve_set(d, S.cv)); if (C(mpECurve_cmp(d, S.cv))) violation("wrong-result", "thread %d: copy of the shared curve differs", cur_tid()); lib_curve_expect(d, c, "copy of a shared curve"); C(mpECurve_clear(d)); MZ x(P.x), y(P.y); if (!P.inf && !C(mpECurve_point_check(S.cv, x, y))) violation("wrong-result", "thread %d: point check", cur_tid()); break; }
    case 9: { lib_set(r, S.cv, P); C(mpECP_add(r, r, S.A)); chk_pt(r, c, ref::add(c, P, S.a), "sum with a shared point"); C(mpECP_scalar_mul(r, r, S.f)); chk_pt(r, c, ref::mul(c, ref::add(c, P, S.a), S.fv), "product with a shared scalar"); break; }
    case 10: { string b = ref::encode(c, P, mpz_odd_p(z.get_mpz_t())); if (C(mpECP_set_bytes(r, (unsigned char*)b.data(), b.size(), S.cv))) violation("wrong-result", "thread %d: decoding failed", cur_tid()); chk_pt(r, c, P, "decoding on a shared curve"); break; }
    case 11: { mpECElgamalCiphertext_t t; mpECP_t m; if (C(mpECElgamal_init_encrypt(t, S.K.pk, S.A))) violation("wrong-result", "thread %d: encryption failed", cur_tid()); if (C(mpECElgamal_init_decrypt(m, S.K.sk, t))) violation("wrong-result", "thread %d: decryption failed", cur_tid()); chk_pt(m, c, S.a, "encryption to a shared key"); C(mpECP_clear(m)); C(mpECElgamal_clear(t)); break; }
    case 12: { mpECP_t m; if (C(mpECElgamal_init_decrypt(m, S.K.sk, S.ct))) violation("wrong-result", "thread %d: decryption failed", cur_tid()); chk_pt(m, c, S.cm, "decryption of a shared ciphertext"); C(mpECP_clear(m)); break; }
    case 13: { if (!S.sig) break; mpECDSASignature_t t; if (C(mpECDSASignature_init_Sign(t, S.ss, S.K.sk, (unsigned char*)S.m.data(), S.m.size()))) violation("wrong-result", "thread %d: signing failed", cur_tid()); Z rr = lib_fp(t->r), sv = lib_fp(t->s); if (!ref::ecdsa_ok(c, S.K.Q, hash_e(c, S.x.hi, S.m), rr, sv)) violation("wrong-result", "thread %d: signature (%s,%s) with shared key and scheme is wrong on %s", cur_tid(), ref::str(rr).c_str(), ref::str(sv).c_str(), show(c).c_str()); C(mpECDSASignature_clear(t)); break; }
    case 14: { if (!S.sig) break; int st = C(mpECDSASignature_verify_cmp(S.sg, S.K.pk, (unsigned char*)S.m.data(), S.m.size())); if (st) violation("wrong-result", "thread %d: a valid shared signature was refused (%d) on %s", cur_tid(), st, show(c).c_str()); string o = S.m + "x"; bool w = ref::ecdsa_ok(c, S.K.Q, hash_e(c, S.x.hi, o), S.r, S.s); st = C(mpECDSASignature_verify_cmp(S.sg, S.K.pk, (unsigned char*)o.data(), o.size())); if ((st == 0) != w) violation("wrong-result", "thread %d: verdict %d for another message", cur_tid(), st); break; }
    case 15: { if (!S.sig) break; size_t l = 0; unsigned char* b = (unsigned char*)C(mpECDSASignature_export_bytes(S.sg, &l)); if (string((char*)b, l) != ref::to_bytes(S.r, c.nlen()) + ref::to_bytes(S.s, c.nlen())) violation("wrong-result", "thread %d: bytes of the shared signature", cur_tid()); mpECDSASignature_t t; if (C(mpECDSASignature_init_import_bytes(t, S.ss, b, l))) violation("wrong-result", "thread %d: import failed", cur_tid()); C(free(b)); chk_fp(t->r, S.r, "import with a shared scheme"); C(mpECDSASignature_clear(t)); break; }
    default: { C(mpECP_scalar_base_mul(r, S.ss->cv_G, S.g)); chk_pt(r, c, ref::mul(c, ref::gen(c), S.gv), "the shared generator's tables"); C(mpECP_scalar_mul(r, S.K.pk, S.g)); chk_pt(r, c, ref::mul(c, S.K.Q, S.gv), "product with the shared public key"); }
  }
  (void)q; C(mpECP_clear(r));
}
static const int N_SH = 17;
SCENARIO(T02_shared) {
  mem_random_cfg(); if (flip(1, 4)) { C(_enable_gmp_safe_clean()); ev("safe cleaning on"); }
  Sh2 S; S.x.c = thread_curve(&S.x.pts); S.x.tiny = !S.x.pts.empty(); S.x.hi = (int)choose(n_hashes()); const ref::Curve& c = S.x.c; MZ n(c.n);
  lib_curve_make(S.cv, c); key_make(S.K, S.cv, c, rand_key(c)); S.a = rand_point(c, &S.x.pts); S.b = flip(1, 4) ? S.a : rand_point(c, &S.x.pts);
  C(mpECP_init(S.A, S.cv)); C(mpECP_init(S.B, S.cv)); lib_set(S.A, S.cv, S.a); lib_set(S.B, S.cv, S.b);
  if (flip(1, 2)) { C(mpECP_add(S.A, S.A, S.B)); C(mpECP_sub(S.A, S.A, S.B)); C(mpECP_add(S.B, S.B, S.A)); S.b = ref::add(c, S.b, S.a); ev("shared points are not normalised"); }  // projective representation
  if (flip(1, 4)) { C(mpECP_scalar_base_mul_setup(S.A)); ev("tables exist"); }
  S.fv = rand_below(c.n); S.gv = rand_below(c.n); MZ zf(S.fv), zg(S.gv); C(mpFp_init(S.f, n)); C(mpFp_init(S.g, n)); C(mpFp_set_mpz(S.f, zf, n)); C(mpFp_set_mpz(S.g, zg, n));
  C(mpECDSASignatureScheme_init(S.ss, S.cv, hash_handle(S.x.hi))); S.m = rand_msg(12, true);
  int only = (int)choose(3); int k0 = (int)choose(N_SH), k1 = (int)choose(N_SH);
  if (can_sign(S.x, S.K.d, S.m)) { if (C(mpECDSASignature_init_Sign(S.sg, S.ss, S.K.sk, (unsigned char*)S.m.data(), S.m.size()))) violation("wrong-result", "signing failed"); S.r = lib_fp(S.sg->r); S.s = lib_fp(S.sg->s); S.sig = true; }
  S.cm = rand_point(c, &S.x.pts); { mpECP_t m; C(mpECP_init(m, S.cv)); lib_set(m, S.cv, S.cm); if (C(mpECElgamal_init_encrypt(S.ct, S.K.pk, m))) violation("wrong-result", "encryption failed"); C(mpECP_clear(m)); } { mpECP_t t; C(mpECP_init(t, S.cv)); C(mpECP_set(t, S.ct->C)); S.cC = lib_value(t, c); C(mpECP_set(t, S.ct->D)); S.cD = lib_value(t, c); C(mpECP_clear(t)); }
  int nt = 2 + (int)choose(2); struct W { int k; Z z; Pt P; }; vector<vector<W>> plan(nt);
  for (auto& p : plan) { int m = 1 + (int)choose(3); for (int i = 0; i < m; i++) { W w; w.k = only == 0 ? (int)choose(N_SH) : only == 1 ? k0 : flip(1, 2) ? k0 : k1; w.z = Z((unsigned long)choose(16)); w.P = rand_point(c, &S.x.pts); p.push_back(w); } }
  vector<std::function<void()>> f; for (int t = 0; t < nt; t++) f.push_back([&, t]() { for (auto& w : plan[t]) { ev("t%d: work %d", t + 1, w.k); shared_work(w.k, S, w.z, w.P); } });
  run_threads(f); mem_check();
  doing("inputs after the threads"); lib_curve_expect(S.cv, c, "shared curve");
  auto same = [&](mpECP_t p, const Pt& v, const char* w) { Pt g = lib_value(p, c); if (g != v) violation("input-changed", "%s is %s after the threads, it was %s, on %s", w, show(g).c_str(), show(v).c_str(), show(c).c_str()); };
  same(S.A, S.a, "a shared point"); same(S.B, S.b, "a shared point"); same(S.K.pk, S.K.Q, "the public key"); same(S.ct->C, S.cC, "a ciphertext half"); same(S.ct->D, S.cD, "a ciphertext half"); same(S.ss->cv_G, ref::gen(c), "the scheme's generator");
  if (lib_fp(S.f) != S.fv || lib_fp(S.g) != S.gv || lib_fp(S.K.sk) != S.K.d) violation("input-changed", "a shared scalar changed"); if (S.sig && (lib_fp(S.sg->r) != S.r || lib_fp(S.sg->s) != S.s)) violation("input-changed", "the shared signature changed");
  C(mpECP_scalar_base_mul(S.B, S.A, S.f)); expect_pt("wrong-result", S.B, c, ref::mul(c, S.a, S.fv), "multiplication after the threads");
  if (S.sig) C(mpECDSASignature_clear(S.sg)); C(mpECElgamal_clear(S.ct)); C(mpECDSASignatureScheme_clear(S.ss)); C(mpFp_clear(S.f)); C(mpFp_clear(S.g)); C(mpECP_clear(S.A)); C(mpECP_clear(S.B)); key_clear(S.K); C(mpECurve_clear(S.cv));
  run_atexit(); if (mem_live_blocks()) violation("lost-state", "%llu blocks are still allocated at the end: %s", (unsigned long long)mem_live_blocks(), mem_live_list().c_str());
}
