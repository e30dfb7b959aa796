// M01 no leak and no memory error in any history, M02 refused allocations, M03 secrets in released memory
#include "proto.h"
#include <signal.h>
#include <functional>
using std::string; using std::vector;
// ---------------------------------------------------------------- M01
SCENARIO(M01_any) {
  static const char* names[] = {"F01_history", "P01_history", "P02_scalars", "P03_channel", "K01_exchange", "C01_objects", "C01_named", "D01_sessions", "D02_channel", "D03_codec", "E01_sessions", "P02_named"};
  int k = (int)choose(sizeof names / sizeof *names); ev("history of %s", names[k]); run_scenario(names[k]); doing("process end");
  run_atexit(); mem_check();
  if (mem_live_blocks()) violation("leak", "%llu blocks are still allocated after every object was cleared and the process ended normally: %s", (unsigned long long)mem_live_blocks(), mem_live_list().c_str());
  if (dev_open_files()) violation("leak", "%llu handles of the random device are still open at the end", (unsigned long long)dev_open_files());
}
// objects of every kind made, cleared and made again in any order, with operations that fail in between
SCENARIO(M01_lifecycle) {
  mem_random_cfg(); if (flip(1, 3)) { C(_enable_gmp_safe_clean()); ev("safe cleaning on"); }
  vector<Pt> pts[2]; ref::Curve c[2]; mpECurve_t cv[2]; for (int i = 0; i < 2; i++) { CurveReq q; q.maxbits = 130; c[i] = pick_curve(q, &pts[i]); lib_curve_make(cv[i], c[i]); }
  struct O { int kind = 0, cv = 0; mpFp_t f; mpECP_t p; mpECurve_t c; mpECDSASignatureScheme_t ss; mpECDSASignature_t sg; mpECElgamalCiphertext_t ct; int dep = -1; }; const int N = 6; O o[N];
  auto drop = [&](int i) { switch (o[i].kind) { case 1: C(mpFp_clear(o[i].f)); break; case 2: C(mpECP_clear(o[i].p)); break; case 3: C(mpECurve_clear(o[i].c)); break; case 4: C(mpECDSASignatureScheme_clear(o[i].ss)); break; case 5: C(mpECDSASignature_clear(o[i].sg)); break; case 6: C(mpECElgamal_clear(o[i].ct)); break; } o[i].kind = 0; };
  int steps = 5 + (int)choose(30); int hi = (int)choose(n_hashes()); int fl = (int)choose(4);
  for (int t = 0; t < steps; t++) {
    int i = (int)choose(N), v = (int)choose(2), k = (int)choose(10); const ref::Curve& r = c[v]; MZ n(r.n); step(); bool used = false; for (auto& x : o) used |= x.kind == 5 && x.dep == i;
    if (o[i].kind && !used && flip(1, 2)) { ev("drop %d (kind %d)", i, o[i].kind); drop(i); }
    if (!o[i].kind) { k %= 6; doing("making an object of kind %d on %s", k + 1, show(r).c_str()); o[i].cv = v;
      switch (k) {
        case 0: C(mpFp_init(o[i].f, n)); if (flip(1, 8)) { ev("an element without a value comes and goes"); C(mpFp_clear(o[i].f)); C(mpFp_init(o[i].f, n)); } C(mpFp_urandom(o[i].f, n)); break;
        case 1: C(mpECP_init(o[i].p, cv[v])); if (flip(1, 8)) { ev("a point without a value comes and goes"); C(mpECP_clear(o[i].p)); C(mpECP_init(o[i].p, cv[v])); } lib_set(o[i].p, cv[v], rand_point(r, &pts[v])); if (flip(1, 3)) C(mpECP_scalar_base_mul_setup(o[i].p)); break;
        case 2: C(mpECurve_init(o[i].c)); if (flip(2, 3)) lib_curve_make(o[i].c, r, false); break;
        case 3: C(mpECDSASignatureScheme_init(o[i].ss, cv[v], hash_handle(hi))); break;
        case 4: { int s = -1; for (int j = 0; j < N; j++) if (o[j].kind == 4) s = j; if (s < 0) { k = -1; break; } const ref::Curve& sr = c[o[s].cv]; string b = ref::to_bytes(rand_key(sr), sr.nlen()) + ref::to_bytes(rand_key(sr), sr.nlen()); bool bad = flip(1, 3); string h; if (bad) b = corrupt(b, &h); int st = C(mpECDSASignature_init_import_bytes(o[i].sg, o[s].ss, (unsigned char*)b.data(), b.size())); if (st) k = -1; else o[i].dep = s; break; }
        default: { mpECP_t m; C(mpECP_init(m, cv[v])); lib_set(m, cv[v], rand_point(r, &pts[v])); Key K; key_make(K, cv[v], r, rand_key(r)); int st = C(mpECElgamal_init_encrypt(o[i].ct, K.pk, m)); C(mpECP_clear(m)); key_clear(K); if (st) violation("encrypt-failed", "encryption failed"); }
      }
      o[i].kind = k + 1; ev("make %d kind %d on curve %d", i, k + 1, v); continue; }
    O& x = o[i]; const ref::Curve& xr = c[x.cv]; int j = (int)choose(N); doing("work %d on an object of kind %d on %s", k, x.kind, show(xr).c_str()); ev("work %d on %d (kind %d)", k, i, x.kind);
    switch (x.kind) {
      case 1: switch (k % 5) { case 0: { MZ p(c[v].p); C(mpFp_urandom(x.f, p)); break; } case 1: { MZ p(c[v].n); MZ z(rand_int(c[v].n)); C(mpFp_set_mpz(x.f, z, p)); break; } case 2: { MZ p(c[v].n), z(Z(0)); C(mpFp_set_mpz(x.f, z, p)); C(mpFp_inv(x.f, x.f)); break; } case 3: if (o[j].kind == 1) C(mpFp_set(x.f, o[j].f)); break; default: if (o[j].kind == 1 && o[j].f->fp == x.f->fp) C(mpFp_swap(x.f, o[j].f)); } break;
      case 2: switch (k) { case 0: C(mpECP_set_neutral(x.p, cv[v])); x.cv = v; break; case 1: lib_set(x.p, cv[v], rand_point(c[v], &pts[v])); x.cv = v; break; case 2: C(mpECP_scalar_base_mul_setup(x.p)); break;
          case 3: if (o[j].kind == 2) { C(mpECP_set(x.p, o[j].p)); x.cv = o[j].cv; } break; case 4: if (o[j].kind == 2 && o[j].cv == x.cv) C(mpECP_swap(x.p, o[j].p)); break;
          case 5: { string h, b = corrupt(ref::encode(c[v], rand_point(c[v], &pts[v]), flip(1, 2)), &h); int st = C(mpECP_set_bytes(x.p, (unsigned char*)b.data(), b.size(), cv[v])); if (st) { if (flip(1, 2)) { C(mpECP_clear(x.p)); x.kind = 0; } else { lib_set(x.p, cv[v], ref::gen(c[v])); x.cv = v; } } else x.cv = v; break; }
          case 6: { string h, b = corrupt(hexs(ref::encode(c[v], rand_point(c[v], &pts[v]), flip(1, 2))), &h); b = b.c_str(); int st = C(mpECP_set_str(x.p, (char*)b.c_str(), cv[v])); if (st) { lib_set(x.p, cv[v], ref::gen(c[v])); } x.cv = v; break; }
          case 7: C(mpECP_urandom(x.p, cv[v])); x.cv = v; break; case 8: { mpFp_t f; MZ nn(xr.n); C(mpFp_init(f, nn)); C(mpFp_urandom(f, nn)); C(mpECP_scalar_base_mul(x.p, x.p, f)); C(mpFp_clear(f)); break; } default: if (o[j].kind == 2 && o[j].cv == x.cv && flip(1, 1)) C(mpECP_add(x.p, x.p, o[j].p)); } break;
      case 3: switch (k % 4) { case 0: lib_curve_make(x.c, c[v], false); break; case 1: C(mpECurve_set(x.c, cv[v])); break; case 2: { int st = C(mpECurve_set_named(x.c, (char*)"nonesuch")); if (st == 0) violation("wrong-status", "an unknown name was accepted"); break; } default: { ref::Curve b = c[v]; MZ p(b.p), u(b.u), w(b.v), h(b.h), gx(b.gx), gy(ref::mod(b.gy + 1, b.p)); int st; switch (fl) { case 0: st = C(mpECurve_set_mpz_ws(x.c, p, u, w, n, h, gx, gy, b.bits())); break; case 1: st = C(mpECurve_set_mpz_ed(x.c, p, u, w, n, h, gx, gy, b.bits())); break; case 2: if (b.u == 0) break; st = C(mpECurve_set_mpz_mo(x.c, p, u, w, n, h, gx, gy, b.bits())); break; default: st = C(mpECurve_set_mpz_te(x.c, p, u, w, n, h, gx, gy, b.bits())); } (void)st; if (flip(1, 2)) { C(mpECurve_clear(x.c)); x.kind = 0; } } } break;
      case 4: { if (used) break; C(mpECDSASignatureScheme_clear(x.ss)); C(mpECDSASignatureScheme_init(x.ss, cv[v], hash_handle(hi))); x.cv = v; break; }
      case 5: { size_t z; if (k & 1) C(free(C(mpECDSASignature_export_bytes(x.sg, &z)))); else C(free(C(mpECDSASignature_export_str(x.sg)))); break; }
      default: { mpFp_t s; MZ nn(c[v].n); C(mpFp_init(s, nn)); C(mpFp_urandom(s, nn)); mpECP_t out; int st = C(mpECElgamal_init_decrypt(out, s, x.ct)); if (!st) C(mpECP_clear(out)); C(mpFp_clear(s)); }
    }
    u64 h[3] = {(u64)x.kind, (u64)k, (u64)c[v].type}; cover(hash64(h, sizeof h));
  }
  for (int i = 0; i < N; i++) if (o[i].kind == 5) drop(i); for (int i = 0; i < N; i++) drop(i); for (auto& x : cv) C(mpECurve_clear(x)); doing("process end"); run_atexit(); mem_check();
  if (mem_live_blocks()) violation("leak", "%llu blocks are still allocated after every object was cleared and the process ended normally: %s", (unsigned long long)mem_live_blocks(), mem_live_list().c_str());
  if (dev_open_files()) violation("leak", "%llu handles of the random device are still open at the end", (unsigned long long)dev_open_files());
}
// ---------------------------------------------------------------- M02
namespace { struct R2 { u64 n, sites, big; int done, st, failed, mode; }; }
static int fail_with(const char* what, int k, const string& got, const string& want) { violation("wrong-result", "with allocation %llu refused, %s returned %s as a success; the right value is %s", (unsigned long long)k, what, got.c_str(), want.c_str()); }
SCENARIO(M02_refused) {
  mem_random_cfg(); bool safe = flip(1, 3); if (safe) { C(_enable_gmp_safe_clean()); ev("safe cleaning on"); }
  CurveReq q; q.maxbits = 130; vector<Pt> pts; ref::Curve c = pick_curve(q, &pts); bool tiny = !pts.empty(); MZ n(c.n), p(c.p);
  mpECurve_t cv; lib_curve_make(cv, c); Key K; key_make(K, cv, c, rand_key(c)); Pt a = rand_point(c, &pts), b = rand_point(c, &pts); mpECP_t A, B; C(mpECP_init(A, cv)); C(mpECP_init(B, cv)); lib_set(A, cv, a); lib_set(B, cv, b);
  int hi = (int)choose(n_hashes()); mpECDSASignatureScheme_t ss; C(mpECDSASignatureScheme_init(ss, cv, hash_handle(hi))); string msg = rand_msg(20, true); Z e = hash_e(c, hi, msg); bool cs = !tiny || !usable_nonces(c, K.d, e).empty();
  mpECDSASignature_t sg; Z sr, sv; if (cs) { if (C(mpECDSASignature_init_Sign(sg, ss, K.sk, (unsigned char*)msg.data(), msg.size()))) violation("sign-failed", "signing failed"); sr = lib_fp(sg->r); sv = lib_fp(sg->s); }
  mpECElgamalCiphertext_t ct; if (C(mpECElgamal_init_encrypt(ct, K.pk, A))) violation("encrypt-failed", "encryption failed");
  Z x = rand_below(c.n), y = rand_below(c.n); mpFp_t X, Y; C(mpFp_init(X, n)); C(mpFp_init(Y, n)); { MZ zx(x), zy(y); C(mpFp_set_mpz(X, zx, n)); C(mpFp_set_mpz(Y, zy, n)); }
  if (flip(1, 4)) { C(mpECP_scalar_base_mul_setup(A)); }
  CurveReq q2; q2.maxbits = 256; vector<Pt> pts2; ref::Curve c2 = pick_curve(q2, &pts2); Z big = rand_int(c.n); Z newp = ref::hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"); { static const char* np[] = {"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", "ffffffffffffffc5", "71", "101"}; newp = ref::hex(np[choose(5)]); }
  int op = (int)choose(34); ev("operation %d", op); int comp = (int)choose(2); string pe = ref::encode(c, b, comp), pt = hexs(pe), se = cs ? ref::to_bytes(sr, c.nlen()) + ref::to_bytes(sv, c.nlen()) : "", stx = hexs(se);
  u64 cur_k = 0;
  // the operation; the results are read with the full memory back
  auto full = [&]() { mem.fail_at = 0; };
  auto ck = [&](const char* what, mpFp_t f, const Z& w) { full(); Z g = lib_fp(f); if (g != w) fail_with(what, cur_k, ref::str(g), ref::str(w)); };
  auto cp = [&](const char* what, mpECP_t f, const ref::Curve& r, const Pt& w) { full(); Pt g = lib_value(f, r); if (g != w) fail_with(what, cur_k, show(g), show(w)); };
  // a draw which had no memory for its random bytes must not end as a success with a value that anyone can guess
  Z huge = Z(1) << 64;
  auto guess = [&](const char* what, const Z& v) { if (c.n > huge && (v < 65536 || Z(c.n - v) < 65536)) fail_with(what, cur_k, ref::str(v), "a random value"); };
  auto run_op = [&]() -> int {
    int st = 0;
    switch (op) {
      case 0: { MZ np(newp); MZ z(big); mpFp_t f; C(mpFp_init(f, np)); C(mpFp_set_mpz(f, z, np)); ck("a first element of a new field", f, ref::mod(big, newp)); C(mpFp_clear(f)); break; }
      case 1: { mpFp_t f; C(mpFp_init(f, n)); C(mpFp_mul(f, X, Y)); ck("mul", f, ref::mod(x * y, c.n)); C(mpFp_clear(f)); break; }
      case 2: { mpFp_t f; C(mpFp_init(f, n)); st = C(mpFp_inv(f, X)); Z w; bool ok = ref::inv(w, x, c.n); if (!st && !ok) fail_with("inv", cur_k, "success", "failure"); if (!st) ck("inv", f, w); else full(); C(mpFp_clear(f)); if (!ok) st = 0; break; }
      case 3: { mpFp_t f; C(mpFp_init(f, n)); C(mpFp_sqr(f, X)); st = C(mpFp_sqrt(f, f)); if (!st) { full(); Z r = lib_fp(f); if (ref::mod(r * r - x * x, c.n) != 0) fail_with("sqrt", cur_k, ref::str(r), ref::str(x)); } full(); C(mpFp_clear(f)); break; }
      case 4: { mpFp_t f; MZ z(big < 0 ? Z(-big) : big); C(mpFp_init(f, n)); C(mpFp_pow_mpz(f, X, z)); ck("pow", f, ref::pw(x, z.get(), c.n)); C(mpFp_clear(f)); break; }
      case 5: case 6: { mpECurve_t d; C(mpECurve_init(d)); lib_curve_make(d, c2, false); full(); lib_curve_expect(d, c2, "defining a curve with an allocation refused"); mpECP_t g; C(mpECP_init(g, d)); lib_set(g, d, ref::gen(c2)); C(mpECP_add(g, g, g)); cp("a point of the new curve", g, c2, ref::add(c2, ref::gen(c2), ref::gen(c2))); C(mpECP_clear(g)); C(mpECurve_clear(d)); break; }
      case 7: { mpECurve_t d; C(mpECurve_init(d)); C(mpECurve_set(d, cv)); full(); lib_curve_expect(d, c, "copying a curve with an allocation refused"); C(mpECurve_clear(d)); break; }
      case 8: { int r = C(mpECurve_cmp(cv, K.pk->cvp)); full(); if (r) fail_with("curve comparison", cur_k, "different", "equal"); break; }
      case 9: { mpECP_t r; C(mpECP_init(r, cv)); C(mpECP_add(r, A, B)); cp("add", r, c, ref::add(c, a, b)); C(mpECP_clear(r)); break; }
      case 10: { mpECP_t r; C(mpECP_init(r, cv)); C(mpECP_double(r, A)); cp("double", r, c, ref::add(c, a, a)); C(mpECP_clear(r)); break; }
      case 11: { mpECP_t r; C(mpECP_init(r, cv)); C(mpECP_sub(r, A, B)); cp("sub", r, c, ref::sub(c, a, b)); C(mpECP_clear(r)); break; }
      case 12: { mpECP_t r; C(mpECP_init(r, cv)); C(mpECP_scalar_mul(r, A, X)); cp("scalar_mul", r, c, ref::mul(c, a, x)); C(mpECP_clear(r)); break; }
      case 13: { mpECP_t r; C(mpECP_init(r, cv)); MZ z(big); C(mpECP_scalar_mul_mpz(r, A, z)); cp("scalar_mul_mpz", r, c, ref::mul(c, a, ref::mod(big, c.n))); C(mpECP_clear(r)); break; }
      case 14: { mpECP_t r; C(mpECP_init(r, cv)); C(mpECP_scalar_base_mul(r, B, X)); cp("scalar_base_mul", r, c, ref::mul(c, b, x)); C(mpECP_scalar_base_mul(r, B, Y)); cp("a later scalar_base_mul", r, c, ref::mul(c, b, y)); C(mpECP_clear(r)); break; }
      case 15: { C(mpECP_scalar_base_mul_setup(B)); full(); mpECP_t r; C(mpECP_init(r, cv)); C(mpECP_scalar_base_mul(r, B, X)); cp("scalar_base_mul after setup", r, c, ref::mul(c, b, x)); C(mpECP_clear(r)); break; }
      case 16: { mpECP_t r; C(mpECP_init(r, cv)); C(mpECP_set(r, A)); cp("copy", r, c, a); C(mpECP_scalar_base_mul(r, r, X)); cp("multiplication of a copy", r, c, ref::mul(c, a, x)); C(mpECP_clear(r)); break; }
      case 17: { mpECP_t r; C(mpECP_init(r, cv)); st = C(mpECP_set_bytes(r, (unsigned char*)pe.data(), pe.size(), cv)); if (!st) cp("decoding", r, c, b); full(); C(mpECP_clear(r)); break; }
      case 18: { mpECP_t r; C(mpECP_init(r, cv)); st = C(mpECP_set_str(r, (char*)pt.c_str(), cv)); if (!st) cp("decoding of text", r, c, b); full(); C(mpECP_clear(r)); break; }
      case 19: { string s(pe.size(), 'u'); C(mpECP_out_bytes((unsigned char*)&s[0], B, comp)); full(); if (s != pe) fail_with("encoding", cur_k, hexs(s), hexs(pe)); break; }
      case 20: { string s(pt.size() + 1, 'u'); C(mpECP_out_str(&s[0], B, comp)); full(); s.resize(s.size() - 1); if (s != pt) fail_with("encoding to text", cur_k, s, pt); break; }
      case 21: { mpECP_t r; C(mpECP_init(r, cv)); C(mpECP_urandom(r, cv)); full(); Pt g = lib_value(r, c); if (!ref::on_curve(c, g)) fail_with("random point", cur_k, show(g), "a point of the curve"); if (c.n > huge && (ref::is_neutral(c, g) || g == ref::gen(c))) fail_with("random point", cur_k, show(g), "a random point"); C(mpECP_clear(r)); break; }
      case 22: { mpFp_t f; C(mpFp_init(f, n)); C(mpFp_urandom(f, n)); full(); Z g = lib_fp(f); if (g < 0 || g >= c.n) fail_with("random element", cur_k, ref::str(g), "in range"); guess("random element", g); C(mpFp_clear(f)); break; }
      case 23: { if (!cs) break; mpECDSASignature_t t; st = C(mpECDSASignature_init_Sign(t, ss, K.sk, (unsigned char*)msg.data(), msg.size())); full(); if (!st) { Z r = lib_fp(t->r), s = lib_fp(t->s); if (!ref::ecdsa_ok(c, K.Q, e, r, s)) fail_with("signing", cur_k, ref::str(r) + "," + ref::str(s), "a signature that satisfies the equation"); Z si; if (ref::inv(si, s, c.n)) guess("signing with the nonce", ref::mod(si * (e + r * K.d), c.n)); C(mpECDSASignature_clear(t)); } break; }
      case 24: { if (!cs) break; st = C(mpECDSASignature_verify_cmp(sg, K.pk, (unsigned char*)msg.data(), msg.size())); full(); break; }
      case 25: { if (!cs) break; string o = msg + "x"; bool w = ref::ecdsa_ok(c, K.Q, hash_e(c, hi, o), sr, sv); st = C(mpECDSASignature_verify_cmp(sg, K.pk, (unsigned char*)o.data(), o.size())); full(); if (!st && !w) fail_with("verification of another message", cur_k, "success", "failure"); if (!w) st = 0; break; }
      case 26: { if (!cs) break; size_t z = 0; unsigned char* g = (unsigned char*)C(mpECDSASignature_export_bytes(sg, &z)); full(); if (g && string((char*)g, z) != se) fail_with("signature export", cur_k, hexs(string((char*)g, z)), hexs(se)); if (!g) st = 1; else C(free(g)); break; }
      case 27: { if (!cs) break; char* g = (char*)C(mpECDSASignature_export_str(sg)); full(); if (g && g != stx) fail_with("signature export to text", cur_k, g, stx); if (!g) st = 1; else C(free(g)); break; }
      case 28: case 29: { if (!cs) break; mpECDSASignature_t t; st = op == 28 ? C(mpECDSASignature_init_import_bytes(t, ss, (unsigned char*)se.data(), se.size())) : C(mpECDSASignature_init_import_str(t, ss, (char*)stx.c_str())); full(); if (!st) { Z r = lib_fp(t->r), s = lib_fp(t->s); if (r != sr || s != sv) fail_with("signature import", cur_k, ref::str(r) + "," + ref::str(s), ref::str(sr) + "," + ref::str(sv)); C(mpECDSASignature_clear(t)); } break; }
      case 30: { mpECDSASignatureScheme_t t; st = C(mpECDSASignatureScheme_init(t, cv, hash_handle(hi))); full(); if (!st) { cp("the generator of a new scheme", t->cv_G, c, ref::gen(c)); mpECP_t r; C(mpECP_init(r, cv)); C(mpECP_scalar_base_mul(r, t->cv_G, X)); cp("multiplication with a new scheme's generator", r, c, ref::mul(c, ref::gen(c), x)); C(mpECP_clear(r)); C(mpECDSASignatureScheme_clear(t)); } break; }
      case 31: { mpECElgamalCiphertext_t t; st = C(mpECElgamal_init_encrypt(t, K.pk, A)); full(); if (!st) { Pt u = lib_value(t->C, c), v = lib_value(t->D, c); if (ref::sub(c, v, ref::mul(c, u, K.d)) != a || ref::is_neutral(c, u)) fail_with("encryption", cur_k, show(u) + " " + show(v), "a ciphertext of " + show(a)); if (c.n > huge && (u == ref::gen(c) || u == ref::neg(c, ref::gen(c)))) fail_with("encryption with the ephemeral key", cur_k, show(u), "a random point"); C(mpECElgamal_clear(t)); } break; }
      case 32: { mpECP_t r; st = C(mpECElgamal_init_decrypt(r, K.sk, ct)); if (!st) { cp("decryption", r, c, a); C(mpECP_clear(r)); } full(); break; }
      default: { char** l = C(_mpECurve_list_standard_curves()); full(); if (!l) { st = 1; break; } int i = 0; for (; l[i]; i++) { bool f = false; for (int k = 0; k < n_named; k++) f |= !strcmp(l[i], all_named[k].name); if (!f) fail_with("the list of curves", cur_k, l[i], "a known name"); C(free(l[i])); } if (i < n_named) fail_with("the list of curves", cur_k, std::to_string(i) + " names", std::to_string(n_named)); C(free(l)); }
    }
    return st;
  };
  R2* R = (R2*)shared_buf(sizeof(R2)); doing("operation %d", op); u64 q0 = dev_pos(), ch = choice_pos();
  auto attempt = [&]() { mem_arm(cur_k, R->failed == 2, R->mode); int st = run_op(); R->n = mem_allocs(); R->sites = mem_sites(); R->big = mem_largest(); R->st = st; R->done = 1; R->failed = mem_failed() > 0; };
  Victim v = victim(attempt); u64 ch1 = choice_pos(); (void)ch1; if (v.kind || R->st) violation("wrong-result", "operation %d failed without a refused allocation (%d %d, status %d) on %s", op, v.kind, v.code, R->st, show(c).c_str());
  u64 total = R->n, sites = R->sites, biggest = R->big; count("probe.allocations", total); if (!total) return; int tries = total < 8 ? (int)total : 8; if (total > 8) tries += 3;
  static const char* mn[] = {"number", "size", "site"};
  for (int t = 0; t < tries; t++) {
    int mode = t < 8 ? 0 : t == 8 ? 1 : 2; cur_k = total <= 8 ? t + 1 : mode == 0 ? 1 + choose(total) : mode == 1 ? biggest >> choose(4) : 1 + choose(sites); if (!cur_k) continue; bool all = flip(1, 3); memset(R, 0, sizeof *R); R->failed = all ? 2 : 0; R->mode = mode; doing("operation %d with allocation %llu (by %s; %llu in all) refused on %s", op, (unsigned long long)cur_k, mn[mode], (unsigned long long)total, show(c).c_str());
    dev_set_pos(q0); v = victim(attempt); step();
    ev("allocation %llu (by %s; %llu in all) refused%s: %s %d", (unsigned long long)cur_k, mn[mode], (unsigned long long)total, all ? " and all later ones" : "", v.kind == 0 ? (R->st ? "error status" : "success") : v.kind == 1 ? "exit" : v.kind == 2 ? "signal" : "stuck", v.kind ? v.code : R->st);
    u64 h[4] = {(u64)op, cur_k, (u64)v.kind, (u64)v.code}; cover(hash64(h, sizeof h));
    if (v.kind == 2 && v.code != SIGABRT) violation("crash", "operation %d died with signal %d when allocation %llu (by %s; %llu in all) was refused, on %s", op, v.code, (unsigned long long)cur_k, mn[mode], (unsigned long long)total, show(c).c_str());
    if (v.kind == 1 && v.code == 0) violation("exit-zero", "operation %d ended the process with status 0 when allocation %llu was refused", op, (unsigned long long)cur_k);
    if (v.kind == 3) violation("stuck", "operation %d never ended after allocation %llu of %llu was refused", op, (unsigned long long)cur_k, (unsigned long long)total);
    count(v.kind == 0 ? R->st ? "probe.error_status" : "probe.success" : v.kind == 1 ? "probe.exit" : "probe.abort");
  }
}
// ---------------------------------------------------------------- M03
namespace { struct L3 { int done; u64 p0, p1; char k[300]; char nonces[6][160]; int nn; }; }
static void mark_z(const Z& v, const char* label) { if (v <= 0) return; size_t L = (ref::bitlen(v) + 63) / 64 * 8; vector<u8> b(L); mpz_export(b.data(), 0, -1, 8, 0, 0, v.get_mpz_t()); secret_limbs(b.data(), L, label); string be = ref::to_bytes(v, (ref::bitlen(v) + 7) / 8); secret_bytes(be.data(), be.size(), label); string le(be.rbegin(), be.rend()); secret_bytes(le.data(), le.size(), label); }
SCENARIO(M03_secrets) {
  mem_random_cfg(); C(_enable_gmp_safe_clean()); ref::Curve c = big_curve(90, flip(1, 4) ? 521 : 260); bool big = c.bits() > 270; MZ n(c.n); mpECurve_t cv; lib_curve_make(cv, c); CurveReq fq; fq.named = false; ref::Curve fc = pick_curve(fq); mpECurve_t fcv; lib_curve_make(fcv, fc);
  int hi = (int)choose(n_hashes()); mpECDSASignatureScheme_t ss; C(mpECDSASignatureScheme_init(ss, cv, hash_handle(hi)));
  int steps = 1 + (int)choose(big ? 2 : 6); L3* L = (L3*)shared_buf(sizeof(L3)); 
  for (int t = 0; t < steps; t++) {
    Z d; for (int i = 0; i < 20; i++) { d = 0; for (int b = 0; b < ref::bitlen(c.n); b += 60) d = (d << 60) + Z((unsigned long)(choose(1ull << 60))); d = ref::mod(d, c.n); if (d > 0 && ref::bitlen(d) > 70) break; } if (d == 0) d = 1;
    Pt Q = ref::mul(c, ref::gen(c), d); int op = (int)choose(16); string msg = rand_msg(20, true); Z e = hash_e(c, hi, msg); Pt a = rand_sub_point(c); Z d2 = c.n - d;
    // redraws: the device first returns unusable values
    string script; if (flip(1, 3)) { size_t w = 2 * c.nlen(); int nd = 1 + (int)choose(2); for (int j = 0; j < nd; j++) script += flip(1, 2) ? string(w, 0) : ref::to_bytes(c.n * Z((unsigned long)choose(200)), w + 2).substr(2); count("fault.degenerate_device_output"); }
    bool soft = flip(1, 8); int sh = (int)choose(150); string bad; if (flip(1, 2)) { corrupt(ref::encode(c, a, true), &bad); bad = corrupt(ref::encode(c, Q, flip(1, 2)), &bad); }
    u64 p0 = dev_pos(); if (script.size()) dev_script(script.data(), script.size()); Z nonce = 0; Z dd = d, din = flip(1, 3) ? d + c.n * Z((unsigned long)choose(1000)) : d; step();
    auto work = [&](bool learn) {
      mpFp_t sk; mpECP_t pk, r; doing("operation %d with a secret on %s", op, show(c).c_str());
      if (soft && op != 2) { dev_fault_den = 4; dev_fault_mask = DF_EIO | DF_EOF; dev_fault_den = 0; }
      C(mpFp_init(sk, n)); { MZ z(din); C(mpFp_set_mpz(sk, z, n)); mpz_set_ui(z, 0); } C(mpECP_init(pk, cv)); lib_set(pk, cv, Q); C(mpECP_init(r, cv));
      switch (op) {
        case 0: case 1: { mpECDSASignature_t s; if (C(mpECDSASignature_init_Sign(s, ss, sk, (unsigned char*)msg.data(), msg.size()))) violation("sign-failed", "signing failed"); if (learn) { Z k = recover_nonce(c, d, e, lib_fp(s->r), lib_fp(s->s)); snprintf(L->k, sizeof L->k, "%s", k.get_str(16).c_str()); } C(mpECDSASignature_clear(s)); break; }
        case 2: { mpFp_t f; C(mpFp_init(f, n)); C(mpFp_urandom(f, n)); if (learn) snprintf(L->k, sizeof L->k, "%s", lib_fp(f).get_str(16).c_str()); C(mpFp_clear(f)); break; }
        case 3: { MZ z; mpz_clear(z); C(mpz_init(z)); C(mpz_urandom(z, n)); if (learn) snprintf(L->k, sizeof L->k, "%s", z.get().get_str(16).c_str()); C(mpz_clear(z)); mpz_init(z); break; }
        case 4: case 5: { mpECP_t m; C(mpECP_init(m, cv)); lib_set(m, cv, a); mpECElgamalCiphertext_t ct; if (C(mpECElgamal_init_encrypt(ct, pk, m))) violation("encrypt-failed", "encryption failed"); if (learn) snprintf(L->k, sizeof L->k, "?%s", show(lib_value(ct->C, c)).c_str());
            mpECP_t o; int st = C(mpECElgamal_init_decrypt(o, sk, ct)); if (st) violation("decrypt-failed", "decryption failed"); C(mpECP_clear(o)); C(mpECElgamal_clear(ct)); C(mpECP_clear(m)); break; }
        case 6: C(mpECP_scalar_mul(r, pk, sk)); break;
        case 7: C(mpECP_scalar_base_mul(r, pk, sk)); break;
        case 8: { mpFp_t f; C(mpFp_init(f, n)); C(mpFp_set(f, sk)); C(mpFp_mul(f, f, f)); C(mpFp_inv(f, sk)); C(mpFp_set(f, sk)); C(mpFp_add(f, f, f)); C(mpFp_swap(f, sk)); C(mpFp_swap(f, sk)); C(mpFp_clear(f)); break; }
        case 9: { // growing: the element moves to a larger field and back
            mpFp_t f; C(mpFp_init(f, n)); C(mpFp_set(f, sk)); Z P = (Z(1) << 521) - 1; MZ z(P); MZ x(dd + (Z(1) << 500)); C(mpFp_set_mpz(f, x, z)); mpz_set_ui(x, 0); C(mpFp_set(f, sk)); C(mpFp_clear(f)); break; }
        case 10: { // refused decryption: halves of different curves, or another order
            mpECElgamalCiphertext_t x; C(mpECP_init(x->C, cv)); C(mpECP_init(x->D, fcv)); lib_set(x->C, cv, a); lib_set(x->D, fcv, ref::gen(fc)); mpECP_t o; int st = C(mpECElgamal_init_decrypt(o, sk, x)); if (!st) C(mpECP_clear(o)); C(mpECElgamal_clear(x)); break; }
        case 11: { mpECDSASignature_t s; int st = C(mpECDSASignature_init_Sign(s, ss, sk, (unsigned char*)msg.data(), 0)); if (!st) C(mpECDSASignature_clear(s)); break; }
        case 12: { MZ z; mpz_clear(z); C(mpz_init(z)); C(mpz_set_mpFp(z, sk)); C(mpz_clear(z)); mpz_init(z); break; }
        case 13: { MZ x(dd); C(mpECP_scalar_mul_mpz(r, pk, x)); C(mpECP_scalar_base_mul_mpz(r, pk, x)); mpz_set_ui(x, 0); break; }
        case 14: { // a number of the application: it grows, loses digits and gives memory back
            MZ x; mpz_clear(x); C(mpz_init(x)); C(mpz_set_mpFp(x, sk)); C(mpz_mul_2exp(x, x, 64 * (sh % 5))); C(mpz_realloc2(x, 64 * (20 + sh))); C(mpz_tdiv_q_2exp(x, x, 64 * (sh / 5 % 3))); C(mpz_realloc2(x, 64 * (sh / 15 ? sh / 15 : 1))); C(mpz_clear(x)); mpz_init(x); break; }
        default: { C(mpECP_urandom(r, cv)); C(mpFp_urandom(sk, n)); }
      }
      C(mpFp_clear(sk)); C(mpECP_clear(pk)); C(mpECP_clear(r)); L->p1 = dev_pos(); L->done = 1;
    };
    // a first pass tells what the nonce is, the second one looks for it
    memset(L, 0, sizeof *L); Victim v = victim([&]() { work(true); }); if (v.kind) violation("crash", "operation %d failed: %d %d", op, v.kind, v.code); u64 p1 = L->p1;
    secrets_clear(); mark_z(d, "a private key"); string db; for (u64 i = p0; i < p1; i++) db += (char)dev_byte(i); secret_bytes(db.data(), db.size(), "the random bytes of a draw");
    if (L->k[0] && L->k[0] != '?') { nonce = Z(string(L->k), 16); mark_z(nonce, op <= 1 ? "a signing nonce" : "a random value"); }
    else if (L->k[0] == '?') for (size_t i = 0; i + 2 * c.nlen() <= db.size(); i += c.nlen()) { Z k = ref::mod(ref::from_bytes((u8*)db.data() + i, 2 * c.nlen()), c.n); if (big && i) break; if (string("?") + show(ref::mul(c, ref::gen(c), k)) == string(L->k).substr(0, 400)) { mark_z(k, "an ephemeral"); count("probe.ephemeral_known"); break; } }
    dev_set_pos(p0); if (script.size()) dev_script(script.data(), script.size()); ev("operation %d, %zu device bytes%s", op, db.size(), nonce != 0 ? ", nonce known" : "");
    victim([&]() { work(false); count("probe.blocks_scanned", secrets_scanned()); }); secrets_clear(); dev_script_clear(); dev_set_pos(p1);
    u64 h[4] = {(u64)c.type, (u64)op, (u64)(script.size() > 0), (u64)ref::bitlen(c.n)}; cover(hash64(h, sizeof h));
  }
  C(mpECDSASignatureScheme_clear(ss)); C(mpECurve_clear(cv)); C(mpECurve_clear(fcv)); run_atexit();
}
