// D01 signing round trips, D02 altered triples, D03 signature encodings, E01 ElGamal sessions
#include "proto.h"
#include <algorithm>
using std::string; using std::vector;
static void maybe_clean() { if (flip(1, 4)) { C(_enable_gmp_safe_clean()); ev("safe cleaning on"); } }
static string sig_enc(const ref::Curve& c, const Z& r, const Z& s) { return ref::to_bytes(r, c.nlen()) + ref::to_bytes(s, c.nlen()); }
namespace {
struct Scheme { mpECDSASignatureScheme_t s; int hi; bool live = false; };
struct Sig { mpECDSASignature_t g; int sch; int key; string msg; Z r, s; bool live = false; };
struct Party { mpECurve_t cv; vector<Scheme> sch; vector<Key> keys; };
}
static void party_make(Party& p, const ref::Curve& c, const vector<int>& hs, const vector<Z>& ds) {
  lib_curve_make(p.cv, c);
  p.sch.resize(hs.size()); for (size_t i = 0; i < hs.size(); i++) { p.sch[i].hi = hs[i]; C(mpECDSASignatureScheme_init(p.sch[i].s, p.cv, hash_handle(hs[i]))); p.sch[i].live = true; }
  p.keys.resize(ds.size()); for (size_t i = 0; i < ds.size(); i++) key_make(p.keys[i], p.cv, c, ds[i]);
}
static void party_check(Party& p, const ref::Curve& c) {
  lib_curve_expect(p.cv, c, "curve shared by signatures");
  for (auto& k : p.keys) { expect_pt("operand-changed", k.pk, c, k.Q, "public key"); if (lib_fp(k.sk) != k.d || Z(k.sk->fp->p) != c.n) violation("operand-changed", "a private key changed"); }
  for (auto& s : p.sch) if (s.live) { expect_pt("operand-changed", s.s->cv_G, c, ref::gen(c), "the generator of the scheme"); if (s.s->H->hsz != hash_size(s.hi)) violation("operand-changed", "the hash of a scheme changed"); }
}
static void party_clear(Party& p) { for (auto& k : p.keys) key_clear(k); for (auto& s : p.sch) if (s.live) C(mpECDSASignatureScheme_clear(s.s)); C(mpECurve_clear(p.cv)); }
static ref::Curve sig_curve(vector<Pt>* pts, bool* tiny) {
  CurveReq q; q.maxbits = flip(1, 8) ? 521 : flip(1, 3) ? 256 : 130; ref::Curve c = pick_curve(q, pts); *tiny = !pts->empty(); return c;
}
// callers keep one message buffer and overwrite it, or bring a new one for each call; either way only its content counts
struct MsgBuf { vector<unsigned char> own; unsigned char* p; size_t n; const string& m;
  static vector<unsigned char>& shared() { static vector<unsigned char> b(65536); return b; }
  MsgBuf(const string& msg) : n(msg.size()), m(msg) { if (n <= shared().size() && flip(2, 3)) { p = shared().data(); memcpy(p, msg.data(), n); count("probe.message_buffer_reused"); } else { own.assign(msg.begin(), msg.end()); own.push_back(0); p = own.data(); } }
  bool same() const { return !memcmp(p, m.data(), n); } };
static void verify_expect(mpECDSASignature_t g, mpECP_t pk, const ref::Curve& c, const Pt& Q, const Z& e, const Z& r, const Z& s, const string& msg, bool want, const char* what) {
  MsgBuf m(msg); doing("verification (%s) on %s", what, show(c).c_str());
  int st = C(mpECDSASignature_verify_cmp(g, pk, m.p, m.n));
  if ((st == 0) != want) violation(want ? "genuine-refused" : "forgery-accepted", "%s: verification of (%s,%s), e=%s, Q=%s returned %d, the equation %s, on %s", what, ref::str(r).c_str(), ref::str(s).c_str(), ref::str(e).c_str(), show(Q).c_str(), st, want ? "holds" : "does not hold", show(c).c_str());
  if (!m.same()) violation("operand-changed", "verification changed the message");
}
// ---------------------------------------------------------------- D01
SCENARIO(D01_sessions) {
  mem_random_cfg(); maybe_clean(); vector<Pt> pts; bool tiny; ref::Curve c = sig_curve(&pts, &tiny); bool big = c.bits() > 200;
  vector<int> hs; int ns = 1 + (int)choose(3); for (int i = 0; i < ns; i++) hs.push_back((int)choose(n_hashes()));
  vector<Z> ds; int nk = 1 + (int)choose(big ? 1 : 3); for (int i = 0; i < nk; i++) ds.push_back(rand_key(c));
  Party P[2]; party_make(P[0], c, hs, ds); party_make(P[1], c, hs, ds);
  vector<string> msgs; for (int i = 0; i < 3; i++) msgs.push_back(rand_msg_any(flip(1, 4) ? 300 : 40));
  if (flip(1, 2)) { string t = msgs[0]; t[t.size() > 1 && flip(2, 3) ? t.size() / 2 + choose(t.size() - t.size() / 2) : choose(t.size())] ^= (char)(1u << choose(8)); msgs.push_back(t); ev("a message that differs from another in one bit"); }
  const int N = 4; Sig sg[N]; int at[N] = {0}; int steps = 3 + (int)choose(big ? 6 : 24);
  for (int t = 0; t < steps; t++) {
    int i = (int)choose(N), op = (int)choose_w({6, 5, 5, 3, 2, 2}); step(); Sig& g = sg[i];
    if (op == 0 || !g.live) {   // sign
      if (g.live) { C(mpECDSASignature_clear(g.g)); g.live = false; }
      int w = (int)choose(2), s = (int)choose(ns), k = (int)choose(nk); const string& m = msgs[choose(msgs.size())]; Z e = hash_e(c, hs[s], m);
      if (!P[w].sch[s].live) continue;
      if (tiny && usable_nonces(c, ds[k], e).empty()) { count("probe.no_usable_nonce"); continue; }
      doing("signing %s with key %s on %s", hexs(m).c_str(), ref::str(ds[k]).c_str(), show(c).c_str());
      MsgBuf mb(m); int st = C(mpECDSASignature_init_Sign(g.g, P[w].sch[s].s, P[w].keys[k].sk, mb.p, mb.n));
      if (st) violation("sign-failed", "signing returned %d on %s", st, show(c).c_str());
      if (!mb.same()) violation("operand-changed", "signing changed the message");
      g.live = true; at[i] = w; g.sch = s; g.key = k; g.msg = m; g.r = lib_fp(g.g->r); g.s = lib_fp(g.g->s);
      ev("party %d signs message %zu bytes with key %d, scheme %d (hash %d): slot %d", w, m.size(), k, s, hs[s], i);
      if (!ref::ecdsa_ok(c, P[w].keys[k].Q, e, g.r, g.s)) violation("bad-signature", "the signature (%s,%s) does not satisfy the equation for e=%s d=%s on %s", ref::str(g.r).c_str(), ref::str(g.s).c_str(), ref::str(e).c_str(), ref::str(ds[k]).c_str(), show(c).c_str());
      u64 h[5] = {(u64)c.type, (u64)ref::bitlen(c.n), (u64)hs[s], (u64)w, (u64)std::min<size_t>(m.size(), 8)}; cover(hash64(h, sizeof h)); continue;
    }
    int w = at[i]; Z e = hash_e(c, hs[g.sch], g.msg); Key& K = P[w].keys[g.key];
    if (op == 1) { ev("party %d verifies slot %d", w, i); verify_expect(g.g, P[flip(1, 3) ? 1 - w : w].keys[g.key].pk, c, K.Q, e, g.r, g.s, g.msg, true, "own signature"); }
    else if (op == 2) {   // the other party imports it
      bool text = flip(1, 2); mpECDSASignature_t n; int st; Scheme& os = P[1 - w].sch[g.sch]; if (!os.live) continue; doing("export and import of a signature on %s", show(c).c_str());
      if (text) { char* s = (char*)C(mpECDSASignature_export_str(g.g)); string want = hexs(sig_enc(c, g.r, g.s)), got(s); if (got != want) violation("wrong-encoding", "text of signature (%s,%s) is %s", ref::str(g.r).c_str(), ref::str(g.s).c_str(), s); st = C(mpECDSASignature_init_import_str(n, os.s, s)); C(free(s)); }
      else { size_t z = 0; unsigned char* b = (unsigned char*)C(mpECDSASignature_export_bytes(g.g, &z)); if (string((char*)b, z) != sig_enc(c, g.r, g.s)) violation("wrong-encoding", "bytes of signature (%s,%s) are %s", ref::str(g.r).c_str(), ref::str(g.s).c_str(), hexs(string((char*)b, z)).c_str()); st = C(mpECDSASignature_init_import_bytes(n, os.s, b, z)); C(free(b)); }
      ev("slot %d goes to party %d as %s", i, 1 - w, text ? "text" : "bytes"); if (st) violation("refused", "an exported signature was refused (%d) on %s", st, show(c).c_str());
      C(mpECDSASignature_clear(g.g)); memcpy(g.g, n, sizeof n); at[i] = 1 - w; if (lib_fp(g.g->r) != g.r || lib_fp(g.g->s) != g.s) violation("wrong-encoding", "the imported signature differs from the exported one");
      verify_expect(g.g, P[1 - w].keys[g.key].pk, c, K.Q, e, g.r, g.s, g.msg, true, "imported signature");
    } else if (op == 3) {  // other work on the shared objects
      ev("other work on party %d's objects", w); mpECP_t a; C(mpECP_init(a, P[w].cv)); mpFp_t f; MZ n(c.n); C(mpFp_init(f, n)); Z z = rand_below(c.n); MZ zz(z); C(mpFp_set_mpz(f, zz, n));
      switch (choose(4)) { case 0: C(mpECP_scalar_mul(a, P[w].keys[g.key].pk, f)); break; case 1: if (P[w].sch[g.sch].live) C(mpECP_scalar_base_mul(a, P[w].sch[g.sch].s->cv_G, f)); break; case 2: C(mpECP_urandom(a, P[w].cv)); break; default: C(mpECP_add(a, P[w].keys[g.key].pk, P[w].keys[0].pk)); }
      C(mpFp_clear(f)); C(mpECP_clear(a));
    } else if (op == 4) { int s = (int)choose(ns); bool used = false; for (int j = 0; j < N; j++) used |= sg[j].live && sg[j].sch == s; // schemes come and go while no signature refers to them
      if (used) { C(mpECDSASignature_clear(g.g)); g.live = false; ev("slot %d cleared", i); } else if (P[w].sch[s].live) { C(mpECDSASignatureScheme_clear(P[w].sch[s].s)); P[w].sch[s].live = false; ev("scheme %d of party %d cleared", s, w); C(mpECDSASignatureScheme_init(P[w].sch[s].s, P[w].cv, hash_handle(hs[s]))); P[w].sch[s].live = true; } }
    else { Key& k = P[w].keys[g.key]; if (!big) C(mpECP_scalar_base_mul_setup(k.pk)); ev("tables for key %d", g.key); }
    party_check(P[w], c);
  }
  for (int i = 0; i < N; i++) if (sg[i].live) { Sig& g = sg[i]; verify_expect(g.g, P[at[i]].keys[g.key].pk, c, P[0].keys[g.key].Q, hash_e(c, hs[g.sch], g.msg), g.r, g.s, g.msg, true, "at the end"); C(mpECDSASignature_clear(g.g)); }
  party_check(P[0], c); party_check(P[1], c); party_clear(P[0]); party_clear(P[1]);
}
// ---------------------------------------------------------------- D02
SCENARIO(D02_channel) {
  mem_random_cfg(); maybe_clean(); vector<Pt> pts; bool tiny; ref::Curve c = sig_curve(&pts, &tiny); bool big = c.bits() > 200;
  vector<int> hs = {(int)choose(n_hashes()), (int)choose(n_hashes())}; vector<Z> ds = {rand_key(c), rand_key(c)};
  Party A, B; party_make(A, c, hs, ds); party_make(B, c, hs, ds);
  struct Tr { int sch, key; string msg; Z r, s; }; vector<Tr> sent; int ng = 2 + (int)choose(2);
  for (int i = 0; i < ng; i++) { Tr t; t.sch = (int)choose(2); t.key = (int)choose(2); t.msg = rand_msg_any(40); Z e = hash_e(c, hs[t.sch], t.msg); if (tiny && usable_nonces(c, ds[t.key], e).empty()) continue;
    mpECDSASignature_t g; MsgBuf mb(t.msg); int st = C(mpECDSASignature_init_Sign(g, A.sch[t.sch].s, A.keys[t.key].sk, mb.p, mb.n)); if (st) violation("genuine-refused", "signing failed"); if (!mb.same()) violation("operand-changed", "signing changed the message"); t.r = lib_fp(g->r); t.s = lib_fp(g->s); C(mpECDSASignature_clear(g)); sent.push_back(t); }
  if (sent.empty()) end_run();
  // a foreign curve of the same and of another order, for keys and schemes that do not belong here
  mpECurve_t fcv; ref::Curve fc = c; vector<Pt> fpts; bool have_f = flip(1, 2), same_order = false; mpECP_t fpk; Pt fQ;
  if (have_f) { if (flip(1, 3)) { Pt g2 = ref::mul(c, ref::gen(c), 2); fc.name = ""; fc.gx = g2.x; fc.gy = g2.y; same_order = true; } else { CurveReq q; fc = pick_curve(q, &fpts); } if (fc.n == c.n) same_order = true; lib_curve_make(fcv, fc); C(mpECP_init(fpk, fcv)); fQ = rand_sub_point(fc); lib_set(fpk, fcv, fQ); }
  bool fdiff = have_f && !(fc.type == c.type && fc.p == c.p && fc.u == c.u && fc.v == c.v && fc.n == c.n && fc.h == c.h && fc.gx == c.gx && fc.gy == c.gy);
  int steps = 3 + (int)choose(big ? 5 : 16);
  for (int t = 0; t < steps; t++) {
    Tr g = sent[choose(sent.size())], o = sent[choose(sent.size())]; step(); string how = "genuine", msg = g.msg; Z r = g.r, s = g.s; Pt Q = B.keys[g.key].Q; int sch = g.sch; string raw; bool use_raw = false; bool fkey = false; bool ownpk = false; mpECP_ptr pk = B.keys[g.key].pk; mpECP_t tpk;
    switch (choose_w({2, 4, 4, 3, 3, 2, 2, 2, 3, have_f ? 2 : 0, 2})) {
      case 0: break;
      case 1: { raw = sig_enc(c, r, s); string h; raw = corrupt(raw, &h); use_raw = true; how = "signature damaged: " + h; break; }
      case 2: { string h; if (flip(1, 2)) msg = corrupt(msg, &h); else { msg = rand_msg(40, false); h = "another message"; count("fault.message_replaced"); } how = "message " + h; break; }
      case 3: { sch = (int)choose(2); r = o.r; s = o.s; if (flip(1, 2)) sch = o.sch; how = "signature of another message"; count("fault.message_replayed"); break; }
      case 4: { int k = (int)choose(3); if (k == 0) { pk = B.keys[1 - g.key].pk; Q = B.keys[1 - g.key].Q; how = "another key"; } else { Q = k == 1 ? ref::neg(c, Q) : rand_point(c, &pts); C(mpECP_init(tpk, B.cv)); lib_set(tpk, B.cv, Q); pk = tpk; ownpk = true; how = k == 1 ? "negated key" : "arbitrary point as key"; } count("fault.key_replaced"); break; }
      case 5: std::swap(r, s); how = "halves swapped"; count("fault.halves_swapped"); break;
      case 6: s = c.n - s; how = "s negated"; count("fault.s_negated"); break;   // still satisfies the equation
      case 7: { Z z[] = {Z(0), Z(1), c.n - 1, c.n, c.n + 1, r + c.n, rand_below(c.n), ref::gen(c).x}; int k = (int)choose(8); (flip(1, 2) ? r : s) = z[k]; how = "component replaced"; use_raw = ref::bitlen(r) > 8 * c.nlen() || ref::bitlen(s) > 8 * c.nlen() ? false : flip(1, 2); if (r >= (Z(1) << (8 * c.nlen())) || s >= (Z(1) << (8 * c.nlen()))) { r = g.r; s = g.s; } else if (use_raw || r >= c.n || s >= c.n) { raw = sig_enc(c, r, s); use_raw = true; } count("fault.component_replaced"); break; }
      case 8: { // the point the equation asks for is made neutral: e*w*G = -r*w*Q
        Z e0 = hash_e(c, hs[sch], msg), d = B.keys[g.key].d; if (e0 == 0) break; r = ref::mod(-e0 * ref::invz(d, c.n), c.n); s = rand_key(c); how = "neutral sum"; count("fault.neutral_sum"); break; }
      case 9: fkey = true; how = same_order ? "key of another curve (same order)" : "key of another curve"; pk = fpk; Q = fQ; count("fault.foreign_key"); break;
      case 10: sch = 1 - sch; how = "another scheme"; count("fault.other_scheme"); break;
    }
    Z e = hash_e(c, hs[sch], msg); mpECDSASignature_t x; int st;
    if (use_raw) {
      doing("import of signature %s (%s)", hexs(raw).c_str(), how.c_str()); u64 lb = mem_live_blocks(); st = C(mpECDSASignature_init_import_bytes(x, B.sch[sch].s, (unsigned char*)&raw[0], raw.size()));
      bool len = raw.size() == 2 * (size_t)c.nlen(); if (len) { r = ref::from_bytes((u8*)raw.data(), c.nlen()); s = ref::from_bytes((u8*)raw.data() + c.nlen(), c.nlen()); }
      bool ok = len && r > 0 && s > 0 && r < c.n && s < c.n; if ((st == 0) != ok) violation("import-verdict", "import of %s returned %d on %s", hexs(raw).c_str(), st, show(c).c_str());
      if (st) { if (mem_live_blocks() > lb + 1) violation("leak", "a refused import kept memory"); ev("%s: import refused", how.c_str()); count("probe.import_refused"); }
    } else { MZ n(c.n), zr(r), zs(s); C(mpFp_init(x->r, n)); C(mpFp_init(x->s, n)); C(mpFp_set_mpz(x->r, zr, n)); C(mpFp_set_mpz(x->s, zs, n)); x->sscheme = B.sch[sch].s; st = 0; r = ref::mod(r, c.n); s = ref::mod(s, c.n); }
    if (!st) {
      bool want = !msg.empty() && r != 0 && s != 0 && !(fkey && fdiff) && ref::ecdsa_ok(c, Q, e, r, s);
      ev("%s: expected %s", how.c_str(), want ? "accept" : "reject"); count(want ? "probe.accepts" : "probe.rejects");
      verify_expect(x, pk, c, Q, e, r, s, msg, want, how.c_str()); C(mpECDSASignature_clear(x));
      u64 h[4] = {(u64)c.type, (u64)want, hash64(how.data(), std::min<size_t>(how.size(), 22)), (u64)hs[sch]}; cover(hash64(h, sizeof h));
    }
    if (ownpk) C(mpECP_clear(tpk));
    if (flip(1, 3) || t + 1 == steps) { // the genuine triple still verifies
      mpECDSASignature_t y; string raw2 = sig_enc(c, g.r, g.s); if (C(mpECDSASignature_init_import_bytes(y, B.sch[g.sch].s, (unsigned char*)&raw2[0], raw2.size()))) violation("genuine-refused", "the genuine signature no longer imports");
      verify_expect(y, B.keys[g.key].pk, c, B.keys[g.key].Q, hash_e(c, hs[g.sch], g.msg), g.r, g.s, g.msg, true, "genuine triple afterwards"); C(mpECDSASignature_clear(y)); party_check(B, c); }
  }
  party_check(A, c); party_check(B, c); if (have_f) { C(mpECP_clear(fpk)); C(mpECurve_clear(fcv)); } party_clear(A); party_clear(B);
}
// ---------------------------------------------------------------- D03
SCENARIO(D03_codec) {
  mem_random_cfg(); maybe_clean(); CurveReq q; q.maxbits = flip(1, 3) ? 521 : 130; vector<Pt> pts; ref::Curve c = pick_curve(q, &pts); int hi = (int)choose(n_hashes());
  mpECurve_t cv; lib_curve_make(cv, c); mpECDSASignatureScheme_t ss; C(mpECDSASignatureScheme_init(ss, cv, hash_handle(hi))); size_t L = c.nlen(); MZ n(c.n);
  if (ss->nsz != L) violation("wrong-length", "scheme length %zu for order %s", (size_t)ss->nsz, ref::str(c.n).c_str());
  { mpFp_t t; C(mpFp_init(t, n)); C(mpFp_clear(t)); }   // the order's field exists from here on
  int steps = 4 + (int)choose(20);
  for (int i = 0; i < steps; i++) {
    // a pair, many with leading zero bytes
    auto val = [&]() { Z v; switch (choose(4)) { case 0: v = rand_below(c.n); break; case 1: v = ref::mod(Z(1) << choose(8 * L), c.n); break; case 2: v = ref::mod((Z(1) << choose(8 * L)) + Z((unsigned long)choose(70000)), c.n); break; default: v = c.n - 1 - Z((unsigned long)choose(3)); } return v <= 0 ? Z(1) : v; };
    Z r = val(), s = val(); mpECDSASignature_t g; { MZ zr(r), zs(s); C(mpFp_init(g->r, n)); C(mpFp_init(g->s, n)); C(mpFp_set_mpz(g->r, zr, n)); C(mpFp_set_mpz(g->s, zs, n)); g->sscheme = ss; }
    bool text = flip(1, 2); string want = sig_enc(c, r, s); if (text) want = hexs(want); string got; doing("export of signature (%s,%s)", ref::str(r).c_str(), ref::str(s).c_str());
    if (text) { char* t = (char*)C(mpECDSASignature_export_str(g)); got = t; C(free(t)); } else { size_t z = 0; unsigned char* b = (unsigned char*)C(mpECDSASignature_export_bytes(g, &z)); if (z != 2 * L) violation("wrong-length", "exported %zu bytes, the scheme's length is %zu", z, 2 * L); got.assign((char*)b, z); C(free(b)); }
    if (got != want) violation("wrong-encoding", "signature (%s,%s) was exported as %s, on %s", ref::str(r).c_str(), ref::str(s).c_str(), text ? got.c_str() : hexs(got).c_str(), show(c).c_str());
    if (lib_fp(g->r) != r || lib_fp(g->s) != s) violation("operand-changed", "export changed the signature"); C(mpECDSASignature_clear(g)); step();
    string wire = want, how = "intact"; bool lower = false;
    switch (choose_w({3, 5, 3, 3, text ? 4 : 0, text ? 3 : 0, 2})) {
      case 0: break;
      case 1: wire = corrupt(want, &how); break;
      case 2: { Z a = r, b = s; Z top = Z(1) << (8 * L); Z z[] = {Z(0), c.n, c.n + 1, top - 1, c.n - 1, Z(1)}; (flip(1, 2) ? a : b) = z[choose(6)]; if (a >= top || b >= top) break; wire = ref::to_bytes(a, L) + ref::to_bytes(b, L); if (text) wire = hexs(wire); how = "out of range component"; count("fault.component_replaced"); break; }
      case 3: { int d = (int)choose(4); size_t k = choose(3) + 1; if (d == 0) wire = wire.substr(0, wire.size() - std::min(k, wire.size())); else if (d == 1) wire += string(k, text ? '0' : 0); else if (d == 2) wire = string(k, text ? '0' : 0) + wire; else wire = ""; how = "length changed"; count("fault.message_truncated"); break; }
      case 4: { size_t k = choose(wire.size()); static const char junk[] = "GxXz -+.%\t~\x80\xff@`/:\n"; wire[k] = junk[choose(sizeof junk - 1)]; how = "non-hex character"; count("fault.message_nonhex"); break; }
      case 5: { for (auto& ch : wire) if (flip(1, 2)) { if (isupper(ch)) lower = true; ch = (char)tolower(ch); } how = "lower case"; break; }
      default: { for (auto& ch : wire) ch = (char)(text ? "0123456789ABCDEF"[choose(16)] : choose(256)); how = "noise"; count("fault.message_replaced"); }
    }
    if (text) { size_t z = wire.find('\0'); if (z != string::npos) wire.resize(z); }
    string bin = wire; bool valid = true; if (text) { bin.clear(); if (wire.size() % 2) valid = false; else for (size_t k = 0; k < wire.size(); k += 2) { int v = 0; for (int q2 = 0; q2 < 2; q2++) { char ch = wire[k + q2]; int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : -1; if (d < 0) { valid = false; break; } if (ch >= 'a') lower = true; v = v * 16 + d; } bin += (char)v; } }
    Z a, b; valid = valid && bin.size() == 2 * L; if (valid) { a = ref::from_bytes((u8*)bin.data(), L); b = ref::from_bytes((u8*)bin.data() + L, L); valid = a > 0 && b > 0 && a < c.n && b < c.n; }
    size_t cap = wire.size() + (text ? 1 : 0); unsigned char* buf = (unsigned char*)C(malloc(cap ? cap : 1)); memcpy(buf, wire.data(), wire.size()); if (text) buf[wire.size()] = 0;
    doing("import of %s (%s)", text ? hexs(wire).c_str() : hexs(wire).c_str(), how.c_str()); u64 lb = mem_live_blocks(), ly = mem_live_bytes();
    mpECDSASignature_t x; memset(x, 0x5A, sizeof x); int st = text ? C(mpECDSASignature_init_import_str(x, ss, (char*)buf)) : C(mpECDSASignature_init_import_bytes(x, ss, buf, wire.size()));
    if (memcmp(buf, wire.data(), wire.size())) violation("operand-changed", "import changed the encoding"); 
    ev("%s %zu: %s -> %d", text ? "text" : "bytes", wire.size(), how.c_str(), st);
    if ((st == 0) != valid && !(lower && st)) violation(valid ? "refused" : "damaged-accepted", "import of %s %s (%s) returned %d on %s", text ? "text" : "bytes", text ? wire.c_str() : hexs(wire).c_str(), how.c_str(), st, show(c).c_str());
    if (st == 0) { if (lib_fp(x->r) != a || lib_fp(x->s) != b) violation("wrong-encoding", "import of %s gave (%s,%s)", hexs(wire).c_str(), ref::str(lib_fp(x->r)).c_str(), ref::str(lib_fp(x->s)).c_str()); C(mpECDSASignature_clear(x)); count("probe.import_ok"); }
    else { count("probe.import_refused"); }
    if (mem_live_blocks() != lb || mem_live_bytes() != ly) violation("leak", "%s import of %s (%s) left %lld blocks behind", st ? "a refused" : "after clearing, the", text ? "text" : "bytes", how.c_str(), (long long)(mem_live_blocks() - lb));
    C(free(buf)); u64 h[5] = {(u64)c.type, (u64)text, (u64)(st == 0), hash64(how.data(), std::min<size_t>(how.size(), 8)), (u64)L}; cover(hash64(h, sizeof h));
  }
  // every importer also works with no signature at all
  { string w; mpECDSASignature_t x; if (C(mpECDSASignature_init_import_str(x, ss, (char*)"")) == 0) violation("damaged-accepted", "the empty text was accepted"); }
  lib_curve_expect(cv, c, "end"); C(mpECDSASignatureScheme_clear(ss)); C(mpECurve_clear(cv));
}
// ---------------------------------------------------------------- E01
SCENARIO(E01_sessions) {
  mem_random_cfg(); maybe_clean(); vector<Pt> pts; bool tiny; ref::Curve c = sig_curve(&pts, &tiny); bool big = c.bits() > 200;
  const int NP = 2; Party P[NP]; vector<Z> ds = {rand_key(c), rand_key(c)}; for (auto& p : P) party_make(p, c, {}, ds);   // equal but distinct curve objects
  CurveReq fq; vector<Pt> fpts; ref::Curve fc = pick_curve(fq, &fpts); Party F; party_make(F, fc, {}, {rand_key(fc)});
  bool same = fc.type == c.type && fc.p == c.p && fc.u == c.u && fc.v == c.v && fc.n == c.n && fc.h == c.h && ref::gen(fc) == ref::gen(c);
  struct Ct { mpECElgamalCiphertext_t x; int key; Pt m, C, D; bool live = false; bool orig; }; const int N = 4; Ct ct[N];
  auto chk = [&](Ct& t, const char* w) { expect_pt("ciphertext-changed", t.x->C, c, t.C, w); expect_pt("ciphertext-changed", t.x->D, c, t.D, w); };
  int steps = 3 + (int)choose(big ? 6 : 20);
  for (int st_ = 0; st_ < steps; st_++) {
    int i = (int)choose(N), j = (int)choose(N), op = (int)choose_w({5, 5, 3, 3, 3, 2, 2, 1}); Ct& t = ct[i]; step();
    if (op == 0 || !t.live) {
      if (t.live) { C(mpECElgamal_clear(t.x)); t.live = false; }
      int w = (int)choose(NP), pw = (int)choose(NP), k = (int)choose(2); Pt m = rand_point(c, &pts); if (flip(1, 8)) m = P[w].keys[k].Q; mpECP_t p; C(mpECP_init(p, P[pw].cv)); lib_set(p, P[pw].cv, m);
      bool tab = flip(1, 5) && !big; if (tab) C(mpECP_scalar_base_mul_setup(P[w].keys[k].pk));
      doing("encryption of %s to %s on %s", show(m).c_str(), show(P[w].keys[k].Q).c_str(), show(c).c_str());
      if (C(mpECElgamal_init_encrypt(t.x, P[w].keys[k].pk, p))) violation("encrypt-failed", "encryption failed on %s", show(c).c_str());
      expect_pt("operand-changed", p, c, m, "plaintext after encryption"); C(mpECP_clear(p)); t.live = true; t.key = k; t.m = m; t.C = lib_value(t.x->C, c); t.D = lib_value(t.x->D, c); t.orig = true; ev("slot %d: encrypted for key %d by party %d", i, k, w);
      if (ref::sub(c, t.D, ref::mul(c, t.C, ds[k])) != m) violation("bad-ciphertext", "the ciphertext (%s,%s) of %s under d=%s is wrong on %s", show(t.C).c_str(), show(t.D).c_str(), show(m).c_str(), ref::str(ds[k]).c_str(), show(c).c_str());
      continue;
    }
    if (op == 1 || op == 2) {   // deliver and decrypt, with the right or with another key
      int k = op == 1 ? t.key : (int)choose(2), w = (int)choose(NP); Pt want = ref::sub(c, t.D, ref::mul(c, t.C, ds[k])); mpECP_t o; doing("decryption of (%s,%s) with %s on %s", show(t.C).c_str(), show(t.D).c_str(), ref::str(ds[k]).c_str(), show(c).c_str());
      int st = C(mpECElgamal_init_decrypt(o, P[w].keys[k].sk, t.x)); if (st) violation("decrypt-failed", "decryption returned %d on %s", st, show(c).c_str());
      expect_pt("wrong-plaintext", o, c, want, t.orig ? "decryption" : "decryption of altered halves"); if (t.orig && k == t.key && want != t.m) violation("wrong-plaintext", "reference mismatch");
      C(mpECP_clear(o)); chk(t, "after decryption"); ev("slot %d decrypted with key %d%s", i, k, t.orig ? "" : " (altered)"); count(t.orig ? "probe.decrypt_genuine" : "probe.decrypt_altered");
    } else if (op == 3) {       // the halves travel encoded; one may be damaged
      bool dmg = flip(1, 3); int w = (int)choose(NP); mpECElgamalCiphertext_t n; Pt nv[2]; bool ok = true; mpECP_ptr hs[2] = {n->C, n->D}; mpECP_ptr os[2] = {t.x->C, t.x->D};
      int w2 = flip(1, 3) ? (w + 1) % NP : w; C(mpECP_init(n->C, P[w].cv)); C(mpECP_init(n->D, P[w2].cv));
      for (int h = 0; h < 2; h++) { int comp = (int)choose(2); string b(C(mpECP_out_bytelen(os[h], comp)), 0); C(mpECP_out_bytes((unsigned char*)&b[0], os[h], comp)); string how; if (dmg && flip(1, 2)) b = corrupt(b, &how); doing("import of half %s", hexs(b).c_str()); int st = C(mpECP_set_bytes(hs[h], (unsigned char*)b.data(), b.size(), P[h ? w2 : w].cv)); if (st) ok = false; else nv[h] = lib_value(hs[h], c); if (st && how.empty()) violation("refused", "an undamaged half was refused"); }
      if (!ok) { ev("slot %d: damaged half refused", i); C(mpECElgamal_clear(n)); count("probe.damaged_refused"); continue; }
      bool changed = nv[0] != t.C || nv[1] != t.D; if (!dmg && changed) violation("wrong-encoding", "a half changed in transit without damage"); for (auto& v : nv) if (!ref::on_curve(c, v)) violation("off-curve", "a half %s is off the curve", show(v).c_str());
      C(mpECElgamal_clear(t.x)); memcpy(t.x, n, sizeof n); t.C = nv[0]; t.D = nv[1]; if (changed) t.orig = false; ev("slot %d delivered%s", i, changed ? ", altered" : "");
    } else if (op == 4) {       // mixed, swapped or altered halves
      if (!ct[j].live) continue; switch (choose(4)) {
        case 0: C(mpECP_swap(t.x->C, t.x->D)); std::swap(t.C, t.D); t.orig = false; ev("slot %d halves swapped", i); count("fault.halves_swapped"); break;
        case 1: C(mpECP_set(t.x->D, ct[j].x->D)); t.D = ct[j].D; if (i != j) t.orig = false; ev("slot %d takes D of %d", i, j); count("fault.halves_mixed"); break;
        case 2: C(mpECP_set(t.x->C, ct[j].x->C)); t.C = ct[j].C; if (i != j) t.orig = false; ev("slot %d takes C of %d", i, j); count("fault.halves_mixed"); break;
        default: { int w = (int)choose(NP); Pt v = rand_point(c, &pts); bool d = flip(1, 2); lib_set(d ? t.x->D : t.x->C, P[w].cv, v); (d ? t.D : t.C) = v; t.orig = false; ev("slot %d: half replaced", i); count("fault.half_replaced"); } }
    } else if (op == 5) {       // mismatched inputs must be refused and leave nothing
      if (same) continue; u64 lb = mem_live_blocks(); int kind = (int)choose(4); mpECP_t o; doing("mismatched inputs, kind %d, %s and %s", kind, show(c).c_str(), show(fc).c_str());
      if (kind == 0) { mpECP_t p; C(mpECP_init(p, F.cv)); lib_set(p, F.cv, rand_point(fc, &fpts)); u64 l2 = mem_live_blocks(); mpECElgamalCiphertext_t x; int st = C(mpECElgamal_init_encrypt(x, P[0].keys[0].pk, p)); if (st == 0) violation("mismatch-accepted", "a plaintext of %s was encrypted with a key of %s", show(fc).c_str(), show(c).c_str()); if (mem_live_blocks() > l2 + 1) violation("leak", "a refused encryption kept memory"); C(mpECP_clear(p)); }
      else if (kind == 1) { mpECElgamalCiphertext_t x; bool d = flip(1, 2); C(mpECP_init(x->C, d ? P[0].cv : F.cv)); C(mpECP_init(x->D, d ? F.cv : P[0].cv)); lib_set(x->C, d ? P[0].cv : F.cv, d ? t.C : ref::gen(fc)); lib_set(x->D, d ? F.cv : P[0].cv, d ? ref::gen(fc) : t.D); int st = C(mpECElgamal_init_decrypt(o, (flip(1, 2) ? P[0] : F).keys[0].sk, x)); if (st == 0) violation("mismatch-accepted", "halves of %s and %s were decrypted together", show(c).c_str(), show(fc).c_str()); C(mpECElgamal_clear(x)); }
      else if (fc.n != c.n) { int st = C(mpECElgamal_init_decrypt(o, F.keys[0].sk, t.x)); if (st == 0) violation("mismatch-accepted", "a key modulo %s decrypted a ciphertext of %s", ref::str(fc.n).c_str(), show(c).c_str()); }
      if (mem_live_blocks() > lb + 2) violation("leak", "refused inputs kept memory: %lld blocks", (long long)(mem_live_blocks() - lb)); chk(t, "after a refusal"); ev("mismatch %d refused", kind); count("probe.mismatch_refused");
    } else if (op == 6) { mpECP_t p, o; C(mpECP_init(p, F.cv)); Pt m = rand_point(fc, &fpts); lib_set(p, F.cv, m); mpECElgamalCiphertext_t x; doing("session on the other curve %s", show(fc).c_str()); if (C(mpECElgamal_init_encrypt(x, F.keys[0].pk, p)) || C(mpECElgamal_init_decrypt(o, F.keys[0].sk, x))) violation("encrypt-failed", "a session on another curve failed"); expect_pt("wrong-plaintext", o, fc, m, "session on another curve"); C(mpECP_clear(o)); C(mpECP_clear(p)); C(mpECElgamal_clear(x)); ev("session on the other curve"); }
    else { C(mpECElgamal_clear(t.x)); t.live = false; ev("slot %d cleared", i); }
    if (flip(1, 3)) for (auto& u : ct) if (u.live) chk(u, "another session's ciphertext");
    u64 h[4] = {(u64)c.type, (u64)op, (u64)(t.live && t.orig), (u64)ref::bitlen(c.n)}; cover(hash64(h, sizeof h));
  }
  for (auto& p : P) party_check(p, c); party_check(F, fc);
  for (auto& t : ct) if (t.live) { chk(t, "end"); C(mpECElgamal_clear(t.x)); }
  for (auto& p : P) party_clear(p); party_clear(F);
}
