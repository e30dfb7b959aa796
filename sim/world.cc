#include "world.h"
#include <stdlib.h>
#include "curves.inc"
const NamedCurve* const all_named = named_curves; const int n_named = sizeof named_curves / sizeof named_curves[0];
const SsSize* const all_ss = ss_sizes; const int n_ss = sizeof ss_sizes / sizeof ss_sizes[0];
Z rand_below(const Z& n) {
  if (n <= 1) return 0;
  int b = ref::bitlen(n); Z r;
  switch (choose_w({2, 2, 2, 2, 1, 1, 12})) {
    case 0: return 0;
    case 1: return ref::mod(Z(1), n);
    case 2: r = n - 1; return r;
    case 3: return ref::mod(Z((unsigned long)choose(16)), n);
    case 4: r = Z(1) << choose(b); return ref::mod(r, n);
    case 5: r = n - 1 - Z((unsigned long)choose(16)); return ref::mod(r, n);
    default: for (int i = 0; i < b + 64; i += 64) { u64 w = bits64(); r = (r << 64) + Z((unsigned long)w); } return ref::mod(r, n);
  }
}
Z rand_int(const Z& n) {
  Z r = rand_below(n);
  switch (choose_w({8, 3, 3, 2, 2, 1, 1})) {
    case 0: return r;
    case 1: return r - n;                     // negative
    case 2: return r + n * Z((unsigned long)(1 + choose(5)));
    case 3: return -r;
    case 4: return n;
    case 5: return (r << (64 * (1 + choose(3)))) + rand_below(n);
    default: return -((r << (1 + choose(200))) + 1);
  }
}
const char* type_name(int t) { static const char* n[] = {"ws", "ed", "mo", "te"}; return n[t]; }
std::string show(const Pt& p) { return p.inf ? "O" : "(" + ref::str(p.x) + "," + ref::str(p.y) + ")"; }
std::string show(const ref::Curve& c) { return std::string(type_name(c.type)) + " p=" + ref::str(c.p) + " c=" + ref::str(c.u) + "," + ref::str(c.v) + " n=" + ref::str(c.n) + " h=" + ref::str(c.h) + (c.name.size() ? " " + c.name : ""); }
ref::Curve ref_named(int i) {
  const NamedCurve& k = all_named[i]; ref::Curve c; c.type = k.type; c.name = k.name; c.p = ref::hex(k.p); c.u = ref::hex(k.u); c.v = ref::hex(k.v); c.n = ref::hex(k.n); c.h = ref::hex(k.h); c.gx = ref::hex(k.gx); c.gy = ref::hex(k.gy); return c;
}
static bool is_prime(long n) { if (n < 2) return false; for (long d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }
static long rand_prime(long lo, long hi) { long p = lo + (long)choose(hi - lo); while (!is_prime(p)) p++; return p; }
ref::Curve ref_tiny(int type, std::vector<Pt>* out) {
  static const long hi[] = {40, 130, 260, 520};
  for (int tries = 0; tries < 60; tries++) {
    long p = rand_prime(7, hi[choose(4)]); ref::Curve c; c.type = type; c.p = p;
    long u = (long)choose(p), v = (long)choose(p);
    auto qr = [&](long a) { return ref::legendre(Z(a), c.p); };
    switch (type) {
      case WS: if ((4 * (__int128)u % p * u % p * u + 27 * (__int128)v * v) % p == 0) continue; break;
      case ED: { if (!u || !v) continue; if (qr(v) != -1) continue; break; }          // complete, non-singular below
      case MO: if (!u) u = 1; if ((v * v) % p == 4 % p) continue; break;
      case TE: if (!u || !v || u == v || qr(u) != 1 || qr(v) != -1) continue; break;
    }
    c.u = u; c.v = v;
    if (type == ED && ref::mod(c.v * c.u * c.u * c.u * c.u, c.p) == 1) continue;
    std::vector<Pt> pts = ref::all_points(c);
    long N = (long)pts.size(), best = 0;
    for (long q = 5; q <= N; q++) if (N % q == 0 && is_prime(q)) best = q;
    if (!best) continue;
    c.n = best; c.h = N / best;
    // a generator of the subgroup of order n
    bool ok = false; u64 s = choose(N);
    for (long i = 0; i < N && !ok; i++) { Pt g = ref::mul(c, pts[(s + i) % N], c.h); if (!ref::is_neutral(c, g) && ref::is_neutral(c, ref::mul(c, g, c.n))) { c.gx = g.x; c.gy = g.y; ok = true; } }
    if (!ok) continue;
    if (out) *out = pts;
    return c;
  }
  end_run();
}
ref::Curve ref_ss(int type, int maxbits) {
  int m = 0; while (m < n_ss && all_ss[m].bits <= maxbits) m++;
  const SsSize& k = all_ss[choose(m ? m : 1)]; ref::Curve c; c.type = type; c.p = ref::hex(k.p); c.n = ref::hex(k.n); c.h = k.h;
  auto nz = [&]() { Z a = rand_below(c.p); return a == 0 ? Z(1) : a; };
  switch (type) {   // p = 11 mod 12: all of these have p+1 points
    case WS: if (flip(1, 2)) { c.u = 0; c.v = nz(); } else { c.u = nz(); c.v = 0; } break;
    case ED: { c.u = nz(); Z c4 = c.u * c.u % c.p; c4 = c4 * c4 % c.p; c.v = ref::mod(-ref::invz(c4, c.p), c.p); break; }
    case MO: c.u = nz(); c.v = 0; break;
    case TE: { Z s = nz(); c.u = ref::mod(s * s, c.p); c.v = ref::mod(-c.u, c.p); break; }
  }
  Z x = rand_below(c.p);
  for (int i = 0; i < 200; i++, x = ref::mod(x + 1, c.p)) {
    Pt g = ref::neutral(c); Z r, d; 
    switch (type) {
      case WS: r = x * x * x + c.u * x + c.v; break;
      case MO: r = (x * x * x + c.v * x * x + x) * ref::invz(c.u, c.p); break;
      case ED: if (!ref::inv(d, 1 - c.u * c.u * c.v * x * x, c.p)) continue; r = (c.u * c.u - x * x) * d; break;
      default: if (!ref::inv(d, 1 - c.v * x * x, c.p)) continue; r = (1 - c.u * x * x) * d;
    }
    Z y; if (!ref::sqrtp(y, r, c.p)) continue;
    g = ref::mul(c, ref::mk(x, y), c.h);
    if (ref::is_neutral(c, g)) continue;
    c.gx = g.x; c.gy = g.y; return c;
  }
  end_run();
}
ref::Curve pick_curve(const CurveReq& q, std::vector<Pt>* pts) {
  if (pts) pts->clear();
  for (int tries = 0; tries < 40; tries++) {
    int t = q.only_type >= 0 ? q.only_type : (int)choose(4); ref::Curve c;
    int k = (int)choose_w({q.tiny ? 6 : 0, 3, q.named ? 2 : 0});
    if (k == 0) c = ref_tiny(t, pts);
    else if (k == 1) c = ref_ss(t, q.maxbits);
    else { std::vector<int> v; for (int i = 0; i < n_named; i++) if ((q.only_type < 0 || all_named[i].type == q.only_type) && ref::bitlen(ref::hex(all_named[i].p)) <= q.maxbits) v.push_back(i); if (v.empty()) continue; c = ref_named(v[choose(v.size())]); }
    if (q.h1_only && c.h % 2 == 0) { if (pts) pts->clear(); continue; }
    if (c.n < q.minn) { if (pts) pts->clear(); continue; }
    ev("curve %s", show(c).c_str());
    return c;
  }
  end_run();
}
static bool ref_lift(const ref::Curve& c, const Z& x, Pt* out) {
  Z r, d, y;
  switch (c.type) {
    case WS: r = x * x * x + c.u * x + c.v; break;
    case MO: r = (x * x * x + c.v * x * x + x) * ref::invz(c.u, c.p); break;
    case ED: if (!ref::inv(d, 1 - c.u * c.u * c.v * x * x, c.p)) return false; r = (c.u * c.u - x * x) * d; break;
    default: if (!ref::inv(d, 1 - c.v * x * x, c.p)) return false; r = (1 - c.u * x * x) * d;
  }
  if (!ref::sqrtp(y, r, c.p)) return false;
  *out = ref::mk(x, y); return true;
}
Pt rand_point(const ref::Curve& c, const std::vector<Pt>* pts) {
  if (pts && !pts->empty()) return (*pts)[choose(pts->size())];
  switch (choose_w({1, 4, 3})) {
    case 0: return ref::neutral(c);
    case 1: return rand_sub_point(c);
    default: { Z x = rand_below(c.p); Pt r; for (int i = 0; i < 100; i++, x = ref::mod(x + 1, c.p)) if (ref_lift(c, x, &r)) return flip(1, 2) ? ref::neg(c, r) : r; return ref::neutral(c); }
  }
}
Pt rand_sub_point(const ref::Curve& c) { Z k = ref::bitlen(c.n) > 140 ? Z((unsigned long)choose(1 << 20)) : rand_below(c.n); return ref::mul(c, ref::gen(c), k); }

// ---------------------------------------------------------------- library
static std::string lit(const Z& a) { return flip(1, 2) ? "0x" + a.get_str(16) : a.get_str(10); }
void lib_curve_make(mpECurve_t cv, const ref::Curve& r, bool fresh) {
  if (fresh) C(mpECurve_init(cv));
  int route = r.name.size() ? (int)choose(3) : 1 + (int)choose(2); int st;
  unsigned bits = r.bits();
  if (route == 0) st = C(mpECurve_set_named(cv, (char*)r.name.c_str()));
  else if (route == 1) {
    MZ p(r.p), u(r.u), v(r.v), n(r.n), h(r.h), gx(r.gx), gy(r.gy);
    switch (r.type) { case WS: st = C(mpECurve_set_mpz_ws(cv, p, u, v, n, h, gx, gy, bits)); break; case ED: st = C(mpECurve_set_mpz_ed(cv, p, u, v, n, h, gx, gy, bits)); break;
      case MO: st = C(mpECurve_set_mpz_mo(cv, p, u, v, n, h, gx, gy, bits)); break; default: st = C(mpECurve_set_mpz_te(cv, p, u, v, n, h, gx, gy, bits)); }
  } else {
    std::string p = lit(r.p), u = lit(r.u), v = lit(r.v), n = lit(r.n), h = lit(r.h), gx = lit(r.gx), gy = lit(r.gy);
    auto m = [](std::string& s) { return (char*)s.c_str(); };
    switch (r.type) { case WS: st = C(mpECurve_set_str_ws(cv, m(p), m(u), m(v), m(n), m(h), m(gx), m(gy), bits)); break; case ED: st = C(mpECurve_set_str_ed(cv, m(p), m(u), m(v), m(n), m(h), m(gx), m(gy), bits)); break;
      case MO: st = C(mpECurve_set_str_mo(cv, m(p), m(u), m(v), m(n), m(h), m(gx), m(gy), bits)); break; default: st = C(mpECurve_set_str_te(cv, m(p), m(u), m(v), m(n), m(h), m(gx), m(gy), bits)); }
  }
  if (st != 0) violation("curve-rejected", "a valid curve was refused (status %d): %s", st, show(r).c_str());
}
Z lib_fp(mpFp_t a) { MZ t; C(mpz_set_mpFp(t, a)); return t.get(); }
void lib_curve_expect(mpECurve_t cv, const ref::Curve& r, const char* who) {
  static const int ty[] = {EQTypeShortWeierstrass, EQTypeEdwards, EQTypeMontgomery, EQTypeTwistedEdwards};
  bool ok = cv->type == ty[r.type] && cv->fp && Z(cv->fp->p) == r.p && Z(cv->n) == r.n && Z(cv->h) == r.h && ref::mod(Z(cv->G[0]), r.p) == ref::mod(r.gx, r.p) && ref::mod(Z(cv->G[1]), r.p) == ref::mod(r.gy, r.p) && (int)cv->bits == r.bits();
  if (ok) switch (r.type) {
    case WS: ok = lib_fp(cv->coeff.ws.a) == ref::mod(r.u, r.p) && lib_fp(cv->coeff.ws.b) == ref::mod(r.v, r.p); break;
    case ED: ok = lib_fp(cv->coeff.ed.c) == ref::mod(r.u, r.p) && lib_fp(cv->coeff.ed.d) == ref::mod(r.v, r.p); break;
    case MO: ok = lib_fp(cv->coeff.mo.B) == ref::mod(r.u, r.p) && lib_fp(cv->coeff.mo.A) == ref::mod(r.v, r.p); break;
    default: ok = lib_fp(cv->coeff.te.a) == ref::mod(r.u, r.p) && lib_fp(cv->coeff.te.d) == ref::mod(r.v, r.p);
  }
  if (!ok) violation("curve-changed", "%s: a curve object no longer holds the curve it was given: %s", who, show(r).c_str());
}
Pt lib_value(mpECP_t p, const ref::Curve& c) {
  Enter e; mpECP_t a, o; MZ x, y;
  mpECP_init(o, p->cvp); mpECP_set_neutral(o, p->cvp);
  Pt r;
  if (mpECP_cmp(p, o) == 0) { Leave l; r = ref::neutral(c); }
  else { mpECP_init(a, p->cvp); mpECP_set(a, p); mpz_set_mpECP_affine_x(x, a); mpz_set_mpECP_affine_y(y, a); mpECP_clear(a); Leave l; r = ref::mk(x.get(), y.get()); }
  mpECP_clear(o);
  return r;
}
void lib_set(mpECP_t p, mpECurve_t cv, const Pt& v) {
  if (v.inf) { C(mpECP_set_neutral(p, cv)); return; }
  MZ x(v.x), y(v.y); C(mpECP_set_mpz(p, x, y, cv));
}
void expect_pt(const char* cls, mpECP_t p, const ref::Curve& c, const Pt& want, const char* what) {
  Pt got = lib_value(p, c);
  if (got != want) violation(cls, "%s: got %s, the group law gives %s, on %s", what, show(got).c_str(), show(want).c_str(), show(c).c_str());
}
// ---------------------------------------------------------------- hashes
static void mixhash(uint8_t* h, const uint8_t* m, size_t n, size_t hs) {
  u64 s = 0x1234567887654321ull ^ (hs * 7919); for (size_t i = 0; i < n; i++) { s ^= m[i]; s *= 1099511628211ull; s ^= s >> 31; }
  s ^= n * 0x9E3779B97F4A7C15ull; for (size_t i = 0; i < hs; i++) { s += 0x9E3779B97F4A7C15ull; u64 z = (s ^ (s >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; h[i] = (uint8_t)(z ^ (z >> 31)); }
}
#define HF(n) static void hf##n(unsigned char* h, unsigned char* m, size_t z) { Leave l; mixhash(h, m, z, n); }
HF(1) HF(2) HF(20) HF(32) HF(48) HF(64)
static void hfzero(unsigned char* h, unsigned char* m, size_t z) { Leave l; mixhash(h, m, z, 16); if (z && (m[0] & 3) == 0) memset(h, 0, 16); }     // hashes that are often 0
static void hfones(unsigned char* h, unsigned char* m, size_t z) { Leave l; mixhash(h, m, z, 32); if (z && (m[0] & 1) == 0) memset(h, 0xFF, 32); }
static struct { _ecdsa_dohash f; size_t n; } hts[] = {{hf32, 32}, {hf20, 20}, {hf1, 1}, {hf2, 2}, {hf48, 48}, {hf64, 64}, {hfzero, 16}, {hfones, 32}};
int n_hashes() { return sizeof hts / sizeof hts[0]; }
size_t hash_size(int i) { return hts[i].n; }
void hash_ref(int i, const uint8_t* m, size_t n, uint8_t* out) { Leave l; hts[i].f(out, (unsigned char*)m, n); }
void pick_hash(mpECDSAHashfunc_t H, int* idx) { *idx = (int)choose(n_hashes()); H->dohash = hts[*idx].f; H->hsz = hts[*idx].n; }
mpECDSAHashfunc_ptr hash_handle(int i) { static mpECDSAHashfunc_t hh[8]; hh[i]->dohash = hts[i].f; hh[i]->hsz = hts[i].n; return hh[i]; }
Z hash_e(const ref::Curve& c, int i, const std::string& m) { uint8_t h[64]; hash_ref(i, (const uint8_t*)m.data(), m.size(), h); return ref::hash_int(c, h, hts[i].n); }
// ---------------------------------------------------------------- channel
std::string rand_msg(size_t maxlen, bool nonempty) { size_t n = choose(maxlen); if (nonempty && !n) n = 1; std::string s(n, 0); u64 w = 0; for (size_t i = 0; i < n; i++) { if (i % 8 == 0) w = bits64(); s[i] = (char)(w >> (8 * (i % 8))); } return s; }
std::string rand_msg_any(size_t maxlen) {
  if (!flip(1, 8)) return rand_msg(maxlen, true);
  // lengths around the powers of two a careless size computation breaks at
  static const size_t L[] = {127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 65600, 100000, 131072, 200001, 1 << 20};
  size_t n = L[choose(sizeof L / sizeof *L)] + choose(3); std::string s(n, 0); u64 w = bits64();
  for (size_t i = 0; i < n; i++) { if (i % 8 == 0) w = w * 6364136223846793005ull + 1442695040888963407ull; s[i] = (char)(w >> (8 * (i % 8))); }
  count("probe.long_message"); return s;
}
std::string hexs(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02X", c); o += b; } return o; }
std::string corrupt(const std::string& s, std::string* how) {
  for (int tries = 0; tries < 20; tries++) {
    std::string r = s; char b[64];
    switch (choose(8)) {
      case 0: if (r.empty()) continue; { size_t i = choose(r.size()); int k = (int)choose(8); r[i] ^= 1 << k; snprintf(b, 64, "bit %d of byte %zu flipped", k, i); *how = b; } break;
      case 1: if (r.empty()) continue; { size_t n = choose(r.size()); r.resize(n); snprintf(b, 64, "cut to %zu bytes", n); *how = b; } break;
      case 2: { size_t n = 1 + choose(3); r.append(n, (char)choose(256)); snprintf(b, 64, "%zu bytes appended", n); *how = b; } break;
      case 3: if (r.empty()) continue; { size_t i = choose(r.size()); r[i] = (char)bits64(); snprintf(b, 64, "byte %zu replaced", i); *how = b; } break;
      case 4: if (r.size() < 2) continue; { size_t i = choose(r.size()), n = 1 + choose(r.size() - i); for (size_t k = i; k < i + n; k++) r[k] = 0; snprintf(b, 64, "%zu bytes at %zu zeroed", n, i); *how = b; } break;
      case 5: if (r.size() < 2) continue; { size_t i = choose(r.size()); r.erase(i, 1); snprintf(b, 64, "byte %zu lost", i); *how = b; } break;
      case 6: { size_t i = choose(r.size() + 1); r.insert(i, 1, (char)choose(256)); snprintf(b, 64, "byte inserted at %zu", i); *how = b; } break;
      default: if (r.size() < 4) continue; { size_t i = choose(r.size() / 2), n = 1 + choose(r.size() / 2); for (size_t k = i; k < i + n && k < r.size(); k++) r[k] = (char)0xFF; snprintf(b, 64, "%zu bytes at %zu set to 0xFF", n, i); *how = b; }
    }
    if (r != s) { count("fault.message_corrupted"); return r; }
  }
  *how = "byte appended"; return s + std::string(1, 'x');
}
