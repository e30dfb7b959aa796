// Executable reference model: affine arithmetic over GMP integers, independent of the code under test.
#pragma once
#include "seams.h"
#include <gmpxx.h>
#include <string>
#include <vector>
#include <memory>
#include <string.h>
extern "C" {
#include <ecc.h>
}
namespace ref {
typedef mpz_class Z;
static inline Z mod(const Z& a, const Z& p) { Z r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t()); return r; }
static inline bool inv(Z& r, const Z& a, const Z& p) { Z t = mod(a, p); if (t == 0) return false; return mpz_invert(r.get_mpz_t(), t.get_mpz_t(), p.get_mpz_t()) != 0; }
static inline Z invz(const Z& a, const Z& p) { Z r; if (!inv(r, a, p)) { sim::count("probe.reference_undefined"); sim::end_run(); } return r; }   // a sum the curve's formulas do not define: nothing to compare with
static inline Z pw(const Z& a, const Z& e, const Z& p) { Z r; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t()); return r; }
static inline int legendre(const Z& a, const Z& p) { Z t = mod(a, p); if (t == 0) return 0; if (p == 2) return 1; return mpz_legendre(t.get_mpz_t(), p.get_mpz_t()); }
static inline int bitlen(const Z& a) { return a == 0 ? 0 : (int)mpz_sizeinbase(a.get_mpz_t(), 2); }
static inline Z hex(const char* s) { return Z(s, 16); }
static inline std::string str(const Z& a) { return a.get_str(16); }
// canonical square root by Cipolla-free Tonelli for odd primes (reference use only)
static inline bool sqrtp(Z& out, const Z& a0, const Z& p) {
  Z a = mod(a0, p); if (a == 0) { out = 0; return true; } if (legendre(a, p) != 1) return false;
  Z q = p - 1; unsigned s = 0; while (mpz_even_p(q.get_mpz_t())) { q >>= 1; s++; }
  Z z = 2; while (legendre(z, p) != -1) z++;
  Z c = pw(z, q, p), r = pw(a, (q + 1) / 2, p), t = pw(a, q, p); unsigned m = s;
  while (t != 1) { unsigned i = 0; Z u = t; while (u != 1) { u = mod(u * u, p); i++; } Z b = c; for (unsigned k = 0; k + i + 1 < m; k++) b = mod(b * b, p); r = mod(r * b, p); c = mod(b * b, p); t = mod(t * c, p); m = i; }
  out = r; return true;
}
enum { WS = 0, ED = 1, MO = 2, TE = 3 };
struct Curve { int type; Z p, u, v, n, h, gx, gy; std::string name; int bits() const { return bitlen(p); } int blen() const { return (bits() + 7) / 8; } int nlen() const { return (bitlen(n) + 7) / 8; } };
// (u,v) = ws: a,b   ed: c,d   mo: B,A   te: a,d
struct Pt { bool inf = false; Z x, y; bool operator==(const Pt& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } bool operator!=(const Pt& o) const { return !(*this == o); } };
static inline Pt mk(const Z& x, const Z& y) { Pt r; r.x = x; r.y = y; return r; }
static inline Pt neutral(const Curve& c) { Pt r; if (c.type == WS || c.type == MO) { r.inf = true; return r; } r.x = 0; r.y = c.type == ED ? c.u : Z(1); return r; }
static inline bool is_neutral(const Curve& c, const Pt& a) { return a == neutral(c); }
static inline bool on_curve(const Curve& c, const Pt& a) {
  if (a.inf) return c.type == WS || c.type == MO;
  const Z &x = a.x, &y = a.y; Z l, r;
  switch (c.type) {
    case WS: l = y * y; r = x * x * x + c.u * x + c.v; break;
    case ED: l = x * x + y * y; r = c.u * c.u * (1 + c.v * x * x * y * y); break;
    case MO: l = c.u * y * y; r = x * x * x + c.v * x * x + x; break;
    default: l = c.u * x * x + y * y; r = 1 + c.v * x * x * y * y;
  }
  return mod(l - r, c.p) == 0;
}
static inline Pt neg(const Curve& c, const Pt& a) { if (a.inf) return a; if (c.type == WS || c.type == MO) return mk(a.x, mod(-a.y, c.p)); return mk(mod(-a.x, c.p), a.y); }
static inline Pt add(const Curve& c, const Pt& a, const Pt& b) {
  const Z& p = c.p;
  if (c.type == WS || c.type == MO) {
    if (a.inf) return b; if (b.inf) return a;
    Z l; Pt inf; inf.inf = true;
    if (a.x == b.x) {
      if (mod(a.y + b.y, p) == 0) return inf;
      if (c.type == WS) l = mod((3 * a.x * a.x + c.u) * invz(2 * a.y, p), p);
      else l = mod((3 * a.x * a.x + 2 * c.v * a.x + 1) * invz(2 * c.u * a.y, p), p);
    } else l = mod((b.y - a.y) * invz(b.x - a.x, p), p);
    Z x = c.type == WS ? mod(l * l - a.x - b.x, p) : mod(c.u * l * l - c.v - a.x - b.x, p);
    return mk(x, mod(l * (a.x - x) - a.y, p));
  }
  Z t = mod(c.v * a.x * b.x % p * a.y * b.y, p);
  if (c.type == ED) return mk(mod((a.x * b.y + a.y * b.x) * invz(c.u * (1 + t), p), p), mod((a.y * b.y - a.x * b.x) * invz(c.u * (1 - t), p), p));
  return mk(mod((a.x * b.y + a.y * b.x) * invz(1 + t, p), p), mod((a.y * b.y - c.u * a.x * b.x) * invz(1 - t, p), p));
}
static inline Pt sub(const Curve& c, const Pt& a, const Pt& b) { return add(c, a, neg(c, b)); }
static inline Pt mul(const Curve& c, const Pt& a, const Z& k0) {
  Z k = k0; Pt b = a; if (k < 0) { k = -k; b = neg(c, a); }
  Pt r = neutral(c); for (int i = bitlen(k) - 1; i >= 0; i--) { r = add(c, r, r); if (mpz_tstbit(k.get_mpz_t(), i)) r = add(c, r, b); }
  return r;
}
static inline Pt gen(const Curve& c) { return mk(mod(c.gx, c.p), mod(c.gy, c.p)); }
static inline Z from_bytes(const uint8_t* b, size_t n) { Z r; mpz_import(r.get_mpz_t(), n, 1, 1, 1, 0, b); return r; }
static inline std::string to_bytes(const Z& a, size_t n) { std::string s(n, 0); size_t c = (bitlen(a) + 7) / 8; if (c > n) sim::harness_error("to_bytes"); if (c) mpz_export(&s[n - c], 0, 1, 1, 1, 0, a.get_mpz_t()); return s; }
// all the points of a small curve
static inline std::vector<Pt> all_points(const Curve& c) {
  std::vector<Pt> v; long p = c.p.get_si(), u = c.u.get_si(), w = c.v.get_si();
  std::vector<std::vector<long>> rt(p);
  for (long y = 0; y < p; y++) rt[(long)((unsigned __int128)y * y % p)].push_back(y);
  auto M = [&](long a, long b) { return (long)((__int128)a * b % p); };
  auto I = [&](long a) { long r = 1, e = p - 2, b = a % p; while (e) { if (e & 1) r = M(r, b); b = M(b, b); e >>= 1; } return r; };
  long vi = c.type == MO ? I(u) : 0;
  if (c.type == WS || c.type == MO) { Pt o; o.inf = true; v.push_back(o); }
  for (long x = 0; x < p; x++) {
    long x2 = M(x, x), r; bool ok = true;
    switch (c.type) {
      case WS: r = (M(x2, x) + M(u, x) + w) % p; break;
      case MO: r = M((M(x2, x) + M(w, x2) + x) % p, vi); break;
      case ED: { long c2 = M(u, u), d = (1 + p - M(c2, M(w, x2))) % p; if (!d) { ok = false; r = 0; break; } r = M((c2 + p - x2) % p, I(d)); break; }
      default: { long d = (1 + p - M(w, x2)) % p; if (!d) { ok = false; r = 0; break; } r = M((1 + p - M(u, x2)) % p, I(d)); }
    }
    if (ok) for (long y : rt[r]) v.push_back(mk(x, y));
  }
  return v;
}
// ECDSA as the equation says
static inline Z hash_int(const Curve& c, const uint8_t* h, size_t hsz) { size_t n = (size_t)c.nlen() <= hsz ? c.nlen() : hsz; return mod(from_bytes(h, n), c.n); }
static inline bool ecdsa_ok(const Curve& c, const Pt& Q, const Z& e, const Z& r, const Z& s) {
  if (r <= 0 || s <= 0 || r >= c.n || s >= c.n) return false;
  Z w; if (!inv(w, s, c.n)) return false;
  Pt P = add(c, mul(c, gen(c), mod(e * w, c.n)), mul(c, Q, mod(r * w, c.n)));
  if (is_neutral(c, P)) return false;
  return mod(P.x, c.n) == r;
}
// encodings
static inline std::string encode(const Curve& c, const Pt& a, bool comp) {
  int L = c.blen(); if (a.inf) return std::string(comp ? 1 + L : 1 + 2 * L, 0);
  std::string x = to_bytes(a.x, L); if (comp) return std::string(1, mpz_odd_p(a.y.get_mpz_t()) ? 3 : 2) + x;
  return std::string(1, 4) + x + to_bytes(a.y, L);
}
}  // namespace ref
