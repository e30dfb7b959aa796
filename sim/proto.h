// Keys, schemes and sessions shared by the protocol scenarios.
#pragma once
#include "world.h"
#include <set>
struct Key { mpFp_t sk; Z d; mpECP_t pk; Pt Q; };
static inline void key_make(Key& k, mpECurve_t cv, const ref::Curve& c, const Z& d) {
  MZ n(c.n), z(d); k.d = d; k.Q = ref::mul(c, ref::gen(c), d);
  C(mpFp_init(k.sk, n)); C(mpFp_set_mpz(k.sk, z, n)); C(mpECP_init(k.pk, cv)); lib_set(k.pk, cv, k.Q);
}
static inline void key_clear(Key& k) { C(mpECP_clear(k.pk)); C(mpFp_clear(k.sk)); }
static inline Z rand_key(const ref::Curve& c) { Z d = rand_below(c.n); return d == 0 ? Z(1) : d; }
static inline Z recover_nonce(const ref::Curve& c, const Z& d, const Z& e, const Z& r, const Z& s) { return ref::mod((e + r * d) * ref::invz(s, c.n), c.n); }
// a curve of at least lo and at most hi bits: named or supersingular
static inline ref::Curve big_curve(int lo, int hi) {
  if (flip(1, 2)) { std::vector<int> v; for (int i = 0; i < n_named; i++) { int b = ref::bitlen(ref::hex(all_named[i].p)); if (b >= lo && b <= hi) v.push_back(i); } if (v.size()) { ref::Curve c = ref_named(v[choose(v.size())]); ev("curve %s", show(c).c_str()); return c; } }
  for (int t = 0; t < 100; t++) { ref::Curve c = ref_ss((int)choose(4), hi); if (ref::bitlen(c.n) >= lo) { ev("curve %s", show(c).c_str()); return c; } }
  end_run();
}
// the nonces with which a signature exists at all (small orders only)
static inline std::set<long> usable_nonces(const ref::Curve& c, const Z& d, const Z& e) {
  std::set<long> u; Pt g = ref::gen(c), p = ref::neutral(c); long n = c.n.get_si();
  for (long k = 1; k < n; k++) { p = ref::add(c, p, g); Z r = ref::mod(p.x, c.n); if (r == 0) continue; Z s = ref::mod((e + r * d) * ref::invz(Z(k), c.n), c.n); if (s != 0) u.insert(k); }
  return u;
}
