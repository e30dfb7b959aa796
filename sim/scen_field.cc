// F01: field arithmetic in random object histories against integer arithmetic
#include "world.h"
static const char* primes[] = {"5","7","b","d","11","fb","fff1","fffffffb","100000007","1fffffffffffffff","ffffffffffffffc5","ffffffff00000001","fffffffffffffc61"/*not prime: filtered*/, "10000000000000001d"/*filtered if composite*/,
 "7fffffffffffffffffffffffffffffff","ffffffffffffffffffffffffffffff61","ffffffffffffffffffffffffffffffff000000000000000000000001","7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed",
 "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff","fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f",
 "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
 "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "9", "71", "101", "10001", "c0000001", "3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"};
static std::vector<Z>& good_primes() {
  static std::vector<Z> v; if (!v.empty()) return v;
  for (auto s : primes) { Z p = ref::hex(s); if (mpz_probab_prime_p(p.get_mpz_t(), 25)) v.push_back(p); }
  for (int i = 0; i < n_named; i += 3) { v.push_back(ref::hex(all_named[i].p)); v.push_back(ref::hex(all_named[i].n)); }
  for (int i = 0; i < n_ss; i += 2) { v.push_back(ref::hex(all_ss[i].p)); v.push_back(ref::hex(all_ss[i].n)); }
  // multi-limb primes with tiny top limbs, and the largest supported size
  for (int b : {64, 128, 192, 256, 320, 512, 768, 960, 1008, 1023, 1024}) { Z p = (Z(1) << (b - 1)) + 1; if (b == 1024) p = (Z(1) << 1024) - 300000; mpz_nextprime(p.get_mpz_t(), p.get_mpz_t()); if (ref::bitlen(p) <= 1024) v.push_back(p); }
  // large 2-adicity
  for (int e : {32, 40, 48, 62, 63, 64, 65, 80, 96, 100}) for (int k = 3; k < 4000; k += 2) { Z p = Z(k) * (Z(1) << e) + 1; if (mpz_probab_prime_p(p.get_mpz_t(), 25)) { v.push_back(p); break; } }
  return v;
}
static int init_primes = (good_primes(), 0);   // before any run
namespace { struct El { mpFp_t f; bool live = false; bool val = false; Z v, p; }; }
static mpFp_field_ptr fptr(const Z& p) { MZ z(p); return C(_mpFp_field_lookup(z)); }
SCENARIO(F01_history) {
  std::vector<Z>& all = good_primes();
  int nf = 1 + (int)choose(4); std::vector<Z> ps;
  for (int i = 0; i < nf; i++) ps.push_back(all[choose(all.size())]);
  mem_random_cfg();
  if (flip(1, 3)) { C(_enable_gmp_safe_clean()); ev("safe cleaning on"); }
  const int N = 5; El e[N];
  auto check_el = [&](int i, const char* op) {
    Z got = lib_fp(e[i].f);
    if (got != e[i].v) violation("wrong-value", "%s: element %d is %s, integer arithmetic gives %s (mod %s)", op, i, ref::str(got).c_str(), ref::str(e[i].v).c_str(), ref::str(e[i].p).c_str());
  };
  auto check = [&](const char* op) { for (int i = 0; i < N; i++) if (e[i].val) check_el(i, op); };
  int steps = 5 + (int)choose(50);
  for (int s = 0; s < steps; s++) {
    int r = (int)choose(N), a = (int)choose(N), b = (int)choose(N); const char* op = "?";
    if (!e[r].live) { const Z& p = ps[choose(nf)]; e[r].p = p; e[r].live = true; e[r].val = false; if (flip(1, 2)) { MZ z(p); C(mpFp_init(e[r].f, z)); } else C(mpFp_init_fp(e[r].f, fptr(p))); }
    if (!e[a].val) { // give it a value first
      const Z& p = ps[choose(nf)]; if (!e[a].live) { C(mpFp_init_fp(e[a].f, fptr(p))); e[a].live = true; }
      Z x = rand_int(p); MZ z(x); e[a].p = p; if (flip(1, 2)) { MZ zp(p); C(mpFp_set_mpz(e[a].f, z, zp)); } else C(mpFp_set_mpz_fp(e[a].f, z, fptr(p))); e[a].v = ref::mod(x, p); e[a].val = true; if (z.get() != x) violation("operand-changed", "mpFp_set_mpz changed its integer operand");
    }
    if (!e[b].val || e[b].p != e[a].p) b = a;
    const Z p = e[a].p; Z want; bool has = true;
    unsigned long ui = (unsigned long)bits64();
    int k = (int)choose_w({3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1});
    Z va = e[a].v, vb = e[b].v;
    doing("field operation %d on %s, %s mod %s", k, ref::str(va).c_str(), ref::str(vb).c_str(), ref::str(p).c_str());
    switch (k) {
      case 0: op = "add"; C(mpFp_add(e[r].f, e[a].f, e[b].f)); want = va + vb; break;
      case 1: op = "sub"; C(mpFp_sub(e[r].f, e[a].f, e[b].f)); want = va - vb; break;
      case 2: op = "mul"; C(mpFp_mul(e[r].f, e[a].f, e[b].f)); want = va * vb; break;
      case 3: op = "sqr"; C(mpFp_sqr(e[r].f, e[a].f)); want = va * va; break;
      case 4: op = "neg"; C(mpFp_neg(e[r].f, e[a].f)); want = -va; break;
      case 5: op = "add_ui"; C(mpFp_add_ui(e[r].f, e[a].f, ui)); want = va + Z(ui); break;
      case 6: op = "sub_ui"; C(mpFp_sub_ui(e[r].f, e[a].f, ui)); want = va - Z(ui); break;
      case 7: op = "mul_ui"; C(mpFp_mul_ui(e[r].f, e[a].f, ui)); want = va * Z(ui); break;
      case 8: op = "pow_ui"; C(mpFp_pow_ui(e[r].f, e[a].f, ui)); want = ref::pw(va, Z(ui), p); break;
      case 9: { op = "pow_mpz"; Z x = flip(1, 4) && va != 0 ? Z(-rand_below(p)) : rand_below(p * p); MZ z(x); C(mpFp_pow_mpz(e[r].f, e[a].f, z)); want = x < 0 ? ref::pw(ref::invz(va, p), Z(-x), p) : ref::pw(va, x, p); if (z.get() != x) violation("operand-changed", "mpFp_pow_mpz changed its exponent"); break; }
      case 10: { op = "inv"; int st = C(mpFp_inv(e[r].f, e[a].f)); Z w; bool ok = ref::inv(w, va, p); if ((st == 0) != ok) violation("wrong-status", "mpFp_inv of %s mod %s returned %d", ref::str(va).c_str(), ref::str(p).c_str(), st); want = w; has = ok; if (!ok) { ev("inv refused"); count("probe.inv_of_zero"); } break; }
      case 11: { op = "sqrt"; Z in = va; int st = C(mpFp_sqrt(e[r].f, e[a].f)); int lg = ref::legendre(in, p); if ((st == 0) != (lg >= 0)) violation("wrong-status", "mpFp_sqrt of %s mod %s returned %d", ref::str(in).c_str(), ref::str(p).c_str(), st);
        has = st == 0; if (has) { want = lib_fp(e[r].f); if (want >= p || ref::mod(want * want, p) != in) violation("wrong-value", "sqrt(%s) mod %s gave %s", ref::str(in).c_str(), ref::str(p).c_str(), ref::str(want).c_str()); } else count("probe.sqrt_nonresidue"); break; }
      case 12: op = "set"; C(mpFp_set(e[r].f, e[a].f)); want = va; break;
      case 13: { op = "set_mpz"; Z x = rand_int(p); MZ z(x); C(mpFp_set_mpz_fp(e[r].f, z, e[a].f->fp)); want = x; if (z.get() != x) violation("operand-changed", "mpFp_set_mpz_fp changed its integer operand"); break; }
      case 14: op = "set_ui"; if (flip(1, 2)) { MZ zp(p); C(mpFp_set_ui(e[r].f, ui, zp)); } else C(mpFp_set_ui_fp(e[r].f, ui, e[a].f->fp)); want = Z(ui); break;
      case 15: { op = "swap"; if (a == r && b == r) { has = false; }
        int q = b; if (e[q].p != e[a].p) { has = false; e[r].val = e[r].val; break; }
        if (flip(1, 2)) { C(mpFp_swap(e[a].f, e[q].f)); std::swap(e[a].v, e[q].v); } else { int w = (int)choose(3) - 1; C(mpFp_cswap(e[a].f, e[q].f, w)); if (w) std::swap(e[a].v, e[q].v); }
        ev("%s %d %d", op, a, q); check(op); continue; }
      case 16: { op = "cmp"; int c = C(mpFp_cmp(e[a].f, e[b].f)); if ((c == 0) != (va == vb) || (c < 0) != (va < vb)) violation("wrong-compare", "mpFp_cmp(%s,%s) = %d", ref::str(va).c_str(), ref::str(vb).c_str(), c);
        unsigned long u2 = flip(1, 2) && va.fits_ulong_p() ? va.get_ui() : ui; c = C(mpFp_cmp_ui(e[a].f, u2)); if ((c == 0) != (va == Z(u2))) violation("wrong-compare", "mpFp_cmp_ui(%s,%lu) = %d", ref::str(va).c_str(), u2, c);
        Z x; switch (choose(6)) { case 0: x = va; break; case 1: x = va + p; break; case 2: x = -va; break; case 3: x = va - p; break; case 4: x = va + (Z(1) << (64 * choose(4))); break; default: x = rand_int(p); } MZ z(x); c = C(mpFp_cmp_mpz(e[a].f, z)); if ((c == 0) != (x == va)) violation("wrong-compare", "mpFp_cmp_mpz(%s,%s) = %d", ref::str(va).c_str(), ref::str(x).c_str(), c);
        ev("cmp %d %d", a, b); continue; }
      case 17: { op = "tstbit"; int bit = (int)choose(ref::bitlen(p) + 70); int c = C(mpFp_tstbit(e[a].f, bit)); if ((c != 0) != (mpz_tstbit(va.get_mpz_t(), bit) != 0)) violation("wrong-value", "mpFp_tstbit(%s,%d) = %d", ref::str(va).c_str(), bit, c); continue; }
      case 18: { op = "set_mpFp"; MZ z(rand_int(p)); C(mpz_set_mpFp(z, e[a].f)); if (z.get() != va) violation("wrong-value", "mpz_set_mpFp gave %s for %s", ref::str(z.get()).c_str(), ref::str(va).c_str()); MZ t(z.get() + 1); C(mpz_set_mpFp(t, e[a].f)); continue; }
      case 19: { op = "clear"; C(mpFp_clear(e[a].f)); e[a].live = e[a].val = false; ev("clear %d", a); continue; }
      case 20: { op = "urandom"; MZ zp(p); C(mpFp_urandom(e[r].f, zp)); want = lib_fp(e[r].f); if (want >= p || want < 0) violation("out-of-range", "mpFp_urandom gave %s for p=%s", ref::str(want).c_str(), ref::str(p).c_str()); break; }
    }
    e[r].p = p; e[r].v = ref::mod(want, p); e[r].val = has; 
    if (!has && r != a) e[r].val = false;
    step(); ev("%s r%d a%d b%d -> %s", op, r, a, b, has ? ref::str(e[r].v).substr(0, 24).c_str() : "-");
    if (flip(1, 3)) check(op); else if (has) check_el(r, op);
    u64 h[3] = {(u64)k, (u64)ref::bitlen(p), (u64)((r == a) + 2 * (r == b) + 4 * (a == b))}; cover(hash64(h, sizeof h));
  }
  check("end");
  for (int i = 0; i < N; i++) if (e[i].live) C(mpFp_clear(e[i].f));
}
