// P01 group law histories, P02 scalar multiplication, P03 encodings over a lossy channel, C01 curve objects, K01 key agreement
#include "world.h"
#include <stdlib.h>
#include <map>
#include <deque>
namespace {
struct LP { mpECP_t p; bool live = false, val = false; int cv = 0; Pt v; };   // cv: index of the curve object
struct World {
  std::vector<ref::Curve> rc; mpECurve_t cv[4]; int nc = 0; std::vector<std::vector<Pt>> pts;
  World() { rc.reserve(8); pts.reserve(8); }
  int add(const ref::Curve& r, const std::vector<Pt>& p) { int i = nc++; rc.push_back(r); pts.push_back(p); lib_curve_make(cv[i], r); return i; }
  int add_copy(int j) { int i = nc++; rc.push_back(rc[j]); pts.push_back(pts[j]); C(mpECurve_init(cv[i])); C(mpECurve_set(cv[i], cv[j])); return i; }
  bool same(int a, int b) { const ref::Curve &x = rc[a], &y = rc[b]; return x.type == y.type && x.p == y.p && x.u == y.u && x.v == y.v && x.n == y.n && x.h == y.h && x.gx == y.gx && x.gy == y.gy; }
  void check(const char* w) { for (int i = 0; i < nc; i++) lib_curve_expect(cv[i], rc[i], w); }
  void clear() { for (int i = 0; i < nc; i++) C(mpECurve_clear(cv[i])); }
};
}
static bool live_safe_clean() { if (flip(1, 4)) { C(_enable_gmp_safe_clean()); ev("safe cleaning on"); return true; } return false; }

static void history(bool scalars) {
  mem_random_cfg(); live_safe_clean();
  World w; CurveReq q; q.maxbits = flip(1, 6) ? 256 : 130; std::vector<Pt> pts;
  w.add(pick_curve(q, &pts), pts);
  if (flip(2, 3)) w.add_copy(0);
  if (flip(1, 2)) { CurveReq q2; q2.maxbits = 130; ref::Curve r = pick_curve(q2, &pts); w.add(r, pts); }
  const int N = 5; LP e[N];
  auto check_one = [&](int i, const char* op) { expect_pt("wrong-point", e[i].p, w.rc[e[i].cv], e[i].v, op); };
  auto check = [&](const char* op) { for (int i = 0; i < N; i++) if (e[i].val) check_one(i, op); w.check(op); };
  auto fresh = [&](int i, int c) { Pt v = rand_point(w.rc[c], &w.pts[c]);
    if (!e[i].live) { C(mpECP_init(e[i].p, w.cv[c])); e[i].live = true; }
    if (v.inf || (ref::is_neutral(w.rc[c], v) && flip(1, 2))) { C(mpECP_set_neutral(e[i].p, w.cv[c])); }
    else if (flip(1, 2)) { MZ x(flip(1, 4) ? Z(v.x + w.rc[c].p) : v.x), y(flip(1, 4) ? Z(v.y - w.rc[c].p) : v.y); C(mpECP_set_mpz(e[i].p, x, y, w.cv[c])); }
    else { mpFp_t x, y; MZ zx(v.x), zy(v.y); C(mpFp_init_fp(x, w.cv[c]->fp)); C(mpFp_init_fp(y, w.cv[c]->fp)); C(mpFp_set_mpz_fp(x, zx, w.cv[c]->fp)); C(mpFp_set_mpz_fp(y, zy, w.cv[c]->fp)); C(mpECP_set_mpFp(e[i].p, x, y, w.cv[c])); if (lib_fp(x) != v.x || lib_fp(y) != v.y) violation("operand-changed", "mpECP_set_mpFp changed its operands"); C(mpFp_clear(x)); C(mpFp_clear(y)); }
    e[i].v = v; e[i].cv = c; e[i].val = true; };
  bool big = w.rc[0].bits() > 100 || (w.nc > 2 && w.rc[2].bits() > 100);
  int steps = 4 + (int)choose(big ? 16 : 40);
  for (int s = 0; s < steps; s++) {
    int r = (int)choose(N), a = (int)choose(N), b = (int)choose(N); const char* op = "?";
    if (!e[a].val) fresh(a, (int)choose(w.nc));
    if (!e[b].val || !w.same(e[b].cv, e[a].cv)) { if (flip(1, 2)) b = a; else if (b != a) { int c = 0; std::vector<int> cs; for (int i = 0; i < w.nc; i++) if (w.same(i, e[a].cv)) cs.push_back(i); c = cs[choose(cs.size())]; fresh(b, c); } }
    // special operand relations
    if (b != a && flip(1, 4)) { const ref::Curve& c = w.rc[e[a].cv]; Pt v = e[a].v; switch (choose(3)) { case 0: v = ref::neg(c, v); break; case 1: break; default: if (w.pts[e[a].cv].size()) { const auto& ps = w.pts[e[a].cv]; Pt t = ps[choose(ps.size())]; for (int k = 0; k < 8; k++) { Pt t2 = ref::add(c, t, t); if (ref::is_neutral(c, t2)) break; t = t2; } v = ref::add(c, v, t); } } lib_set(e[b].p, w.cv[e[b].cv], v); e[b].v = v; }
    if (!e[r].live) { int c = (int)choose(w.nc); C(mpECP_init(e[r].p, w.cv[c])); e[r].live = true; e[r].val = false; e[r].cv = c; }
    const int ca = e[a].cv; const ref::Curve& c = w.rc[ca]; Pt va = e[a].v, vb = e[b].v, want; bool has = true;
    int k = scalars ? (int)choose_w({2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 8, 8, 8, 8}) : (int)choose_w({8, 4, 4, 3, 3, 3, 2, 2, 3, 2, 1, 1, 1, 1, 0, 0});
    doing("point operation %d on %s and %s, result was %s, on %s", k, show(va).c_str(), show(vb).c_str(), e[r].val ? show(e[r].v).c_str() : "unset", show(c).c_str());
    switch (k) {
      case 0: op = "add"; C(mpECP_add(e[r].p, e[a].p, e[b].p)); want = ref::add(c, va, vb); break;
      case 1: op = "double"; C(mpECP_double(e[r].p, e[a].p)); want = ref::add(c, va, va); break;
      case 2: op = "sub"; C(mpECP_sub(e[r].p, e[a].p, e[b].p)); want = ref::sub(c, va, vb); break;
      case 3: op = "neg"; C(mpECP_neg(e[r].p, e[a].p)); want = ref::neg(c, va); break;
      case 4: op = "set"; C(mpECP_set(e[r].p, e[a].p)); want = va; break;
      case 5: { op = "cmp"; int z = C(mpECP_cmp(e[a].p, e[b].p)); if ((z == 0) != (va == vb)) violation("wrong-compare", "mpECP_cmp(%s,%s) = %d on %s", show(va).c_str(), show(vb).c_str(), z, show(c).c_str());
        int o = (int)choose(N); if (e[o].val) { z = C(mpECP_cmp(e[a].p, e[o].p)); bool eq = w.same(e[o].cv, ca) && e[o].v == va; if ((z == 0) != eq) violation("wrong-compare", "mpECP_cmp of points of curves %s and %s = %d", show(c).c_str(), show(w.rc[e[o].cv]).c_str(), z); }
        ev("cmp %d %d", a, b); continue; }
      case 6: op = "swap"; if (b == a) continue; C(mpECP_swap(e[a].p, e[b].p)); std::swap(e[a].v, e[b].v); ev("swap %d %d", a, b); check(op); continue;
      case 7: { op = "cswap"; if (b == a || e[a].p->base_bits || e[b].p->base_bits) continue; int sw = (int)choose(3) - 1; C(mpECP_cswap(e[a].p, e[b].p, sw)); if (sw) std::swap(e[a].v, e[b].v); ev("cswap %d %d %d", a, b, sw); check(op); continue; }
      case 8: op = "fresh"; fresh(r, (int)choose(w.nc)); ev("fresh r%d", r); check_one(r, op); continue;
      case 9: op = "neutral"; C(mpECP_set_neutral(e[r].p, w.cv[ca])); want = ref::neutral(c); break;
      case 10: op = "clear"; C(mpECP_clear(e[a].p)); e[a].live = e[a].val = false; ev("clear %d", a); if (flip(1, 2)) check(op); continue;
      case 11: op = "setup"; if (c.bits() > 40 && !flip(1, 3)) continue; C(mpECP_scalar_base_mul_setup(e[a].p)); ev("setup %d", a); check_one(a, op); continue;
      default: {
        if (k != 12 && k != 13 && c.bits() > 40 && e[a].p->base_bits == 0 && !flip(1, 3)) k = 12;
        Z sc = rand_int(c.n), m = ref::mod(sc, c.n); want = ref::mul(c, va, m);
        doing("scalar multiplication (routine %d) of %s by %s on %s", k, show(va).c_str(), ref::str(sc).c_str(), show(c).c_str());
        MZ z(sc); mpFp_t f; MZ zn(c.n); C(mpFp_init(f, zn)); C(mpFp_set_mpz(f, z, zn));
        switch (k) { case 12: op = "scalar_mul_mpz"; C(mpECP_scalar_mul_mpz(e[r].p, e[a].p, z)); break; case 13: op = "scalar_mul"; C(mpECP_scalar_mul(e[r].p, e[a].p, f)); break;
          case 14: op = "scalar_base_mul_mpz"; C(mpECP_scalar_base_mul_mpz(e[r].p, e[a].p, z)); break; default: op = "scalar_base_mul"; C(mpECP_scalar_base_mul(e[r].p, e[a].p, f)); }
        if (z.get() != sc || lib_fp(f) != m) violation("operand-changed", "%s changed its scalar", op);
        C(mpFp_clear(f)); ev("scalar %s", ref::str(sc).c_str());
        if (m == 0) count("probe.scalar_zero_mod_n"); if (sc < 0) count("probe.scalar_negative"); if (sc >= c.n) count("probe.scalar_beyond_order");
      }
    }
    if (a == r && !has) e[a].val = false;
    e[r].v = want; e[r].cv = ca; e[r].val = has;
    // the result belongs to the operand's curve (or an equal one)
    step(); ev("%s r%d a%d b%d -> %s", op, r, a, b, show(want).substr(0, 40).c_str());
    check_one(r, op);
    if (flip(1, 3)) check(op);
    if (ref::is_neutral(c, want)) count("probe.neutral_result"); if (va == vb && k == 0) count("probe.add_equal"); 
    u64 h[4] = {(u64)k, (u64)c.type, (u64)((r == a) + 2 * (r == b) + 4 * (a == b) + 8 * (va == vb) + 16 * ref::is_neutral(c, va) + 32 * ref::is_neutral(c, vb) + 64 * ref::is_neutral(c, want)), (u64)(e[a].val && e[a].p->base_bits != 0)}; cover(hash64(h, sizeof h));
  }
  check("end");
  for (int i = 0; i < N; i++) if (e[i].live) C(mpECP_clear(e[i].p));
  w.clear();
}
SCENARIO(P01_history) { history(false); }
SCENARIO(P02_scalars) { history(true); }
// the curves whose order is longer than their field, and the big named ones
SCENARIO(P02_named) {
  mem_random_cfg();
  int i; switch (choose(3)) { case 0: { std::vector<int> v; for (int k = 0; k < n_named; k++) if (ref::bitlen(ref::hex(all_named[k].n)) > ref::bitlen(ref::hex(all_named[k].p))) v.push_back(k); i = v[choose(v.size())]; break; } default: i = (int)choose(n_named); }
  ref::Curve c = ref_named(i); mpECurve_t cv; lib_curve_make(cv, c); ev("curve %s", c.name.c_str());
  mpECP_t P, R, S; C(mpECP_init(P, cv)); C(mpECP_init(R, cv)); C(mpECP_init(S, cv));
  Pt v = flip(1, 3) ? ref::gen(c) : ref::mul(c, ref::gen(c), Z((unsigned long)(1 + choose(1000)))); lib_set(P, cv, v);
  bool table = flip(1, 4);
  for (int k = 0; k < 3; k++) {
    Z sc = rand_int(c.n), m = ref::mod(sc, c.n); if (flip(1, 3)) { sc = c.n - 1 - (unsigned long)choose(4); m = sc; } MZ z(sc);
    doing("scalar multiplication of %s by %s on %s", show(v).c_str(), ref::str(sc).c_str(), c.name.c_str());
    Pt want = ref::mul(c, v, m); C(mpECP_scalar_mul_mpz(R, P, z)); expect_pt("wrong-point", R, c, want, "scalar_mul_mpz");
    if (table) { C(mpECP_scalar_base_mul_mpz(S, P, z)); expect_pt("wrong-point", S, c, want, "scalar_base_mul_mpz"); }
    step(); ev("scalar %s ok", ref::str(sc).c_str()); cover(hash64(c.name.data(), c.name.size(), m.get_ui()));
  }
  expect_pt("operand-changed", P, c, v, "operand"); lib_curve_expect(cv, c, "end");
  C(mpECP_clear(P)); C(mpECP_clear(R)); C(mpECP_clear(S)); C(mpECurve_clear(cv));
}
// ---------------------------------------------------------------- P03
SCENARIO(P03_channel) {
  mem_random_cfg(); live_safe_clean();
  World w; CurveReq q; q.maxbits = flip(1, 4) ? 521 : 200; std::vector<Pt> pts; w.add(pick_curve(q, &pts), pts);
  if (flip(1, 2)) w.add_copy(0); else w.add(w.rc[0], pts);
  const ref::Curve& c = w.rc[0];
  mpECP_t P, R; C(mpECP_init(P, w.cv[0])); C(mpECP_init(R, w.cv[1])); bool rset = false;
  int steps = 3 + (int)choose(20);
  for (int s = 0; s < steps; s++) {
    Pt v = rand_point(c, &pts); 
    if (flip(1, 2)) lib_set(P, w.cv[0], v); else { Pt t = rand_point(c, &pts), u = ref::sub(c, v, t); mpECP_t A; C(mpECP_init(A, w.cv[0])); lib_set(P, w.cv[0], t); lib_set(A, w.cv[0], u); C(mpECP_add(P, P, A)); C(mpECP_clear(A)); }   // projective
    int comp = (int)choose(2), text = (int)choose(2); doing("export of %s (compressed %d, text %d) on %s", show(v).c_str(), comp, text, show(c).c_str());
    std::string wire; size_t len = text ? C(mpECP_out_strlen(P, comp)) : C(mpECP_out_bytelen(P, comp));
    { size_t cap = len + (text ? 1 : 0); unsigned char* buf = (unsigned char*)C(malloc(cap)); // exact size: an overrun is noticed by the guard
      if (text) { C(mpECP_out_str((char*)buf, P, comp)); size_t l = strnlen((char*)buf, cap); if (l != len) violation("wrong-length", "text form of %s has %zu characters, announced %zu, on %s", show(v).c_str(), l, len, show(c).c_str()); } else C(mpECP_out_bytes(buf, P, comp));
      wire.assign((char*)buf, len); C(free(buf)); }
    expect_pt("operand-changed", P, c, v, "after export");
    if ((int)choose(4) == 0 && text) for (auto& ch : wire) if (choose(2)) ch = (char)tolower(ch);
    // deliver, perhaps damaged
    int damage = flip(1, 2); std::string got = wire, how;
    if (damage) switch (choose(text ? 9 : 7)) {
      case 0: case 1: case 2: case 3: got = corrupt(wire, &how); break;
      case 4: { size_t L = text ? 2 + 4 * c.blen() : 1 + 2 * c.blen(); got.assign(L, 0); for (auto& ch : got) ch = (char)(text ? "0123456789ABCDEF"[choose(16)] : choose(256)); if (text) { got[0] = '0'; got[1] = "2344"[choose(4)]; } else got[0] = "\2\3\4\4"[choose(4)]; how = "replaced by noise"; count("fault.message_replaced"); break; }
      case 5: { // a header of another kind
        int pre = (int)choose(8); if (text) { if (got.size() > 1) { got[0] = '0'; got[1] = '0' + pre; } } else got[0] = (char)pre; how = "prefix replaced"; count("fault.message_prefix"); break; }
      case 6: { // splice with the encoding of another point
        Pt u = rand_point(c, &pts); std::string o = ref::encode(c, u, comp); if (text) o = hexs(o); size_t k = choose(got.size() + 1); got = got.substr(0, k) + (o.size() > k ? o.substr(k) : ""); how = "spliced with another point"; count("fault.message_spliced"); break; }
      case 7: { size_t i = choose(got.size()); static const char junk[] = "GxXz -+.%\t~\x80\xff"; got[i] = junk[choose(sizeof junk - 1)]; how = "non-hex character"; count("fault.message_nonhex"); break; }
      default: { size_t i = choose(got.size() & ~1ull); i &= ~1ull; got[i] = " -+0xX"[choose(6)]; if (choose(2)) got[i + 1] = " -xXgG"[choose(6)]; how = "lax number syntax"; count("fault.message_nonhex"); }
    }
    if (text) { size_t z = got.find('\0'); if (z != std::string::npos) got.resize(z); }
    if (got == wire) damage = 0;
    doing("import of %s (%s; text %d) on %s", hexs(got).c_str(), how.c_str(), text, show(c).c_str());
    if (flip(1, 6) && rset && c.bits() < 40) C(mpECP_scalar_base_mul_setup(R));
    unsigned char* b = (unsigned char*)C(malloc(got.size() + (text ? 1 : 0))); memcpy(b, got.data(), got.size()); if (text) b[got.size()] = 0;
    int st = text ? C(mpECP_set_str(R, (char*)b, w.cv[1])) : C(mpECP_set_bytes(R, b, got.size(), w.cv[1]));
    if (memcmp(b, got.data(), got.size())) violation("operand-changed", "decoding changed the message"); C(free(b));
    ev("%s %s %zu bytes %s -> %d", text ? "text" : "bytes", comp ? "compressed" : "plain", got.size(), how.c_str(), st); step();
    if (!damage) {
      if (st != 0) violation("round-trip", "the encoding of %s was refused (text %d, compressed %d) on %s", show(v).c_str(), text, comp, show(c).c_str());
      expect_pt("round-trip", R, c, v, text ? "decoded text" : "decoded bytes");
    } else if (st == 0) {
      Pt g = lib_value(R, c); if (!ref::on_curve(c, g)) violation("off-curve", "a damaged encoding (%s: %s) was accepted as %s, which is not on %s", how.c_str(), text ? got.c_str() : hexs(got).c_str(), show(g).c_str(), show(c).c_str());
      count("probe.damaged_but_valid");
    } else { count("probe.damaged_refused"); if (flip(1, 4)) { C(mpECP_clear(R)); C(mpECP_init(R, w.cv[1])); rset = false; continue; } }
    if (st == 0) rset = true;
    // the receiving point stays usable
    if (st != 0 && flip(1, 2)) { Pt u = rand_point(c, &pts); lib_set(R, w.cv[1], u); expect_pt("unusable-after-failure", R, c, u, "reuse after a refused encoding"); rset = true; }
    u64 h[5] = {(u64)c.type, (u64)text, (u64)comp, (u64)(st != 0), hash64(how.data(), std::min<size_t>(how.size(), 6))}; cover(hash64(h, sizeof h));
  }
  w.check("end"); C(mpECP_clear(P)); C(mpECP_clear(R)); w.clear();
}
// ---------------------------------------------------------------- K01
SCENARIO(K01_exchange) {
  mem_random_cfg(); live_safe_clean();
  CurveReq q; q.maxbits = flip(1, 4) ? 256 : 130; std::vector<Pt> pts; ref::Curve c = pick_curve(q, &pts);
  bool big = c.bits() > 64; int n = 2 + (int)choose(big ? 2 : 4);
  struct Party { mpECurve_t cv; mpECP_t G; mpFp_t d; Z k; mpECP_t mine; Pt pub; std::map<int, Pt> got; };
  std::vector<Party> ps(n); MZ zn(c.n);
  for (auto& p : ps) {
    lib_curve_make(p.cv, c); C(mpECP_init(p.G, p.cv)); MZ gx(c.gx), gy(c.gy); C(mpECP_set_mpz(p.G, gx, gy, p.cv)); C(mpFp_init(p.d, zn)); C(mpECP_init(p.mine, p.cv));
    if (flip(1, 2)) { C(mpFp_urandom(p.d, zn)); p.k = lib_fp(p.d); } else { p.k = rand_below(c.n); MZ z(p.k); C(mpFp_set_mpz(p.d, z, zn)); }
    int m = (int)choose(big ? 2 : 3); doing("public key of %s on %s", ref::str(p.k).c_str(), show(c).c_str());
    if (m == 0) C(mpECP_scalar_mul(p.mine, p.G, p.d)); else if (m == 1) { MZ z(p.k); C(mpECP_scalar_mul_mpz(p.mine, p.G, z)); } else C(mpECP_scalar_base_mul(p.mine, p.G, p.d));
    p.pub = ref::mul(c, ref::gen(c), p.k);
    ev("party key %s", ref::str(p.k).c_str());
  }
  struct Msg { int from, to; std::string b; bool text, bad; };
  std::vector<Msg> net; std::map<std::pair<int, int>, std::string> secret;
  auto send = [&](int f, int t) {
    bool text = flip(1, 2); int comp = (int)choose(2); std::string b;
    if (text) { std::string s(C(mpECP_out_strlen(ps[f].mine, comp)) + 1, 0); C(mpECP_out_str(&s[0], ps[f].mine, comp)); s.resize(s.size() - 1); b = s; } else { b.resize(C(mpECP_out_bytelen(ps[f].mine, comp))); C(mpECP_out_bytes((unsigned char*)&b[0], ps[f].mine, comp)); }
    net.push_back({f, t, b, text, false}); ev("%d sends its point to %d (%s%s)", f, t, text ? "text" : "bytes", comp ? ", compressed" : "");
  };
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) send(i, j);
  int budget = (big ? 10 : 40), faults = (int)choose(10);
  while (!net.empty() && budget-- > 0) {
    size_t i = choose(net.size()); Msg m = net[i];
    int act = faults > 0 ? (int)choose_w({6, 1, 1, 1}) : 0; if (act) faults--;
    if (act == 1) { net.erase(net.begin() + i); ev("lost %d->%d", m.from, m.to); count("fault.message_lost"); send(m.from, m.to); continue; }
    if (act == 2) { net.push_back(m); ev("duplicated %d->%d", m.from, m.to); count("fault.message_duplicated"); continue; }
    net.erase(net.begin() + i); if (i) count("fault.message_reordered");
    if (act == 3) { std::string how, b = corrupt(m.b, &how); if (m.text) { size_t z = b.find('\0'); if (z != std::string::npos) b.resize(z); } if (b != m.b) { m.b = b; m.bad = true; ev("damaged %d->%d: %s", m.from, m.to, how.c_str()); } }
    Party& p = ps[m.to]; mpECP_t Q, S; C(mpECP_init(Q, p.cv)); C(mpECP_init(S, p.cv));
    doing("delivery of %s on %s", hexs(m.b).c_str(), show(c).c_str());
    int st = m.text ? C(mpECP_set_str(Q, (char*)m.b.c_str(), p.cv)) : C(mpECP_set_bytes(Q, (unsigned char*)&m.b[0], m.b.size(), p.cv));
    if (!m.bad && st) violation("refused", "an undamaged public point was refused on %s", show(c).c_str());
    if (st == 0) {
      Pt v = lib_value(Q, c); if (!ref::on_curve(c, v)) violation("off-curve", "a delivery yielded %s, not on %s", show(v).c_str(), show(c).c_str());
      int r = (int)choose(big ? 2 : 3); doing("shared secret of %s and %s on %s", show(v).c_str(), ref::str(p.k).c_str(), show(c).c_str());
      if (r == 0) C(mpECP_scalar_mul(S, Q, p.d)); else if (r == 1) { MZ z(p.k); C(mpECP_scalar_mul_mpz(S, Q, z)); } else C(mpECP_scalar_base_mul(S, Q, p.d));
      Pt sv = lib_value(S, c); if (!ref::on_curve(c, sv)) violation("off-curve", "a shared secret %s is not on %s", show(sv).c_str(), show(c).c_str());
      if (!m.bad) {
        std::string val = show(sv); auto key = std::make_pair(std::min(m.from, m.to), std::max(m.from, m.to));
        Pt want = ref::mul(c, ref::gen(c), ref::mod(ps[m.from].k * p.k, c.n));
        if (sv != want) violation("disagree", "parties %d and %d: %d computed %s, the agreed secret is %s (keys %s, %s) on %s", m.from, m.to, m.to, val.c_str(), show(want).c_str(), ref::str(ps[m.from].k).c_str(), ref::str(p.k).c_str(), show(c).c_str());
        secret[key] = val; ev("%d->%d secret %s", m.from, m.to, val.substr(0, 30).c_str());
      } else ev("%d->%d damaged delivery accepted as a valid point", m.from, m.to);
    } else ev("%d->%d refused", m.from, m.to);
    step(); C(mpECP_clear(Q)); C(mpECP_clear(S));
  }
  u64 h[3] = {(u64)c.type, (u64)n, (u64)secret.size()}; cover(hash64(h, sizeof h));
  for (auto& p : ps) { expect_pt("operand-changed", p.mine, c, p.pub, "own public point at the end"); if (lib_fp(p.d) != p.k) violation("operand-changed", "a private key changed"); lib_curve_expect(p.cv, c, "end"); C(mpECP_clear(p.G)); C(mpECP_clear(p.mine)); C(mpFp_clear(p.d)); C(mpECurve_clear(p.cv)); }
}
// ---------------------------------------------------------------- C01
// a curve with a group law defined everywhere
static bool proper(const ref::Curve& v) {
  const Z& p = v.p;
  switch (v.type) {
    case WS: return ref::mod(4 * v.u * v.u * v.u + 27 * v.v * v.v, p) != 0;
    case MO: return v.u != 0 && ref::mod(v.v * v.v - 4, p) != 0;
    case ED: return ref::mod(v.u, p) != 0 && ref::legendre(v.v * v.u * v.u * v.u * v.u, p) == -1;
    default: return ref::legendre(v.u, p) == 1 && ref::legendre(v.v, p) == -1;
  }
}
SCENARIO(C01_objects) {
  mem_random_cfg(); live_safe_clean();
  const int N = 4; struct E { mpECurve_t c; bool live = false, val = false; ref::Curve r; } e[N];
  std::vector<ref::Curve> kinds; std::vector<std::vector<Pt>> kpts; int nk = 2 + (int)choose(2);
  for (int i = 0; i < nk; i++) { CurveReq q; q.maxbits = flip(1, 2) ? 521 : 130; std::vector<Pt> pts; if (flip(1, 3)) { int k = (int)choose(n_named); kinds.push_back(ref_named(k)); ev("curve %s", kinds.back().name.c_str()); } else kinds.push_back(pick_curve(q, &pts)); kpts.push_back(pts); }
  // near twins of the first kind: one parameter differs
  for (int t = 0; t < 2; t++) { ref::Curve v = kinds[choose(nk)]; v.name = ""; switch (choose(6)) { case 0: v.n = v.n + 2; break; case 1: v.h = v.h + 2; break; case 4: { static const int e[] = {8, 16, 31, 32, 33, 63, 64, 65, 128}; v.h = v.h + (Z((unsigned long)(1 + choose(3))) << e[choose(9)]); break; } case 5: { static const int e[] = {8, 16, 32, 63, 64, 65, 128}; v.n = v.n + (Z(2) << e[choose(7)]); break; } case 2: { Pt g = ref::add(v, ref::gen(v), ref::gen(v)); if (g.inf) continue; v.gx = g.x; v.gy = g.y; break; } default: { Pt g = ref::neg(v, ref::gen(v)); v.gx = g.x; v.gy = g.y; } } if (flip(1, 2)) { kinds.push_back(v); kpts.push_back({}); } }
  // coefficient twins: same field and one coefficient in common, the other differs
  for (int t = 0; t < 2; t++) {
    const ref::Curve& o = kinds[choose(nk)]; if (!flip(1, 2)) continue;
    for (int tries = 0; tries < 30; tries++) {
      ref::Curve v = o; v.name = ""; Z x = rand_below(v.p), y = rand_below(v.p), i1, i2; bool first = flip(1, 2); const Z& p = v.p; Z xx = x * x, yy = y * y; if (x == 0 || y == 0) continue;
      auto iv = [&](Z a) { return ref::mod(a, p) == 0 ? Z(0) : ref::invz(ref::mod(a, p), p); };
      switch (v.type) {
        case WS: if (first) v.v = yy - xx * x - v.u * x; else v.u = (yy - xx * x - v.v) * iv(x); break;
        case MO: if (first) v.v = (v.u * yy - xx * x - x) * iv(xx); else v.u = (xx * x + v.v * xx + x) * iv(yy); break;
        case ED: v.v = ((xx + yy) * iv(v.u * v.u) - 1) * iv(xx * yy); break;
        default: if (first) v.v = (v.u * xx + yy - 1) * iv(xx * yy); else v.u = (1 + v.v * xx * yy - yy) * iv(xx);
      }
      if (mpz_odd_p(v.h.get_mpz_t())) v.h = v.h + 1; v.u = ref::mod(v.u, p); v.v = ref::mod(v.v, p); v.gx = x; v.gy = y; bool ok = false; if (v.u == o.u && v.v == o.v) continue;
      ok = proper(v);
      if (!ok || !ref::on_curve(v, ref::gen(v))) continue;
      kinds.push_back(v); kpts.push_back({}); count("probe.coefficient_twin"); ev("twin %s", show(v).c_str()); break;
    }
  }
  // twins that share the generator: the coefficients differ; with a generator at x = 0 (short Weierstrass) only the first one does
  if (flip(1, 2)) {
    ref::Curve o = kinds[choose(nk)]; o.name = ""; const Z p = o.p; auto iv = [&](Z a) { return ref::mod(a, p) == 0 ? Z(0) : ref::invz(ref::mod(a, p), p); };
    bool changed = mpz_odd_p(o.h.get_mpz_t()); if (changed) o.h = o.h + 1;
    if (o.type == WS && flip(2, 3)) { Z y = rand_below(p); o.gx = 0; o.gy = y; o.v = ref::mod(y * y, p); changed = true; if (!proper(o)) o.gy = 0; }
    if (changed && o.gy != 0) { kinds.push_back(o); kpts.push_back({}); }
    if (o.gy != 0) for (int tries = 0; tries < 20; tries++) {
      ref::Curve v = o; v.u = rand_below(p); Z x = o.gx, y = o.gy, xx = x * x, yy = y * y;
      switch (v.type) { case WS: v.v = yy - xx * x - v.u * x; break; case MO: v.v = (v.u * yy - xx * x - x) * iv(xx); break; case ED: v.v = ((xx + yy) * iv(v.u * v.u) - 1) * iv(xx * yy); break; default: v.v = (v.u * xx + yy - 1) * iv(xx * yy); }
      v.v = ref::mod(v.v, p); if (v.u == o.u || !proper(v) || !ref::on_curve(v, ref::gen(v))) continue;
      kinds.push_back(v); kpts.push_back({}); count("probe.generator_twin"); ev("twin with the same generator %s", show(v).c_str()); break;
    }
  }
  auto eq = [](const ref::Curve& x, const ref::Curve& y) { return x.type == y.type && x.p == y.p && x.u == y.u && x.v == y.v && x.n == y.n && x.h == y.h && x.gx == y.gx && x.gy == y.gy; };
  auto check = [&](const char* w) { for (int i = 0; i < N; i++) if (e[i].val) lib_curve_expect(e[i].c, e[i].r, w); };
  struct PP { mpECP_t p; bool live = false; int cv = -1; Pt v; } pt[3];
  auto drop_pts = [&](int cv) { for (auto& p : pt) if (p.live && p.cv == cv) { C(mpECP_clear(p.p)); p.live = false; } };
  int steps = 4 + (int)choose(25);
  for (int s = 0; s < steps; s++) {
    int i = (int)choose(N), j = (int)choose(N); int k = (int)choose_w({6, 4, 4, 2, 4, 3, 5, 2, 1});
    if (!e[i].live) { C(mpECurve_init(e[i].c)); e[i].live = true; e[i].val = false; }
    step();
    switch (k) {
      case 0: { drop_pts(i); int t = (int)choose(kinds.size()); doing("define %s", show(kinds[t]).c_str()); lib_curve_make(e[i].c, kinds[t], false); e[i].r = kinds[t]; e[i].val = true; ev("%d := kind %d", i, t); break; }
      case 1: if (!e[j].val || i == j) break; drop_pts(i); doing("copy %s over %s", show(e[j].r).c_str(), e[i].val ? show(e[i].r).c_str() : "nothing"); C(mpECurve_set(e[i].c, e[j].c)); e[i].r = e[j].r; e[i].val = true; ev("%d := %d", i, j); break;
      case 2: if (e[i].val && e[j].val) { int z = C(mpECurve_cmp(e[i].c, e[j].c)); bool q = i == j || eq(e[i].r, e[j].r); ev("cmp %d %d -> %d", i, j, z != 0); if ((z == 0) != q) violation("wrong-compare", "mpECurve_cmp says %s for %s and %s", z == 0 ? "equal" : "different", show(e[i].r).c_str(), show(e[j].r).c_str()); count(q ? "probe.equal_curves" : "probe.different_curves"); } break;
      case 3: drop_pts(i); C(mpECurve_clear(e[i].c)); e[i].live = e[i].val = false; ev("clear %d", i); break;
      case 4: { // a definition whose generator is off the curve must be refused, others not
        drop_pts(i); ref::Curve r = kinds[choose(kinds.size())]; r.name = ""; Z d = rand_below(r.p); if (flip(1, 2)) r.gx = ref::mod(r.gx + d, r.p); else r.gy = ref::mod(r.gy + d, r.p); if (flip(1, 4)) r.u = ref::mod(r.u + 1, r.p); if (r.type == MO && r.u == 0) break;
        bool on = ref::on_curve(r, ref::gen(r)); unsigned bits = r.bits(); int st; doing("define %s (generator %s the curve)", show(r).c_str(), on ? "on" : "off");
        MZ p(r.p), u(r.u), v(r.v), n(r.n), h(r.h), gx(r.gx), gy(r.gy);
        switch (r.type) { case WS: st = C(mpECurve_set_mpz_ws(e[i].c, p, u, v, n, h, gx, gy, bits)); break; case ED: st = C(mpECurve_set_mpz_ed(e[i].c, p, u, v, n, h, gx, gy, bits)); break; case MO: st = C(mpECurve_set_mpz_mo(e[i].c, p, u, v, n, h, gx, gy, bits)); break; default: st = C(mpECurve_set_mpz_te(e[i].c, p, u, v, n, h, gx, gy, bits)); }
        ev("define generator %s: %d", on ? "on" : "off", st != 0); if ((st == 0) != on) violation("wrong-status", "defining %s returned %d, the generator is %s the curve", show(r).c_str(), st, on ? "on" : "off");
        count(on ? "probe.define_ok" : "probe.define_refused"); e[i].val = on; if (on) e[i].r = r;
        if (on && !proper(r)) { C(mpECurve_clear(e[i].c)); e[i].live = e[i].val = false; break; }   // no group, nothing to calculate with
        if (!on && flip(1, 2)) { C(mpECurve_clear(e[i].c)); e[i].live = false; } break; }
      case 5: if (e[i].val) { // point_check agrees with the equation
        Pt v = rand_point(e[i].r, 0); if (v.inf) break; if (flip(1, 2)) v.x = rand_int(e[i].r.p); MZ x(v.x), y(v.y); Pt m = ref::mk(ref::mod(v.x, e[i].r.p), ref::mod(v.y, e[i].r.p)); int z = C(mpECurve_point_check(e[i].c, x, y)); bool on = ref::on_curve(e[i].r, m); ev("point_check %d", z != 0); if ((z != 0) != on) violation("wrong-status", "mpECurve_point_check(%s) = %d on %s", show(v).c_str(), z, show(e[i].r).c_str()); } break;
      case 6: { // points that live on the curve objects; results cross between objects
        int a = (int)choose(3), b = (int)choose(3); if (!e[i].val) break;
        if (!pt[a].live) { C(mpECP_init(pt[a].p, e[i].c)); Pt v = rand_point(e[i].r, 0); lib_set(pt[a].p, e[i].c, v); pt[a].live = true; pt[a].cv = i; pt[a].v = v; ev("point %d on %d", a, i); break; }
        const ref::Curve& r = e[pt[a].cv].r; doing("point arithmetic on %s", show(r).c_str()); if (!pt[b].live) { C(mpECP_init(pt[b].p, e[i].c)); pt[b].live = true; }
        C(mpECP_add(pt[b].p, pt[a].p, pt[a].p)); pt[b].v = ref::add(r, pt[a].v, pt[a].v); pt[b].cv = pt[a].cv; ev("point %d := 2*%d", b, a); break; }
      case 7: { std::string nm = flip(1, 2) ? "no-such-curve" : std::string(all_named[choose(n_named)].name).substr(1); bool known = false; for (int t = 0; t < n_named; t++) known |= nm == all_named[t].name; if (known) break; doing("set_named %s", nm.c_str()); int st = C(mpECurve_set_named(e[i].c, (char*)nm.c_str())); if (st == 0) violation("wrong-status", "the unknown curve name %s was accepted", nm.c_str()); ev("unknown name refused"); break; }
      default: { char** l = C(_mpECurve_list_standard_curves()); int cnt = 0; for (char** x = l; *x; x++, cnt++) { bool f = false; for (int t = 0; t < n_named; t++) f |= !strcmp(*x, all_named[t].name); if (!f) ev("extra curve %s", *x); C(free(*x)); } C(free(l)); for (int t = 0; t < 1; t++) if (cnt < n_named) violation("named-curve", "the list of standard curves has %d names, %d are published", cnt, n_named); ev("list %d", cnt); }
    }
    if (k <= 1 && e[i].val && flip(1, 2)) {   // a curve object just written takes part in arithmetic
      mpECP_t P, R; const ref::Curve& r = e[i].r; Pt a = rand_point(r, 0), b = flip(1, 2) ? a : rand_point(r, 0), want = ref::add(r, a, b); doing("%s + %s on %s", show(a).c_str(), show(b).c_str(), show(r).c_str());
      C(mpECP_init(P, e[i].c)); C(mpECP_init(R, e[i].c)); lib_set(P, e[i].c, a); lib_set(R, e[i].c, b); C(mpECP_add(R, R, P)); expect_pt("wrong-arithmetic", R, r, want, "sum on a curve object just written"); C(mpECP_clear(P)); C(mpECP_clear(R)); count("probe.arithmetic_on_written");
    }
    check("after an operation on another object");
    for (auto& p : pt) if (p.live) expect_pt("point-changed", p.p, e[p.cv].r, p.v, "a point after operations on other objects");
    u64 h[3] = {(u64)k, (u64)(e[i].val ? e[i].r.type : 9), (u64)(e[j].val ? e[j].r.type : 9)}; cover(hash64(h, sizeof h));
  }
  for (auto& p : pt) if (p.live) C(mpECP_clear(p.p));
  for (int i = 0; i < N; i++) if (e[i].live) C(mpECurve_clear(e[i].c));
}
SCENARIO(C01_named) {   // every published curve, one per run index in turn
  mem_random_cfg(); int k = (int)choose(n_named); ref::Curve r = ref_named(k); mpECurve_t a, b; C(mpECurve_init(a)); ev("curve %s", r.name.c_str());
  doing("set_named %s", r.name.c_str()); int st = C(mpECurve_set_named(a, (char*)r.name.c_str())); if (st) violation("named-curve", "the published curve %s is unknown", r.name.c_str());
  lib_curve_expect(a, r, "named curve"); ref::Curve r2 = r; r2.name = ""; lib_curve_make(b, r2); if (C(mpECurve_cmp(a, b)) != 0) violation("named-curve", "%s differs from the published parameters", r.name.c_str());
  int j = (int)choose(n_named); ref::Curve o = ref_named(j); mpECurve_t c; lib_curve_make(c, o); bool same = o.type == r.type && o.p == r.p && o.u == r.u && o.v == r.v && o.n == r.n && o.gx == r.gx && o.gy == r.gy; if ((C(mpECurve_cmp(a, c)) == 0) != same) violation("wrong-compare", "%s and %s compare %s", r.name.c_str(), o.name.c_str(), same ? "different" : "equal");
  cover(hash64(r.name.data(), r.name.size(), j)); step(3);
  mpECP_t G, R; C(mpECP_init(G, a)); C(mpECP_init(R, a)); MZ gx(r.gx), gy(r.gy), n1(r.n - 1); C(mpECP_set_mpz(G, gx, gy, a)); C(mpECP_scalar_mul_mpz(R, G, n1)); expect_pt("named-curve", R, r, ref::neg(r, ref::gen(r)), "(n-1)G"); C(mpECP_clear(G)); C(mpECP_clear(R));
  C(mpECurve_clear(a)); C(mpECurve_clear(b)); C(mpECurve_clear(c));
}
