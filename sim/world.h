// Shared vocabulary of the scenarios: curves (named, tiny, supersingular), library handles, channel, hash.
#pragma once
#include "ref.h"
using namespace sim;
using ref::Z; using ref::Pt; using ref::WS; using ref::ED; using ref::MO; using ref::TE;
struct NamedCurve { int type; const char *name, *p, *u, *v, *n, *h, *gx, *gy; };
struct SsSize { int bits; const char *p, *n; int h; };
extern const NamedCurve* const all_named; extern const int n_named;
extern const SsSize* const all_ss; extern const int n_ss;

// ---- choosing
Z rand_below(const Z& n);                 // biased: 0, 1, n-1, small, power of two, uniform
Z rand_int(const Z& n);                   // any integer around n: negative, >= n, huge
ref::Curve ref_named(int i);
ref::Curve ref_tiny(int type, std::vector<Pt>* pts);   // brute-force counted, subgroup of prime order
ref::Curve ref_ss(int type, int maxbits);              // supersingular, any size
struct CurveReq { int maxbits = 130; bool named = true, tiny = true; int only_type = -1; bool h1_only = false; long minn = 5; };
ref::Curve pick_curve(const CurveReq& q, std::vector<Pt>* pts = 0);
Pt rand_point(const ref::Curve& c, const std::vector<Pt>* pts);  // whole group incl. small order
Pt rand_sub_point(const ref::Curve& c);                          // multiple of the generator
const char* type_name(int t);
std::string show(const Pt& p);
std::string show(const ref::Curve& c);

// ---- library handles
struct LCurve { mpECurve_t c; ref::Curve r; bool live = false; };
void lib_curve_make(mpECurve_t c, const ref::Curve& r, bool fresh_init = true);  // mpECurve_set_* by a drawn route
void lib_curve_expect(mpECurve_t c, const ref::Curve& r, const char* who);       // still says r
Pt lib_value(mpECP_t p, const ref::Curve& c);            // through the affine getters, on a copy
void lib_set(mpECP_t p, mpECurve_t cv, const Pt& v);     // p initialised
void expect_pt(const char* cls, mpECP_t p, const ref::Curve& c, const Pt& want, const char* what);
Z lib_fp(mpFp_t a);
struct MZ { mpz_t z; MZ() { mpz_init(z); } MZ(const Z& a) { mpz_init_set(z, a.get_mpz_t()); } ~MZ() { mpz_clear(z); } MZ(const MZ&) = delete; operator mpz_ptr() { return z; } Z get() const { return Z(z); } };

// ---- hash functions for the signature scheme (deterministic, various lengths)
void pick_hash(mpECDSAHashfunc_t H, int* idx); int n_hashes();
void hash_ref(int idx, const uint8_t* m, size_t n, uint8_t* out); size_t hash_size(int idx);
mpECDSAHashfunc_ptr hash_handle(int idx);
Z hash_e(const ref::Curve& c, int idx, const std::string& msg);

// ---- a lossy channel
std::string corrupt(const std::string& s, std::string* how);    // a damaged copy, never equal to s
std::string rand_msg(size_t maxlen, bool nonempty);
std::string rand_msg_any(size_t maxlen);   // sometimes long
std::string hexs(const std::string& s);
