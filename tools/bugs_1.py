PRE = r'''#include <ecc.h>
#include <gmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <sys/wait.h>
#include <sys/mman.h>
//INCLUDES
#define FAIL(...) do { printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
static void badhash(unsigned char *h, unsigned char *m, size_t n) { unsigned long long a = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { a ^= m[i]; a *= 1099511628211ull; } for (int i = 0; i < 32; i++) { a ^= a >> 29; a *= 0xbf58476d1ce4e5b9ull; h[i] = a >> 56; } }
'''
# the demo answers reads of the random device itself
DEV = r'''
static unsigned char dev_q[65536]; static size_t dev_n, dev_p, dev_short; static int dev_on;
size_t fread(void *p, size_t s, size_t n, FILE *f) { size_t t = s * n, i; unsigned char *b = p; unsigned x = 12345 + dev_p;
  if (!dev_on) { ssize_t r = read(fileno(f), p, t); return r < 0 ? 0 : r / s; }
  if (dev_short && dev_short < t) { t = dev_short; }
  for (i = 0; i < t; i++) { b[i] = dev_p < dev_n ? dev_q[dev_p] : (x = x * 1103515245 + 12345, x >> 16); dev_p++; }
  return t / s; }
static void dev_put(mpz_t v, int bytes) { unsigned char *q = dev_q + dev_n; memset(q, 0, bytes); size_t c; unsigned char t[4096]; mpz_export(t, &c, 1, 1, 1, 0, v); memcpy(q + bytes - c, t, c); dev_n += bytes; }
'''
BUGS = [
dict(id='R01-shared-scratch', prop='R01', inc='', needs='two threads drawing random values at the same time, one preempted between reading the device and importing the value',
  breaks='the bytes read from the device go through a scratch buffer shared by all threads, so two threads can make the same nonce or key from them',
  edits=[('src/mpzurandom.c', '    int bytes, sz_read;\n    char *buffer;\n', '    static char scratch[512];\n    int bytes, sz_read;\n    char *buffer;\n'),
         ('src/mpzurandom.c', '    buffer = (char *)malloc((bytes) * sizeof(char));\n', '    // avoid the allocation for all but the largest values\n    buffer = (bytes <= (int)sizeof(scratch)) ? scratch : (char *)malloc((bytes) * sizeof(char));\n'),
         ('src/mpzurandom.c', '    free(buffer);\n', '    if (buffer != scratch) free(buffer);\n')],
  demo=r'''
#define N 60000
#define T 8
static mpz_t max; static unsigned long long v[T][N]; static int go;
static void *th(void *a) { long t = (long)a; mpz_t r; mpz_init(r); while (!__atomic_load_n(&go, __ATOMIC_ACQUIRE)); for (int i = 0; i < N; i++) { mpz_urandom(r, max); v[t][i] = mpz_get_ui(r); } return 0; }
static int cmp(const void *a, const void *b) { unsigned long long x = *(unsigned long long *)a, y = *(unsigned long long *)b; return x < y ? -1 : x > y; }
int main(void) { mpz_init(max); mpz_set_ui(max, 1); mpz_mul_2exp(max, max, 64); mpz_t w; mpz_init(w); mpz_urandom(w, max);
  for (int round = 0; round < 10; round++) { pthread_t p[T]; go = 0; for (long t = 0; t < T; t++) pthread_create(&p[t], 0, th, (void *)t); __atomic_store_n(&go, 1, __ATOMIC_RELEASE); for (int t = 0; t < T; t++) pthread_join(p[t], 0);
    qsort(v, T * N, 8, cmp); unsigned long long *q = &v[0][0]; for (long i = 1; i < T * N; i++) if (q[i] == q[i - 1] && q[i]) FAIL("the same random value was drawn twice"); }
  return 0; }
'''),
dict(id='R01-fork-pool', prop='R01', needs='a draw, then fork(), then draws in parent and child',
  breaks='random bytes are read ahead into a pool which a forked child inherits, so both processes draw the same values',
  edits=[('src/mpzurandom.c', '    int bytes, sz_read;\n', '    static __thread unsigned char pool[256];\n    static __thread int pool_left = 0;\n    int bytes, sz_read;\n'),
         ('src/mpzurandom.c', '    sz_read = fread(buffer, sizeof(char), bytes, f_urandom);\n    assert(sz_read == bytes);\n',
          '    if (bytes <= (int)sizeof(pool)) {\n        // one system call for several values\n        if (pool_left < bytes) {\n            sz_read = fread(pool, sizeof(char), sizeof(pool), f_urandom);\n            assert(sz_read == sizeof(pool));\n            pool_left = sizeof(pool);\n        }\n        pool_left -= bytes;\n        memcpy(buffer, pool + pool_left, bytes);\n        _safe_clean_memzero(pool + pool_left, bytes);\n        sz_read = bytes;\n    } else {\n        sz_read = fread(buffer, sizeof(char), bytes, f_urandom);\n        assert(sz_read == bytes);\n    }\n'),
         ('src/mpzurandom.c', '#include <stdlib.h>\n', '#include <stdlib.h>\n#include <string.h>\n')],
  demo=r'''
int main(void) { mpz_t max, r; mpz_init(max); mpz_init(r); mpz_set_ui(max, 1); mpz_mul_2exp(max, max, 64); mpz_urandom(r, max);
  int p[2]; pipe(p); pid_t c = fork(); mpz_urandom(r, max); unsigned long long v = mpz_get_ui(r), w = 0;
  if (c == 0) { write(p[1], &v, 8); _exit(0); } read(p[0], &w, 8); waitpid(c, 0, 0); if (v == w) FAIL("parent and child drew the same value"); return 0; }
'''),
dict(id='R02-short-read', prop='R02', inc=DEV, needs='a read of the random device that delivers fewer bytes than asked for',
  breaks='a short read is taken for success: the value is made from the few bytes that were delivered',
  edits=[('src/mpzurandom.c', '    assert(sz_read == bytes);\n', '    assert(sz_read > 0);\n')],
  demo=r'''
int main(void) { mpz_t max, r; mpz_init(max); mpz_init(r); mpz_set_ui(max, 1); mpz_mul_2exp(max, max, 256); dev_on = 1; dev_short = 3; int *ok = mmap(0, 4096, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0); close(2);
  pid_t c = fork(); if (!c) { alarm(5); mpz_urandom(r, max); if (dev_p && mpz_sizeinbase(r, 2) <= 24) *ok = 1; _exit(0); } waitpid(c, 0, 0); if (*ok) FAIL("a value made from 3 bytes was returned"); return 0; }
'''),
dict(id='R03-zero-s', prop='R03', inc=DEV, needs='a nonce for which s becomes zero, i.e. e + r*d = 0 mod n',
  breaks='the redraw when s is zero is gone, an invalid signature with s = 0 is released',
  edits=[('src/ecdsa.c', '    if (__GMP_UNLIKELY(mpFp_cmp_ui(s_n, 0) == 0)) goto new_random;\n', '')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECDSAHashfunc_t H; H->dohash = badhash; H->hsz = 32; mpECDSASignatureScheme_t S; mpECDSASignatureScheme_init(S, cv, H);
  unsigned char h[32]; badhash(h, "abc", 3); mpz_t e, r, k, d; mpz_inits(e, r, k, d, NULL); mpz_import(e, 32, 1, 1, 1, 0, h); mpECP_t G; mpECP_init(G, cv); mpz_set_ui(k, 12345); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_scalar_mul_mpz(G, G, k); mpz_set_mpECP_affine_x(r, G);
  mpz_invert(d, r, cv->n); mpz_mul(d, d, e); mpz_neg(d, d); mpz_mod(d, d, cv->n); mpFp_t D; mpFp_init(D, cv->n); mpFp_set_mpz(D, d, cv->n);
  dev_on = 1; dev_put(k, 64); mpECDSASignature_t sg; if (mpECDSASignature_init_Sign(sg, S, D, "abc", 3)) return 0; if (mpFp_cmp_ui(sg->s, 0) == 0) FAIL("signature with s = 0"); return 0; }
'''),
dict(id='R03-zero-ephemeral', prop='R03', inc=DEV, needs='the device delivers bytes that make the ephemeral zero',
  breaks='the test for a zero ephemeral looks at the size of the number, which is never zero for field elements: the ciphertext contains the plaintext point',
  edits=[('src/ecelgamal.c', '    } while (mpFp_cmp_ui(k, 0) == 0);\n', '    } while (k->i->_mp_size == 0);\n')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECP_t G, P; mpECP_init(G, cv); mpECP_init(P, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_add(P, G, G); mpz_t z; mpz_init(z); dev_on = 1; dev_put(z, 64); dev_put(z, 64); mpECElgamalCiphertext_t c; mpECElgamal_init_encrypt(c, P, G);
  if (mpECP_cmp(c->D, G) == 0) FAIL("the ciphertext is the plaintext"); return 0; }
'''),
dict(id='D02-long-message', prop='D02', needs='a message of 65536 bytes or more that is altered beyond its 16 bit length',
  breaks='signing and verifying pass the length on as 16 bits, so different long messages have the same signature',
  edits=[('src/ecdsa.c', 'int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t sscheme, mpFp_t sK, unsigned char *msg, size_t sz) {\n', 'static void _hash_msg(mpECDSAHashfunc_t H, unsigned char *hash, unsigned char *msg, size_t sz) {\n    unsigned short len;\n\n    len = sz;\n    H->dohash(hash, msg, (len == sz) ? sz : len);\n    return;\n}\n\nint mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t sscheme, mpFp_t sK, unsigned char *msg, size_t sz) {\n'),
         ('src/ecdsa.c', '    sscheme->H->dohash(hash, msg, sz);\n    if (sscheme->nsz', '    _hash_msg(sscheme->H, hash, msg, sz);\n    if (sscheme->nsz'),
         ('src/ecdsa.c', '    sig->sscheme->H->dohash(hash, msg, sz);\n', '    _hash_msg(sig->sscheme->H, hash, msg, sz);\n')],
  demo=r'''
static unsigned char m[70000];
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECDSAHashfunc_t H; H->dohash = badhash; H->hsz = 32; mpECDSASignatureScheme_t S; mpECDSASignatureScheme_init(S, cv, H); mpFp_t D; mpFp_init(D, cv->n); mpFp_set_ui(D, 77, cv->n); mpECP_t P; mpECP_init(P, cv); mpECP_scalar_base_mul(P, S->cv_G, D);
  for (size_t i = 0; i < sizeof m; i++) m[i] = i * 7 + (i >> 8); mpECDSASignature_t sg; mpECDSASignature_init_Sign(sg, S, D, m, sizeof m); if (mpECDSASignature_verify_cmp(sg, P, m, sizeof m)) FAIL("genuine message refused"); m[69000] ^= 1; if (mpECDSASignature_verify_cmp(sg, P, m, sizeof m) == 0) FAIL("altered message accepted"); return 0; }
'''),
dict(id='D03-range', prop='D03', needs='an encoding whose r or s equals the order exactly', breaks='a component equal to the order is accepted and becomes zero',
  edits=[('src/ecdsa.c', '(mpz_cmp(r, sscheme->cvp->n) >= 0) || (mpz_cmp(s, sscheme->cvp->n) >= 0)', '(mpz_cmp(r, sscheme->cvp->n) > 0) || (mpz_cmp(s, sscheme->cvp->n) > 0)')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECDSAHashfunc_t H; H->dohash = badhash; H->hsz = 32; mpECDSASignatureScheme_t S; mpECDSASignatureScheme_init(S, cv, H); unsigned char b[64] = {0}; size_t c; mpz_export(b, &c, 1, 1, 1, 0, cv->n); b[63] = 1; mpECDSASignature_t sg;
  if (mpECDSASignature_init_import_bytes(sg, S, b, 64) == 0) FAIL("r = n accepted"); return 0; }
'''),
dict(id='D03-two-zero-bytes', prop='D03', needs='a signature one of whose components has two or more leading zero bytes', breaks='only the first padding byte is cleared: the export of such a signature carries stale bytes',
  edits=[('src/ecdsa.c', '    for (i = shift - 1; i >= 0; i--) {\n        buffer[i] = 0;\n    }\n', '    if (shift > 0) {\n        buffer[0] = 0;\n    }\n')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECDSAHashfunc_t H; H->dohash = badhash; H->hsz = 32; mpECDSASignatureScheme_t S; mpECDSASignatureScheme_init(S, cv, H); unsigned char b[64] = {0}; b[30] = 5; b[31] = 6; b[33] = 9; b[63] = 1; mpECDSASignature_t sg; size_t c;
  if (mpECDSASignature_init_import_bytes(sg, S, b, 64)) FAIL("refused"); unsigned char *q; for (int i = 0; i < 40; i++) { void *x = malloc(64); memset(x, 0xAA, 64); free(x); q = mpECDSASignature_export_bytes(sg, &c); if (c != 64 || memcmp(q, b, 64)) FAIL("export differs"); free(q); } return 0; }
'''),
dict(id='E01-generator-cache', prop='E01', needs='encrypting on one curve object, redefining the same object as another curve over the same field, and encrypting again', breaks='the generator is kept from the first use of the curve object: C is on the old curve or a multiple of the old generator',
  edits=[('src/ecelgamal.c', '    mpECP_set_mpz(ctxt->C, pK->cvp->G[0], pK->cvp->G[1], pK->cvp);\n    mpECP_scalar_mul(ctxt->C, ctxt->C, k);\n',
          '    // converting the generator is only needed when the curve changes\n    if (_gen_cv != pK->cvp) {\n        mpz_set(_gen_x, pK->cvp->G[0]);\n        mpz_set(_gen_y, pK->cvp->G[1]);\n        _gen_cv = pK->cvp;\n    }\n    mpECP_set_mpz(ctxt->C, _gen_x, _gen_y, pK->cvp);\n    mpECP_scalar_mul(ctxt->C, ctxt->C, k);\n'),
         ('src/ecelgamal.c', '    mpFp_t k;\n    if (mpECurve_cmp(pK->cvp, ptxt->cvp) != 0) {\n', '    static __thread mpz_t _gen_x, _gen_y;\n    static __thread mpECurve_ptr _gen_cv = NULL;\n    mpFp_t k;\n    if (mpECurve_cmp(pK->cvp, ptxt->cvp) != 0) {\n')],
  demo=r'''
int main(void) { mpECurve_t cv, c1, c2; mpECurve_init(cv); mpECurve_init(c1); mpECurve_init(c2); mpECurve_set_named(c1, "secp256k1"); mpECurve_set_named(c2, "secp256r1");
  for (int i = 0; i < 4; i++) { mpECurve_set(cv, i & 1 ? c2 : c1); mpECP_t G, P, Q, O; mpECP_init(G, cv); mpECP_init(P, cv); mpECP_init(Q, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpFp_t d; mpFp_init(d, cv->n); mpFp_set_ui(d, 1234567, cv->n); mpECP_scalar_mul(P, G, d); mpECP_double(Q, G); mpECElgamalCiphertext_t c; if (mpECElgamal_init_encrypt(c, P, Q)) FAIL("encrypt"); mpz_t x, y; mpz_inits(x, y, NULL); mpz_set_mpECP_affine_x(x, c->C); mpz_set_mpECP_affine_y(y, c->C); if (!mpECurve_point_check(cv, x, y)) FAIL("C is not on the curve"); if (mpECElgamal_init_decrypt(O, d, c)) FAIL("decrypt"); if (mpECP_cmp(O, Q)) FAIL("decrypts to another point"); }
  return 0; }
'''),
dict(id='P02-swap-tables', prop='P02', needs='swapping a point that has a base point table with another, then multiplying either with the table routine', breaks='the table stays with the object instead of moving with the value',
  edits=[('src/ecpoint.c', '    t = pt2->base_bits;\n    pt2->base_bits = pt1->base_bits;\n    pt1->base_bits = t;\n    t_base_pt = pt2->base_pt;\n    pt2->base_pt = pt1->base_pt;\n    pt1->base_pt = t_base_pt;\n', ''), ('src/ecpoint.c', '    int t;\n    struct _p_mpECP_t *t_base_pt;\n', '    int t;\n')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECP_t G, P, R, Q; mpECP_init(G, cv); mpECP_init(P, cv); mpECP_init(R, cv); mpECP_init(Q, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_double(P, G); mpECP_scalar_base_mul_setup(G); mpECP_swap(G, P); mpz_t k; mpz_init_set_ui(k, 987654321); mpECP_scalar_base_mul_mpz(R, G, k); mpECP_scalar_mul_mpz(Q, G, k); if (mpECP_cmp(R, Q)) FAIL("stale table used"); return 0; }
'''),
dict(id='P02-stale-table', prop='P02', needs='a point with a table is overwritten by a value given as coordinates, then used with the table routine', breaks='assigning coordinates keeps the table of the former value',
  edits=[('src/ecpoint.c', 'void mpECP_set_mpz(mpECP_t rpt, mpz_t x, mpz_t y, mpECurve_t cv) {\n    if (rpt->base_bits != 0) _mpECP_base_pts_cleanup(rpt);\n', 'void mpECP_set_mpz(mpECP_t rpt, mpz_t x, mpz_t y, mpECurve_t cv) {\n    if ((rpt->base_bits != 0) && (mpECurve_cmp(rpt->cvp, cv) != 0)) _mpECP_base_pts_cleanup(rpt);\n')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECP_t G, P, R, Q; mpECP_init(G, cv); mpECP_init(P, cv); mpECP_init(R, cv); mpECP_init(Q, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_scalar_base_mul_setup(G); mpECP_double(P, G); mpz_t x, y, k; mpz_inits(x, y, NULL); mpz_set_mpECP_affine_x(x, P); mpz_set_mpECP_affine_y(y, P); mpECP_set_mpz(G, x, y, cv); mpz_init_set_ui(k, 987654321); mpECP_scalar_base_mul_mpz(R, G, k); mpECP_scalar_mul_mpz(Q, P, k); if (mpECP_cmp(R, Q)) FAIL("stale table used"); return 0; }
'''),
dict(id='P01-alias-second', prop='P01', needs='adding on a twisted Edwards curve into the second operand', breaks='the result overwrites the second operand before it was fully read',
  edits=[('src/ecpoint.c', '                mpFp_add(B, pt1->x, pt1->y);\n                mpFp_add(E, pt2->x, pt2->y);\n                mpFp_mul(B, B, E);\n                mpFp_sub(B, B, C);\n                mpFp_sub(B, B, D);\n                mpFp_mul(B, B, F);\n                mpFp_mul(rpt->x, B, A);\n                // Y3 = A*G*(D-a*C)\n                mpFp_mul(C, C, pt1->cvp->coeff.te.a);\n                mpFp_sub(B, D, C);\n                mpFp_mul(B, B, G);\n                mpFp_mul(rpt->y, B, A);\n                // Z3 = F*G\n                mpFp_mul(rpt->z, G, F);\n',
          '                mpFp_add(B, pt1->x, pt1->y);\n                // Y3 = A*G*(D-a*C)\n                mpFp_mul(E, C, pt1->cvp->coeff.te.a);\n                mpFp_sub(E, D, E);\n                mpFp_mul(E, E, G);\n                mpFp_mul(rpt->y, E, A);\n                // B has both sums when doubling\n                if (pt1 == pt2) {\n                    mpFp_set(E, B);\n                } else {\n                    mpFp_add(E, pt2->x, pt2->y);\n                }\n                mpFp_mul(B, B, E);\n                mpFp_sub(B, B, C);\n                mpFp_sub(B, B, D);\n                mpFp_mul(B, B, F);\n                mpFp_mul(rpt->x, B, A);\n                // Z3 = F*G\n                mpFp_mul(rpt->z, G, F);\n')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "Ed25519"); mpECP_t G, P, R, Q; mpECP_init(G, cv); mpECP_init(P, cv); mpECP_init(R, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_double(P, G); mpECP_add(R, G, P); mpECP_add(P, G, P); if (mpECP_cmp(R, P)) FAIL("aliased addition differs"); return 0; }
'''),
]
