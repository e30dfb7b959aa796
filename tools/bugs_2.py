import importlib.util
_s = importlib.util.spec_from_file_location('b1', '/verif/tools/bugs_1.py'); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE; DEV = _m.DEV
# allocator with a canary behind every block, exact leak count and one failing request
MAL = r'''
#include <stddef.h>
#include <stdint.h>
static char heap_[1 << 27] __attribute__((aligned(16))); static size_t hp_; static long live_, count_, fail_at_ = -1; static int bad_, zap_;
typedef struct { size_t n; size_t pad; } hd_;
static void *al_(size_t n) { if (__atomic_fetch_add(&count_, 1, __ATOMIC_SEQ_CST) == fail_at_) return 0; size_t t = (n + 8 + sizeof(hd_) + 15) & ~(size_t)15; size_t o = __atomic_fetch_add(&hp_, t, __ATOMIC_SEQ_CST); if (o + t > sizeof heap_) return 0;
  hd_ *h = (hd_ *)(heap_ + o); h->n = n; char *p = (char *)(h + 1); memset(p, 0xA5, n); memset(p + n, 0x5C, 8); __atomic_fetch_add(&live_, 1, __ATOMIC_SEQ_CST); return p; }
static void ck_(void *p) { hd_ *h = (hd_ *)p - 1; for (int i = 0; i < 8; i++) if (((unsigned char *)p)[h->n + i] != 0x5C) bad_ = 1; }
void *malloc(size_t n) { return al_(n); }
void free(void *p) { if (!p) return; ck_(p); __atomic_fetch_sub(&live_, 1, __ATOMIC_SEQ_CST); }
void *calloc(size_t a, size_t b) { void *p = al_(a * b); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *o, size_t n) { void *p = al_(n); if (!p) return 0; if (o) { hd_ *h = (hd_ *)o - 1; memcpy(p, o, h->n < n ? h->n : n); free(o); } return p; }
'''
PYSH = '''#!/bin/sh
# runs in /repo after the build; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/_build/py" LD_LIBRARY_PATH="$PWD/src/.libs" timeout 250 python3 "$D/demo.py"; R=$?
[ $R -eq 0 ] || R=1
exit $R
'''
def py(**k):
    d = k.pop('demo'); k['sh'] = PYSH; k['extra'] = {'demo.py': d}; return k
BUGS = [
dict(id='P01-sub-alias', prop='P01', needs='a subtraction whose result is stored in its first operand (a = a - b)',
  breaks='the difference uses the result as the temporary for -b, which overwrites a when both are the same object',
  edits=[('src/ecpoint.c', '    } else {\n        mpECP_t n;\n        mpECP_init(n, pt1->cvp);\n        mpECP_neg(n, pt2);', '    } else if (rpt != pt2) {\n        // the result can hold -pt2\n        mpECP_neg(rpt, pt2);\n        mpECP_add(rpt, pt1, rpt);\n    } else {\n        mpECP_t n;\n        mpECP_init(n, pt1->cvp);\n        mpECP_neg(n, pt2);')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECP_t G, A; mpECP_init(G, cv); mpECP_init(A, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_double(A, G); mpECP_sub(A, A, G); if (mpECP_cmp(A, G) != 0) FAIL("2G - G != G"); return 0; }
'''),
dict(id='P02-neg-inplace', prop='P02', needs='a point with a multiplication table, negated in place, then used as the base of a multiplication',
  breaks='assigning a point to itself returns early and keeps its table, so an in-place negation leaves the table of the old point',
  edits=[('src/ecpoint.c', 'void mpECP_set(mpECP_t rpt, mpECP_t pt) {\n', 'void mpECP_set(mpECP_t rpt, mpECP_t pt) {\n    if (rpt == pt) return;\n'),
         ('src/ecpoint.c', '            mpECP_set(rpt, pt);\n            mpFp_neg(rpt->y, pt->y);\n', '            mpECP_set(rpt, pt);\n            mpFp_neg(rpt->y, rpt->y);\n')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECP_t G, A, B; mpECP_init(G, cv); mpECP_init(A, cv); mpECP_init(B, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_scalar_base_mul_setup(G); mpECP_neg(G, G);
  mpz_t k; mpz_init_set_ui(k, 7); mpECP_scalar_base_mul_mpz(A, G, k); mpECP_scalar_mul_mpz(B, G, k); if (mpECP_cmp(A, B) != 0) FAIL("the table is stale"); return 0; }
'''),
dict(id='P03-reuse', prop='P03', needs='a damaged uncompressed encoding (right x, wrong y) received into a point object that already holds that x',
  breaks='the curve check is skipped when the receiving point already has the x coordinate, whatever y is',
  edits=[('src/ecpoint.c', '                mpz_import(x, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1]));\n', '                // a key that is received again was checked the first time\n                int known = 0;\n                mpz_import(x, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1]));\n                if ((rpt->cvp == cv) && (rpt->x->i->_mp_size == cv->fp->psize) && (rpt->x->fp == cv->fp)) {\n                    known = (mpFp_cmp_mpz(rpt->x, x) == 0);\n                }\n'),
         ('src/ecpoint.c', 'on_curve = mpECurve_point_check(cv, x, y);', 'on_curve = known || mpECurve_point_check(cv, x, y);')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECP_t G; mpECP_init(G, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); unsigned char b[65]; mpECP_out_bytes(b, G, 0); b[64] ^= 4; if (mpECP_set_bytes(G, b, 65, cv) == 0) FAIL("a point off the curve was accepted"); return 0; }
'''),
dict(id='F01-negative-multiple', prop='F01', needs='a field element set from a negative multiple of the modulus',
  breaks='the remainder of a negative multiple of p is stored as p, which is neither zero nor canonical',
  edits=[('src/field.c', '    mpz_set(c->i, a);\n    mpz_mod(c->i, c->i, fp->p);\n', '    mpz_tdiv_r(c->i, a, fp->p);\n    if (__GMP_UNLIKELY(mpz_sgn(a) < 0)) {\n        mpz_add(c->i, c->i, fp->p);\n    }\n')],
  demo=r'''
int main(void) { mpz_t p, v; mpz_init_set_str(p, "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 0); mpz_init(v); mpz_mul_si(v, p, -3); mpFp_t a; mpFp_init(a, p); mpFp_set_mpz(a, v, p); if (mpFp_cmp_ui(a, 0) != 0) FAIL("-3p is not zero"); return 0; }
'''),
dict(id='F01-field-hash', prop='F01', needs='two moduli of the same size whose lowest limbs are equal, used alternately by one thread',
  breaks='the last field found is remembered and recognised by the size and the lowest limb of the modulus only',
  edits=[('src/field.c', '    size_t psz;\n\n    psz = p->_mp_size;\n', '    // most programs use one field only\n    static __thread mpFp_field_ptr last = NULL;\n    size_t psz;\n\n    psz = p->_mp_size;\n    if ((last != NULL) && (last->psize == psz) && (last->p->_mp_d[0] == p->_mp_d[0])) return last;\n'),
         ('src/field.c', '                free(l_new);\n            }\n            return l_this->fp;\n', '                free(l_new);\n            }\n            last = l_this->fp;\n            return l_this->fp;\n')],
  demo=r'''
int main(void) { mpz_t p, q, v; mpz_init_set_str(p, "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 0); mpz_init_set(q, p); mpz_t d; mpz_init_set_ui(d, 1); mpz_mul_2exp(d, d, 130); do mpz_sub(q, q, d); while (!mpz_probab_prime_p(q, 30)); mpz_init(v); mpz_add_ui(v, q, 5);
  mpFp_t a, b; mpFp_init(a, p); mpFp_init(b, q); mpFp_set_mpz(a, v, p); mpFp_set_mpz(a, v, p); mpFp_set_mpz(b, v, q); if (mpFp_cmp_ui(b, 5) != 0) FAIL("q + 5 != 5 mod q"); return 0; }
'''),
dict(id='C01-set-bits', prop='C01', needs='a curve object assigned from another curve of the same type and another size',
  breaks='assignment over a curve of the same type keeps the old bit size, so encodings have the wrong length',
  edits=[('src/ecurve.c', '    if (rop->type != op->type) {\n        _mpECurve_clear_coeff(rop);\n        rop->type = op->type;\n        _mpECurve_init_coeff(rop);\n    }\n    switch (op->type)', '    if (rop->type != op->type) {\n        _mpECurve_clear_coeff(rop);\n        rop->type = op->type;\n        _mpECurve_init_coeff(rop);\n        rop->bits = op->bits;\n    }\n    switch (op->type)'),
         ('src/ecurve.c', '    mpz_set(rop->G[1], op->G[1]);\n    rop->bits = op->bits;\n    return;', '    mpz_set(rop->G[1], op->G[1]);\n    return;')],
  demo=r'''
int main(void) { mpECurve_t a, b; mpECurve_init(a); mpECurve_init(b); mpECurve_set_named(a, "secp256k1"); mpECurve_set_named(b, "secp521r1"); mpECurve_set(a, b); mpECP_t G; mpECP_init(G, a); mpECP_set_mpz(G, a->G[0], a->G[1], a); if (mpECP_out_bytelen(G, 1) != 67) FAIL("wrong encoding length"); return 0; }
'''),
dict(id='C01-mo-coeff', prop='C01', needs='a Montgomery curve object assigned from another Montgomery curve that differs in its A only',
  breaks='assignment between Montgomery curves over the same field with equal B skips the derived coefficients',
  edits=[('src/ecurve.c', 'void mpECurve_set(mpECurve_t rop, mpECurve_t op){\n    rop->fp = op->fp;\n', 'void mpECurve_set(mpECurve_t rop, mpECurve_t op){\n    int derived;\n    derived = (rop->type != EQTypeMontgomery) || (op->type != EQTypeMontgomery) ||\n        (rop->fp != op->fp) || (mpFp_cmp(rop->coeff.mo.B, op->coeff.mo.B) != 0);\n    rop->fp = op->fp;\n'),
         ('src/ecurve.c', '            mpFp_set(rop->coeff.mo.Binv, op->coeff.mo.Binv);\n            mpFp_set(rop->coeff.mo.Adiv3, op->coeff.mo.Adiv3);\n', '            if (derived) {\n                mpFp_set(rop->coeff.mo.Binv, op->coeff.mo.Binv);\n                mpFp_set(rop->coeff.mo.Adiv3, op->coeff.mo.Adiv3);\n            }\n')],
  demo=r'''
int main(void) { mpECurve_t a, b; mpECurve_init(a); mpECurve_init(b); mpECurve_set_named(a, "M-383"); mpECurve_set_named(b, "Curve383187"); mpECurve_set(a, b); mpECP_t G, H; mpECP_init(G, a); mpECP_init(H, b); mpECP_set_mpz(G, a->G[0], a->G[1], a); mpECP_set_mpz(H, b->G[0], b->G[1], b);
  mpz_t k, x, y; mpz_init_set_ui(k, 5); mpz_inits(x, y, NULL); mpECP_scalar_mul_mpz(G, G, k); mpECP_scalar_mul_mpz(H, H, k); mpz_set_mpECP_affine_x(x, G); mpz_set_mpECP_affine_x(y, H); if (mpz_cmp(x, y)) FAIL("the copy computes something else"); return 0; }
'''),
dict(id='T01-inv-static', prop='T01', needs='two threads inverting field elements at the same time, one preempted while it fills the buffer',
  breaks='the operand of an inversion is copied to a buffer shared by all threads',
  edits=[('src/field.c', '    mp_limb_t tl[_MPFP_MAX_LIMBS*2];\n    fp = a->fp;\n    c->fp = a->fp;\n    PARANOID_ASSERT(a->i->_mp_size == fp->psize);\n', '    static mp_limb_t tl[_MPFP_MAX_LIMBS*2];\n    fp = a->fp;\n    c->fp = a->fp;\n    PARANOID_ASSERT(a->i->_mp_size == fp->psize);\n')],
  demo=r'''
static mpz_t p; static int bad;
static void *th(void *a) { unsigned s = 77 + (unsigned)(long)a; mpFp_t x, y; mpFp_init(x, p); mpFp_init(y, p); mpz_t z; mpz_init(z); for (int i = 0; i < 200000 && !bad; i++) { s = s * 1103515245 + 12345; mpz_set_ui(z, s | 1); mpz_mul_2exp(z, z, 100 + s % 90); mpz_add_ui(z, z, i); mpFp_set_mpz(x, z, p); mpFp_inv(y, x); mpFp_mul(y, y, x); if (mpFp_cmp_ui(y, 1)) bad = 1; } return 0; }
int main(void) { mpz_init_set_str(p, "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 0); pthread_t t[8]; for (long i = 0; i < 8; i++) pthread_create(&t[i], 0, th, (void *)i); for (int i = 0; i < 8; i++) pthread_join(t[i], 0); if (bad) FAIL("an inverse is wrong"); return 0; }
'''),
dict(id='T01-hex-static', prop='T01', needs='two threads decoding point strings at the same time, one preempted between decoding the digits and using them',
  breaks='short point strings are decoded into a buffer shared by all threads',
  edits=[('src/ecpoint.c', '    size_t blen;\n    int i;\n    int status;\n    unsigned char *buf;\n', '    size_t blen;\n    int i;\n    int status;\n    static unsigned char sbuf[160];\n    unsigned char *buf;\n'),
         ('src/ecpoint.c', '    buf = (unsigned char *)malloc(blen * sizeof(char));\n    assert(buf != NULL);\n\n    for (i = 0; i < blen; i++) {\n        int hi, lo;\n        hi = _hexval(s[2 * i]);', '    buf = (blen <= sizeof(sbuf)) ? sbuf : (unsigned char *)malloc(blen * sizeof(char));\n    assert(buf != NULL);\n\n    for (i = 0; i < blen; i++) {\n        int hi, lo;\n        hi = _hexval(s[2 * i]);'),
         ('src/ecpoint.c', '        if ((hi < 0) || (lo < 0)) {\n            free(buf);\n            return -1;', '        if ((hi < 0) || (lo < 0)) {\n            if (buf != sbuf) free(buf);\n            return -1;'),
         ('src/ecpoint.c', '    status = mpECP_set_bytes(rpt, buf, blen, cv);\n    free(buf);\n    return status;', '    status = mpECP_set_bytes(rpt, buf, blen, cv);\n    if (buf != sbuf) free(buf);\n    return status;')],
  demo=r'''
static mpECurve_t cv; static int bad;
static void *th(void *a) { mpECP_t P, Q; mpECP_init(P, cv); mpECP_init(Q, cv); mpz_t k; mpz_init_set_ui(k, 3 + (long)a); mpECP_set_mpz(P, cv->G[0], cv->G[1], cv); mpECP_scalar_mul_mpz(P, P, k); char s[300]; mpECP_out_str(s, P, 0); for (int i = 0; i < 60000 && !bad; i++) { if (mpECP_set_str(Q, s, cv) || mpFp_cmp(Q->x, P->x) == 2) bad = 1; if (i % 4 == 0 && mpECP_cmp(P, Q)) bad = 1; } return 0; }
int main(void) { mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); pthread_t t[8]; for (long i = 0; i < 8; i++) pthread_create(&t[i], 0, th, (void *)i); for (int i = 0; i < 8; i++) pthread_join(t[i], 0); if (bad) FAIL("a point string was decoded as another point"); return 0; }
'''),
dict(id='T02-cmp-affine', prop='T02', needs='threads that compare (or verify with) one shared point which is not in affine form, one preempted between writing x and z',
  breaks='comparing brings both operands to affine form in place',
  edits=[('src/ecpoint.c', 'int mpECP_cmp(mpECP_t pt1, mpECP_t pt2) {\n    if (mpECurve_cmp(pt1->cvp, pt2->cvp) != 0) return -1;\n', 'int mpECP_cmp(mpECP_t pt1, mpECP_t pt2) {\n    if (mpECurve_cmp(pt1->cvp, pt2->cvp) != 0) return -1;\n    // later comparisons and exports are cheaper in affine form\n    _mpECP_to_affine(pt1);\n    _mpECP_to_affine(pt2);\n')],
  demo=r'''
static mpECurve_t cv; static mpECP_t S; static int go, bad;
static void *th(void *a) { mpECP_t Q; mpECP_init(Q, cv); mpECP_set(Q, (mpECP_ptr)a); while (!__atomic_load_n(&go, __ATOMIC_ACQUIRE)); if (mpECP_cmp(S, Q)) bad = 1; return 0; }
int main(void) { mpECurve_init(cv); mpECurve_set_named(cv, "secp521r1"); mpECP_t G, R; mpECP_init(G, cv); mpECP_init(S, cv); mpECP_init(R, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_set(R, G);
  for (int r = 0; r < 4000 && !bad; r++) { mpECP_double(R, R); mpECP_set(S, R); mpFp_t zz; go = 0; pthread_t t[6]; mpECP_t C; mpECP_init(C, cv); mpECP_set(C, R); for (int i = 0; i < 6; i++) pthread_create(&t[i], 0, th, C); __atomic_store_n(&go, 1, __ATOMIC_RELEASE); for (int i = 0; i < 6; i++) pthread_join(t[i], 0); mpECP_clear(C); if (r % 64 == 0) mpECP_set(R, G); if (r % 7 == 0) mpECP_add(R, R, G); }
  if (bad) FAIL("equal points compared as different"); return 0; }
'''),
dict(id='M01-import-leak', prop='M01', inc=MAL, needs='a signature of the right length whose r or s is zero or not below the order',
  breaks='the numbers of a rejected signature are not released',
  edits=[('src/ecdsa.c', '        (mpz_cmp(r, sscheme->cvp->n) >= 0) || (mpz_cmp(s, sscheme->cvp->n) >= 0)) {\n        mpz_clear(s);\n        mpz_clear(r);\n        return -1;', '        (mpz_cmp(r, sscheme->cvp->n) >= 0) || (mpz_cmp(s, sscheme->cvp->n) >= 0)) {\n        return -1;')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECDSAHashfunc_t H; H->dohash = badhash; H->hsz = 32; mpECDSASignatureScheme_t S; mpECDSASignatureScheme_init(S, cv, H); unsigned char b[64]; memset(b, 255, 64); mpECDSASignature_t g; long l = live_; for (int i = 0; i < 5; i++) if (mpECDSASignature_init_import_bytes(g, S, b, 64) == 0) FAIL("accepted"); if (live_ != l) FAIL("leak"); return 0; }
'''),
dict(id='M02-realloc-null', prop='M02', inc=MAL + '#include <ecc/safememory.h>\n', needs='an allocation failure while a number grows, with the clearing allocator enabled',
  breaks='when the larger block cannot be had, the old (too small) block is returned as if it had grown',
  edits=[('src/safememory.c', '        fprintf (stderr, "ECCLIB: unable to allocate memory, aborting\\n");\n        exit(-1);\n', '        fprintf (stderr, "ECCLIB: unable to allocate memory\\n");\n        return old;\n')],
  demo=r'''
int main(void) { void *p = malloc(16); fail_at_ = count_; pid_t c = fork(); if (!c) { close(2); void *q = _safe_clean_realloc(p, 16, 4096); _exit(q == p ? 77 : 0); } int st; waitpid(c, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 77) FAIL("a 16 byte block was returned for 4096 bytes"); return 0; }
'''),
dict(id='M02-urandom-zero', prop='M02', inc=MAL, needs='an allocation failure in a random draw',
  breaks='a random draw that gets no memory returns zero, so that a failed allocation makes a zero key',
  edits=[('src/mpzurandom.c', '    assert(buffer != NULL);\n    sz_read = fread', '    if (buffer == NULL) {\n        mpz_set_ui(rop, 0);\n        return;\n    }\n    sz_read = fread')],
  demo=r'''
int main(void) { mpz_t m, r; mpz_init(r); mpz_init_set_ui(m, 1); mpz_mul_2exp(m, m, 200); mpz_urandom(r, m); pid_t c = fork(); if (!c) { close(2); fail_at_ = count_; mpz_urandom(r, m); _exit(mpz_sgn(r) == 0 ? 77 : 0); } int st; waitpid(c, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 77) FAIL("zero was drawn"); return 0; }
'''),
dict(id='M03-grow-realloc', prop='M03', inc=MAL + '#include <ecc/safememory.h>\n', needs='a number that grows while it holds a secret, with the clearing allocator enabled',
  breaks='blocks grow by realloc, which frees the old block with its contents',
  edits=[('src/safememory.c', '    ret = malloc(newsz);\n    if', '    ret = realloc(old, newsz);\n    if'),
         ('src/safememory.c', '    memcpy(ret, old, oldsz);\n    _safe_clean_memzero(old, oldsz);\n    free(old);\n\n', '')],
  demo=r'''
int main(void) { char *p = malloc(32); memset(p, 'S', 32); char *q = _safe_clean_realloc(p, 32, 64); if (q == p) return 0; for (int i = 0; i < 32; i++) if (p[i] == 'S') FAIL("the secret stays in the freed block"); return 0; }
'''),
dict(id='E01-self-key', prop='E01', needs='the plaintext point equals the public key',
  breaks='encrypting a key to itself takes a shortcut that changes the ephemeral before C is computed, so the ciphertext decrypts to the neutral element',
  edits=[('src/ecelgamal.c', '    mpECP_set_mpz(ctxt->C, pK->cvp->G[0], pK->cvp->G[1], pK->cvp);\n    mpECP_scalar_mul(ctxt->C, ctxt->C, k);\n\n    mpECP_scalar_mul(ctxt->D, pK, k);\n    mpECP_add(ctxt->D, ctxt->D, ptxt);\n',
    '    if (mpECP_cmp(pK, ptxt) == 0) {\n        // D = k * pK + pK\n        mpFp_add_ui(k, k, 1);\n        mpECP_scalar_mul(ctxt->D, pK, k);\n    } else {\n        mpECP_scalar_mul(ctxt->D, pK, k);\n        mpECP_add(ctxt->D, ctxt->D, ptxt);\n    }\n\n    mpECP_set_mpz(ctxt->C, pK->cvp->G[0], pK->cvp->G[1], pK->cvp);\n    mpECP_scalar_mul(ctxt->C, ctxt->C, k);\n')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECP_t P, Q; mpECP_init(P, cv); mpECP_set_mpz(P, cv->G[0], cv->G[1], cv); mpFp_t d; mpFp_init(d, cv->n); mpFp_set_ui(d, 12345, cv->n); mpECP_scalar_mul(P, P, d); mpECElgamalCiphertext_t c; mpECElgamal_init_encrypt(c, P, P); if (mpECElgamal_init_decrypt(Q, d, c)) FAIL("decrypt"); if (mpECP_cmp(P, Q)) FAIL("the plaintext is not restored"); return 0; }
'''),
dict(id='P02-neg-montgomery', prop='P02', needs='a negative scalar on a Montgomery curve',
  breaks='the product for a negative scalar is not negated on Montgomery curves',
  edits=[('src/ecpoint.c', 'void mpECP_scalar_mul_mpz(mpECP_t rpt, mpECP_t pt, mpz_t sc) {\n    mpFp_t s;\n', 'void mpECP_scalar_mul_mpz(mpECP_t rpt, mpECP_t pt, mpz_t sc) {\n    mpFp_t s;\n    // a negative scalar is the same work for the negated point\n    if (mpz_sgn(sc) < 0) {\n        mpz_t nsc;\n        mpz_init(nsc);\n        mpz_neg(nsc, sc);\n        mpECP_scalar_mul_mpz(rpt, pt, nsc);\n        mpz_clear(nsc);\n        if (pt->cvp->type != EQTypeMontgomery) mpECP_neg(rpt, rpt);\n        return;\n    }\n')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "Curve25519"); mpECP_t G, A, B; mpECP_init(G, cv); mpECP_init(A, cv); mpECP_init(B, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpz_t k; mpz_init_set_si(k, -5); mpECP_scalar_mul_mpz(A, G, k); mpz_add(k, k, cv->n); mpECP_scalar_mul_mpz(B, G, k); if (mpECP_cmp(A, B)) FAIL("-5 G != (n-5) G"); return 0; }
'''),

dict(id='K01-last-product', prop='K01', needs='a damaged compressed key whose sign byte was flipped, multiplied right after (or before) the genuine one by the same secret',
  breaks='the last product of a thread is remembered by scalar and x coordinate only: P and -P with the same scalar give the same secret',
  edits=[('src/ecpoint.c', '    mpECP_t R0, R1;\n    mpECP_init(R0, pt->cvp);\n    mpECP_init(R1, pt->cvp);\n    mpECP_set_neutral(R0, pt->cvp);\n', '    mpECP_t R0, R1;\n    // a key that is sent again needs no second ladder\n    static __thread mp_limb_t last[3][16];\n    static __thread unsigned char out[260];\n    static __thread size_t outlen = 0;\n    mp_size_t nx = pt->cvp->fp->psize, nk = sc->fp->psize;\n    int plain;\n    plain = (pt->is_neutral == 0) && (nx <= 16) && (nk <= 16) && (mpFp_cmp_ui(pt->z, 1) == 0) && (pt->x->i->_mp_size == nx) && (sc->i->_mp_size == nk) && (mpECP_out_bytelen(pt, 0) <= (int)sizeof(out));\n    if (plain && (outlen == (size_t)mpECP_out_bytelen(pt, 0)) && (mpn_cmp(last[0], pt->x->i->_mp_d, nx) == 0) && (mpn_cmp(last[1], sc->i->_mp_d, nk) == 0) && (mpn_cmp(last[2], pt->cvp->n->_mp_d, pt->cvp->n->_mp_size) == 0)) {\n        if (mpECP_set_bytes(rpt, out, outlen, pt->cvp) == 0) return;\n    }\n    if (plain) {\n        mpn_copyi(last[0], pt->x->i->_mp_d, nx);\n        mpn_copyi(last[1], sc->i->_mp_d, nk);\n        mpn_copyi(last[2], pt->cvp->n->_mp_d, pt->cvp->n->_mp_size);\n    }\n    mpECP_init(R0, pt->cvp);\n    mpECP_init(R1, pt->cvp);\n    mpECP_set_neutral(R0, pt->cvp);\n'),
         ('src/ecpoint.c', '        mpECP_double(R0, R0);\n        _mpECP_cswap_safe(R0, R1, b);\n    }\n    mpECP_set(rpt, R0);\n', '        mpECP_double(R0, R0);\n        _mpECP_cswap_safe(R0, R1, b);\n    }\n    outlen = 0;\n    if (plain && (R0->is_neutral == 0)) {\n        mpECP_out_bytes(out, R0, 0);\n        outlen = mpECP_out_bytelen(R0, 0);\n    }\n    mpECP_set(rpt, R0);\n')],
  demo=r"""
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECP_t P, A, B; mpECP_init(P, cv); mpECP_init(A, cv); mpECP_init(B, cv); mpz_t k; mpz_init_set_str(k, "fedcba9876543210fedcba9876543210fedcba9876543210fedcba9876543210", 16);
  unsigned char b[65]; mpECP_set_mpz(P, cv->G[0], cv->G[1], cv); mpECP_out_bytes(b, P, 1); mpECP_scalar_mul_mpz(A, P, k); b[0] ^= 1; if (mpECP_set_bytes(P, b, 33, cv)) return 9; mpECP_scalar_mul_mpz(B, P, k); if (mpECP_cmp(A, B) == 0) FAIL("k P = k (-P)"); return 0; }
"""),
dict(id='D01-cached-hash', prop='D01', needs='two messages of the same length and beginning signed one after the other from the same buffer',
  breaks='the digest of the last message is reused when address, length and the first eight bytes are the same',
  edits=[('src/ecdsa.c', '    mpECP_init(R, sscheme->cvp);\n\n    sscheme->H->dohash(hash, msg, sz);\n', '    mpECP_init(R, sscheme->cvp);\n\n    {\n        // a message is often signed several times\n        static __thread unsigned char digest[64], head[8];\n        static __thread unsigned char *lmsg = NULL;\n        static __thread size_t lsz = 0;\n        static __thread mpECDSAHashfunc_t lH;\n        int small = (sz >= sizeof(head)) && (sscheme->H->hsz <= sizeof(digest));\n        if (small && (lmsg == msg) && (lsz == sz) && (lH->dohash == sscheme->H->dohash) && (memcmp(head, msg, sizeof(head)) == 0)) {\n            memcpy(hash, digest, sscheme->H->hsz);\n        } else {\n            sscheme->H->dohash(hash, msg, sz);\n            lmsg = NULL;\n            if (small) {\n                memcpy(digest, hash, sscheme->H->hsz);\n                memcpy(head, msg, sizeof(head));\n                lH[0] = sscheme->H[0];\n                lmsg = msg;\n                lsz = sz;\n            }\n        }\n    }\n')],
  inc='#include <ecc/ecdsa.h>\n', demo=r"""
static void h(unsigned char *o, unsigned char *m, size_t n) { memset(o, 0, 32); for (size_t i = 0; i < n; i++) { o[i % 32] += m[i] * 7; o[(i + 5) % 32] ^= o[i % 32]; } }
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECDSAHashfunc_t H; mpECDSAHashfunc_init(H); H->dohash = h; H->hsz = 32; mpECDSASignatureScheme_t ss; mpECDSASignatureScheme_init(ss, cv, H);
  mpFp_t k; mpFp_init(k, cv->n); mpFp_urandom(k, cv->n); mpECP_t Q; mpECP_init(Q, cv); mpECP_set_mpz(Q, cv->G[0], cv->G[1], cv); mpECP_scalar_mul(Q, Q, k);
  unsigned char m[20] = "amount: 0000100"; mpECDSASignature_t a, b; mpECDSASignature_init_Sign(a, ss, k, m, 16); m[9] = '9'; mpECDSASignature_init_Sign(b, ss, k, m, 16);
  if (mpECDSASignature_verify_cmp(b, Q, m, 16)) FAIL("the second signature does not verify"); return 0; }
"""),
dict(id='D02-cached-hash', prop='D02', needs='a message altered beyond its first bytes in the buffer in which it was verified before',
  breaks='the digest of the last verified message is reused when address, length and the first eight bytes are the same',
  edits=[('src/ecdsa.c', '    mpECP_init(Pq, sig->sscheme->cvp);\n\n    sig->sscheme->H->dohash(hash, msg, sz);\n', '    mpECP_init(Pq, sig->sscheme->cvp);\n\n    {\n        // a message is often verified several times\n        static __thread unsigned char digest[64], head[8];\n        static __thread unsigned char *lmsg = NULL;\n        static __thread size_t lsz = 0;\n        static __thread mpECDSAHashfunc_t lH;\n        int small = (sz >= sizeof(head)) && (sig->sscheme->H->hsz <= sizeof(digest));\n        if (small && (lmsg == msg) && (lsz == sz) && (lH->dohash == sig->sscheme->H->dohash) && (memcmp(head, msg, sizeof(head)) == 0)) {\n            memcpy(hash, digest, sig->sscheme->H->hsz);\n        } else {\n            sig->sscheme->H->dohash(hash, msg, sz);\n            lmsg = NULL;\n            if (small) {\n                memcpy(digest, hash, sig->sscheme->H->hsz);\n                memcpy(head, msg, sizeof(head));\n                lH[0] = sig->sscheme->H[0];\n                lmsg = msg;\n                lsz = sz;\n            }\n        }\n    }\n')],
  inc='#include <ecc/ecdsa.h>\n', demo=r"""
static void h(unsigned char *o, unsigned char *m, size_t n) { memset(o, 0, 32); for (size_t i = 0; i < n; i++) { o[i % 32] += m[i] * 7; o[(i + 5) % 32] ^= o[i % 32]; } }
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "secp256k1"); mpECDSAHashfunc_t H; mpECDSAHashfunc_init(H); H->dohash = h; H->hsz = 32; mpECDSASignatureScheme_t ss; mpECDSASignatureScheme_init(ss, cv, H);
  mpFp_t k; mpFp_init(k, cv->n); mpFp_urandom(k, cv->n); mpECP_t Q; mpECP_init(Q, cv); mpECP_set_mpz(Q, cv->G[0], cv->G[1], cv); mpECP_scalar_mul(Q, Q, k);
  unsigned char m[20] = "amount: 0000100"; mpECDSASignature_t a; mpECDSASignature_init_Sign(a, ss, k, m, 16); if (mpECDSASignature_verify_cmp(a, Q, m, 16)) return 9; m[9] = '9';
  if (mpECDSASignature_verify_cmp(a, Q, m, 16) == 0) FAIL("an altered message verifies"); return 0; }
"""),
py(id='Y01-latin1', prop='Y01', needs='a str message with a character between U+0080 and U+00FF',
  breaks='messages given as str are signed in Latin-1 when possible and verified in UTF-8',
  edits=[('python/pyecdsa.c', '    		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");\n    		return NULL;\n        }\n        bytes = PyUnicode_AsUTF8String(msg);\n', '    		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");\n    		return NULL;\n        }\n        // one byte strings need no conversion\n        bytes = (PyUnicode_KIND(msg) == PyUnicode_1BYTE_KIND) ? PyUnicode_AsLatin1String(msg) : PyUnicode_AsUTF8String(msg);\n')],
  demo="""import sys, types, hashlib, ECC
m = types.ModuleType('h'); m.digest_size = 32
exec('import hashlib\\ndef new(d): return hashlib.sha256(d)', m.__dict__)
cv = ECC.ECurve('secp256k1'); ss = ECC.ECDSASignatureScheme(cv, m); s = ss.Sign(5, 'caf\\u00e9'); Q = ECC.ECPoint(cv, cv.G) * 5
sys.exit(0 if s.Verify(Q, 'caf\\u00e9') and s.Verify(Q, 'caf\\u00e9'.encode('utf-8')) else 1)
"""),
py(id='Y01-pow-fermat', prop='Y01', needs='zero raised to a positive multiple of p - 1 in a field with a small modulus',
  breaks='exponents are reduced modulo p - 1, which turns 0 ** (p - 1) into 0 ** 0 = 1',
  edits=[('python/pyfield.c', '	bui = mpz_get_ui(bmpz);\n', '	// a ** (p - 1) is one, so that only the remainder of the exponent counts\n	if (mpz_cmp(bmpz, a->fe->fp->p) >= 0) {\n		mpz_t pm1;\n\n		mpz_init(pm1);\n		mpz_sub_ui(pm1, a->fe->fp->p, 1);\n		mpz_mod(bmpz, bmpz, pm1);\n		mpz_clear(pm1);\n	}\n	bui = mpz_get_ui(bmpz);\n	if (bui + 1 == 0) bui = 0;\n')],
  demo="""import sys, ECC
z = ECC.FieldElement(0, 7)
sys.exit(0 if int(z ** 12) == 0 and int(z ** 6) == 0 else 1)
"""),
py(id='Y02-verify-leak', prop='Y02', needs='a hash module that raises while a str message is verified',
  breaks='the encoded message is not released when the hash function fails',
  edits=[('python/pyecdsa.c', '    Py_DECREF(bytes);\n    if (digest == NULL) return NULL;\n\n    ham.digest = (unsigned char *)PyBytes_AsString(digest);\n    ham.hsz = ssis->', '    if (digest == NULL) return NULL;\n    Py_DECREF(bytes);\n\n    ham.digest = (unsigned char *)PyBytes_AsString(digest);\n    ham.hsz = ssis->')],
  demo="""import sys, types, hashlib, ECC
m = types.ModuleType('h'); m.digest_size = 32; m.bad = False
exec('import hashlib\\ndef new(d):\\n    if bad: raise KeyError(1)\\n    return hashlib.sha256(d)', m.__dict__)
cv = ECC.ECurve('secp256k1'); ss = ECC.ECDSASignatureScheme(cv, m); s = ss.Sign(5, 'x'); Q = ECC.ECPoint(cv, cv.G) * 5
m.bad = True; msg = 'message ' * 20000
def rss(): return int(open('/proc/self/statm').read().split()[1]) * 4096
def go(n):
    for _ in range(n):
        try: s.Verify(Q, msg)
        except KeyError: pass
        else: sys.exit(2)
go(50); a = rss(); go(500); sys.exit(1 if rss() - a > 30 << 20 else 0)
"""),
py(id='Y02-init-rollback', prop='Y02', needs='repeated attempts to make a point from a malformed or off-curve encoding',
  breaks='the reference to the curve is taken only when the point was accepted but given back in any case, so that rejected points free the curve under its users',
  edits=[('python/pypoint.c', '	self->cv = (ECurve *)curve;\n	Py_INCREF(curve);\n', '	self->cv = (ECurve *)curve;\n'),
         ('python/pypoint.c', "    }\n\n	// all's clear\n	return 0;\n}\n\nstatic PyObject *ECPoint_str(", "    }\n\n	// all's clear\n	Py_INCREF(curve);\n	return 0;\n}\n\nstatic PyObject *ECPoint_str(")],
  demo="""import sys, ECC
cv = ECC.ECurve('secp256k1'); n = sys.getrefcount(cv)
for i in range(2):
    try: ECC.ECPoint(cv, b'\\x04' + b'\\x01' * 64)
    except ValueError: pass
    else: sys.exit(2)
k = sys.getrefcount(cv)
import os; os._exit(0 if k == n else 1)
"""),
]
