# planted bugs, batch 4: the C library again
import importlib.util as _u, os as _o
def _ld(n):
    s = _u.spec_from_file_location(n, _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), n + '.py')); m = _u.module_from_spec(s); s.loader.exec_module(m); return m
_m1 = _ld('bugs_1'); _m2 = _ld('bugs_2')
PRE = _m1.PRE; DEV = _m1.DEV; MAL = _m2.MAL
CV = 'mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "%s"); '
SCH = CV + 'mpECDSAHashfunc_t H; H->dohash = badhash; H->hsz = 32; mpECDSASignatureScheme_t S; mpECDSASignatureScheme_init(S, cv, H); '
BUGS = [
dict(id='R02-resume', prop='R02', inc=MAL + DEV, needs='a read of the random device that is cut short and then continued', breaks='the continued read starts at the beginning of the buffer again, so the value is partly made of what the heap happened to contain',
  edits=[('src/mpzurandom.c', '    assert(sz_read == bytes);\n', '    while (sz_read < bytes) {\n        int more;\n\n        // interrupted by a signal\n        clearerr(f_urandom);\n        more = fread(buffer, sizeof(char), bytes - sz_read, f_urandom);\n        assert(more > 0);\n        sz_read += more;\n    }\n')],
  demo=r'''
int main(void) { mpz_t max, r; mpz_init(max); mpz_set_ui(max, 1); mpz_mul_2exp(max, max, 256); mpz_init2(r, 1024); dev_on = 1; dev_short = 60; int *bad = mmap(0, 4096, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t c = fork(); if (!c) { close(2); mpz_urandom(r, max); if (mpz_fdiv_ui(r, 1ul << 32) == 0xA5A5A5A5ul) *bad = 1; _exit(0); } waitpid(c, 0, 0); if (*bad) FAIL("a value has bytes of fresh memory in it"); return 0; }
'''),
dict(id='P03-pad-y', prop='P03', needs='an uncompressed point whose y coordinate has two or more leading zero bytes', breaks='only the first padding byte of y is cleared: such a point is exported with stale bytes in y',
  edits=[('src/ecpoint.c', '            for (i = 0; i < shift; i++) {\n                s[1 + i + bytes] = 0;\n            }\n', '            s[1 + bytes] = 0;\n')],
  demo='\nint main(void) { ' + CV % 'secp112r1' + r'''mpECP_t G, P, Q; mpECP_init(G, cv); mpECP_init(P, cv); mpECP_init(Q, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_set(P, G); mpz_t y; mpz_init(y); unsigned char b[64];
  for (int i = 0; i < 1500000; i++) { mpECP_add(P, P, G); if (i % 1) continue; mpz_set_mpFp(y, P->z); mpz_set_mpECP_affine_y(y, P); if (mpz_sizeinbase(y, 2) > 96) continue; memset(b, 0xEE, sizeof b); mpECP_out_bytes(b, P, 0); if (mpECP_set_bytes(Q, b, 29, cv) || mpECP_cmp(P, Q)) FAIL("an exported point does not come back"); return 0; }
  return 0; }
'''),
dict(id='F01-add-ui', prop='F01', needs='a machine word of at least twice the modulus added to an element of a one limb field', breaks='the word is brought into range by one subtraction instead of a division',
  edits=[('src/field.c', '        borrow = b % fp->p->_mp_d[0];\n', '        if (borrow >= fp->p->_mp_d[0]) borrow -= fp->p->_mp_d[0];\n')],
  demo=r'''
int main(void) { mpz_t p; mpz_init_set_ui(p, 1000003); mpFp_t a, b; mpFp_init(a, p); mpFp_init(b, p); mpFp_set_ui(a, 5, p); mpFp_add_ui(a, a, 3000009ul + 7); mpFp_set_ui(b, 12, p); if (mpFp_cmp(a, b)) FAIL("5 + 3p + 7 != 12"); return 0; }
'''),
dict(id='F01-set-ui', prop='F01', needs='an element of a one limb field set from a word not below the modulus', breaks='words are reduced only when they have more limbs than the modulus',
  edits=[('src/field.c', '    if (__GMP_UNLIKELY(c->i->_mp_size >= fp->psize)) {\n', '    if (__GMP_UNLIKELY(c->i->_mp_size > fp->psize)) {\n')],
  demo=r'''
int main(void) { mpz_t p; mpz_init_set_ui(p, 1000003); mpFp_t a, b; mpFp_init(a, p); mpFp_init(b, p); mpFp_set_ui(a, 1000008ul, p); mpFp_set_ui(b, 5, p); if (mpFp_cmp(a, b)) FAIL("p + 5 != 5"); return 0; }
'''),
dict(id='C01-cmp-gy', prop='C01', needs='two curves that differ in the sign of the generator only', breaks='such curves compare equal',
  edits=[('src/ecurve.c', '    r = mpz_cmp(op1->G[1], op2->G[1]) ; if (r != 0) return r;\n    //printf("same gy\\n");\n', '    // the generator is a point of the curve, x determines it\n')],
  demo=r'''
int main(void) { mpECurve_t a, b; mpECurve_init(a); mpECurve_init(b); mpECurve_set_named(a, "secp256k1"); mpECurve_set_named(b, "secp256k1"); mpz_sub(b->G[1], b->fp->p, b->G[1]); mpz_t p, z, s; mpz_inits(p, z, s, NULL); mpz_set(p, b->fp->p); mpz_set_ui(s, 7); mpECurve_t c; mpECurve_init(c); if (mpECurve_set_mpz_ws(c, p, z, s, a->n, a->h, a->G[0], b->G[1], 256)) return 9; if (mpECurve_cmp(a, c) == 0) FAIL("curves with different generators compare equal"); return 0; }
'''),
dict(id='C01-mo-cube', prop='C01', needs='a Montgomery curve whose B is not 1', breaks='the internal form of the curve has B squared in place of B cubed',
  edits=[('src/ecurve.c', '        mpFp_mul(b, b, cv->coeff.mo.B);\n        mpFp_mul_ui(b, b, 27);\n', '        mpFp_mul_ui(b, b, 27);\n')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpz_t p, B, A, n, h, x, y; mpz_init_set_ui(p, 1000003); mpz_init_set_ui(B, 5); mpz_init_set_ui(A, 11); mpz_inits(n, h, x, y, NULL); mpz_set_ui(n, 1000003); mpz_set_ui(h, 4); int ok = 0;
  for (long i = 2; i < 1000 && !ok; i++) for (long j = 1; j < 20000; j++) { unsigned long long P = 1000003, l = 5ull * (j * j % P) % P, r = (i * i % P * i + 11ull * (i * i % P) + i) % P; if (l == r) { mpz_set_ui(x, i); mpz_set_ui(y, j); ok = 1; break; } }
  if (!ok || mpECurve_set_mpz_mo(cv, p, B, A, n, h, x, y, 20)) return 9; mpECP_t G, Q; mpECP_init(G, cv); mpECP_init(Q, cv); mpECP_set_mpz(G, x, y, cv); mpECP_set(Q, G); for (int i = 0; i < 5; i++) { mpECP_add(Q, Q, G); mpz_set_mpECP_affine_x(x, Q); mpz_set_mpECP_affine_y(y, Q); if (!mpECurve_point_check(cv, x, y)) FAIL("a sum is not on the curve"); } return 0; }
'''),
dict(id='P01-ed-c', prop='P01', needs='an Edwards curve whose c is not 1', breaks='the coefficient c is left out of the addition',
  edits=[('src/ecpoint.c', '                mpFp_mul(B, pt1->cvp->coeff.ed.c, G);\n                mpFp_mul(rpt->z, B, F);\n', '                mpFp_mul(rpt->z, G, F);\n')],
  demo=r'''
int main(void) { mpECurve_t cv; mpECurve_init(cv); mpz_t p, c, d, n, h, x, y; mpz_init_set_ui(p, 10007); mpz_init_set_ui(c, 3); mpz_init_set_ui(d, 5); mpz_inits(n, h, x, y, NULL); mpz_set_ui(n, 10007); mpz_set_ui(h, 4); int ok = 0; unsigned long long P = 10007;
  for (unsigned long long i = 2; i < P && !ok; i++) for (unsigned long long j = 2; j < P; j++) { unsigned long long a = i * i % P, b = j * j % P; if ((a + b) % P == 9 * (1 + 5 * (a * b % P)) % P) { mpz_set_ui(x, i); mpz_set_ui(y, j); ok = 1; break; } }
  if (!ok || mpECurve_set_mpz_ed(cv, p, c, d, n, h, x, y, 14)) return 9; mpECP_t G, Q; mpECP_init(G, cv); mpECP_init(Q, cv); mpECP_set_mpz(G, x, y, cv); mpECP_add(Q, G, G); mpz_set_mpECP_affine_x(x, Q); mpz_set_mpECP_affine_y(y, Q); if (!mpECurve_point_check(cv, x, y)) FAIL("a sum is not on the curve"); return 0; }
'''),
dict(id='D01-x-wrap', prop='D01', needs='a signature whose point R has an x coordinate not below the order, on a curve of cofactor 1', breaks='x is compared with r without reducing it, so the signer\'s own signature is refused',
  edits=[('src/ecdsa.c', '        mpFp_set_mpz(p_n, e, sig->sscheme->cvp->n);\n\n        status = mpFp_cmp(p_n, sig->r);\n', '        // without a cofactor the coordinates are as large as the scalars\n        if (mpz_cmp_ui(sig->sscheme->cvp->h, 1) != 0) {\n            mpz_mod(e, e, sig->sscheme->cvp->n);\n        }\n        status = mpFp_cmp_mpz(sig->r, e);\n'),
         ('src/ecdsa.c', '    mpFp_init_fp(p_n, sig->sscheme->cvp->fp);\n', ''), ('src/ecdsa.c', '    mpFp_clear(p_n);\n', ''), ('src/ecdsa.c', '    mpFp_t p_n;\n', '')],
  demo='''
int main(void) { mpECurve_t cv; mpECurve_init(cv); /* y^2 = x^3 + a x + b of small prime order n < p, searched */ long p = 1009; for (long b = 1; b < 200; b++) { long n = 1, gx = 0, gy = 0; for (long x = 0; x < p; x++) for (long y = 0; y < p; y++) if (y * y % p == (x * x % p * x + 3 * x + b) % p) { n++; if (y && !gx) { gx = x; gy = y; } }
    int prime = n > 3; for (long q = 2; q * q <= n; q++) if (n % q == 0) prime = 0; if (!prime || n >= p - 20 || !gx) continue;
    mpz_t zp, za, zb, zn, zh, zx, zy; mpz_init_set_ui(zp, p); mpz_init_set_ui(za, 3); mpz_init_set_ui(zb, b); mpz_init_set_ui(zn, n); mpz_init_set_ui(zh, 1); mpz_init_set_ui(zx, gx); mpz_init_set_ui(zy, gy); if (mpECurve_set_mpz_ws(cv, zp, za, zb, zn, zh, zx, zy, 10)) return 9;
    mpECDSAHashfunc_t H; H->dohash = badhash; H->hsz = 32; mpECDSASignatureScheme_t S; mpECDSASignatureScheme_init(S, cv, H); mpFp_t k; mpFp_init(k, zn); mpFp_set_ui(k, 17, zn); mpECP_t Q; mpECP_init(Q, cv); mpECP_set_mpz(Q, zx, zy, cv); mpECP_scalar_mul(Q, Q, k);
    for (int i = 0; i < 2000; i++) { char m[32]; sprintf(m, "m%d", i); mpECDSASignature_t s; if (mpECDSASignature_init_Sign(s, S, k, (unsigned char *)m, strlen(m))) return 8; if (mpECDSASignature_verify_cmp(s, Q, (unsigned char *)m, strlen(m))) FAIL("a genuine signature is refused"); mpECDSASignature_clear(s); } return 0; } return 7; }
'''),
dict(id='T02-verify-inplace', prop='T02', needs='two threads verifying with one shared signature object', breaks='verification inverts s inside the signature and restores it afterwards',
  edits=[('src/ecdsa.c', '    mpFp_inv(w, sig->s);\n    mpFp_mul(u1, e_n, w);\n    mpFp_mul(u2, sig->r, w);\n', '    mpFp_inv(sig->s, sig->s);\n    mpFp_mul(u1, e_n, sig->s);\n    mpFp_mul(u2, sig->r, sig->s);\n    mpFp_inv(sig->s, sig->s);\n'),
         ('src/ecdsa.c', '    mpFp_init(w, sig->sscheme->cvp->n);\n', ''), ('src/ecdsa.c', '    mpFp_clear(w);\n', ''), ('src/ecdsa.c', '    mpFp_t w;\n', '')],
  demo='static mpECDSASignature_t sg; static mpECP_t Q; static int bad; static unsigned char m[] = "message";\nstatic void *th(void *a) { for (int i = 0; i < 1500 && !bad; i++) if (mpECDSASignature_verify_cmp(sg, Q, m, 7)) bad = 1; return 0; }\nint main(void) { ' + SCH % 'secp112r1' + r'''mpFp_t k; mpFp_init(k, cv->n); mpFp_set_ui(k, 12345, cv->n); mpECP_init(Q, cv); mpECP_set_mpz(Q, cv->G[0], cv->G[1], cv); mpECP_scalar_mul(Q, Q, k); if (mpECDSASignature_init_Sign(sg, S, k, m, 7)) return 9;
  pthread_t t[8]; for (long i = 0; i < 8; i++) pthread_create(&t[i], 0, th, (void *)i); for (int i = 0; i < 8; i++) pthread_join(t[i], 0); if (bad) FAIL("a genuine signature was refused"); return 0; }
'''),
dict(id='T02-decrypt-inplace', prop='T02', needs='two threads decrypting one shared ciphertext object', breaks='decryption negates D inside the ciphertext and restores it afterwards',
  edits=[('src/ecelgamal.c', '    mpECP_sub(ptxt, ctxt->D, ptxt);\n', '    // ptxt = -(S - D)\n    mpECP_neg(ctxt->D, ctxt->D);\n    mpECP_add(ptxt, ptxt, ctxt->D);\n    mpECP_neg(ctxt->D, ctxt->D);\n    mpECP_neg(ptxt, ptxt);\n')],
  demo='static mpECElgamalCiphertext_t ct; static mpECP_t M; static mpFp_t k; static int bad;\nstatic void *th(void *a) { for (int i = 0; i < 3000 && !bad; i++) { mpECP_t p; if (mpECElgamal_init_decrypt(p, k, ct) || mpECP_cmp(p, M)) bad = 1; mpECP_clear(p); } return 0; }\nint main(void) { ' + CV % 'secp112r1' + r'''mpECP_t Q; mpFp_init(k, cv->n); mpFp_set_ui(k, 3, cv->n); mpECP_init(Q, cv); mpECP_init(M, cv); mpECP_set_mpz(Q, cv->G[0], cv->G[1], cv); mpECP_double(M, Q); mpECP_scalar_mul(Q, Q, k); if (mpECElgamal_init_encrypt(ct, Q, M)) return 9;
  pthread_t t[8]; for (long i = 0; i < 8; i++) pthread_create(&t[i], 0, th, (void *)i); for (int i = 0; i < 8; i++) pthread_join(t[i], 0); if (bad) FAIL("wrong plaintext"); return 0; }
'''),
dict(id='T01-export-static', prop='T01', needs='two threads exporting signatures of their own at the same time', breaks='the two numbers of a signature are converted in variables shared by all threads',
  edits=[('src/ecdsa.c', 'unsigned char *mpECDSASignature_export_bytes(mpECDSASignature_t sig, size_t *sz) {\n    mpz_t r;\n    mpz_t s;\n', 'unsigned char *mpECDSASignature_export_bytes(mpECDSASignature_t sig, size_t *sz) {\n    static mp_limb_t num[2][32];\n    mpz_t r;\n    mpz_t s;\n    int i;\n'),
         ('src/ecdsa.c', '    mpz_set_mpFp(r, sig->r);\n    mpz_set_mpFp(s, sig->s);\n', '    for (i = 0; i < sig->r->fp->psize; i++) {\n        num[0][i] = sig->r->i->_mp_d[i];\n        num[1][i] = sig->s->i->_mp_d[i];\n    }\n    mpz_roinit_n(r, num[0], sig->r->fp->psize);\n    mpz_roinit_n(s, num[1], sig->s->fp->psize);\n'),
         ('src/ecdsa.c', '        _shift_right_and_zero_pad(bs, sig->sscheme->nsz, sig->sscheme->nsz - bsz);\n    }\n\n    mpz_clear(s);\n    mpz_clear(r);\n', '        _shift_right_and_zero_pad(bs, sig->sscheme->nsz, sig->sscheme->nsz - bsz);\n    }\n'),
         ('src/ecdsa.c', '    mpz_init(r);\n    mpz_init(s);\n    \n    buffer = ', '    buffer = ')],
  demo='static mpECDSASignatureScheme_t S; static int bad;\nstatic void *th(void *a) { unsigned char b[64]; memset(b, 17 + (long)a, 64); mpECDSASignature_t s; if (mpECDSASignature_init_import_bytes(s, S, b, 64)) bad = 2; for (int i = 0; i < 300000 && !bad; i++) { size_t n; unsigned char *q = mpECDSASignature_export_bytes(s, &n); if (memcmp(q, b, 64)) bad = 1; free(q); } return 0; }\nint main(void) { ' + CV % 'secp256k1' + r'''mpECDSAHashfunc_t H; H->dohash = badhash; H->hsz = 32; mpECDSASignatureScheme_init(S, cv, H);
  pthread_t t[8]; for (long i = 0; i < 8; i++) pthread_create(&t[i], 0, th, (void *)i); for (int i = 0; i < 8; i++) pthread_join(t[i], 0); if (bad) FAIL("an exported signature is wrong"); return 0; }
'''),
dict(id='M01-neutral-overrun', prop='M01', inc=MAL, needs='the compressed export of the neutral element of a short Weierstrass curve into a buffer of exactly the announced size', breaks='the neutral element is always written in the size of an uncompressed point',
  edits=[('src/ecpoint.c', '        if (compress == 0) bytes *= 2;\n        for (i = 0; i < (bytes + 1); i++) {\n            s[i] = 0;\n        }\n', '        // all zero, whatever the format\n        for (i = 0; i < (2 * bytes + 1); i++) {\n            s[i] = 0;\n        }\n')],
  demo='\nint main(void) { ' + CV % 'secp256k1' + r'''mpECP_t P; mpECP_init(P, cv); mpECP_set_neutral(P, cv); int n = mpECP_out_bytelen(P, 1); unsigned char *b = malloc(n); mpECP_out_bytes(b, P, 1); free(b); if (bad_) FAIL("the buffer was overrun"); return 0; }
'''),
dict(id='M02-table-null', prop='M02', inc=MAL, needs='an allocation failure when the table of a base point is made', breaks='a refused table is ignored, the multiplication then goes on with a table that is not there',
  edits=[('src/ecpoint.c', '    base_pt = (struct _p_mpECP_t *)malloc(npts * sizeof(struct _p_mpECP_t));\n    assert(base_pt != NULL);\n    for (i = 0; i < npts; i++) {\n        mpECP_init(&base_pt[i]', '    base_pt = (struct _p_mpECP_t *)malloc(npts * sizeof(struct _p_mpECP_t));\n    if (base_pt == NULL) {\n        // the table only makes multiplications faster\n        mpECP_clear(b);\n        mpECP_clear(a);\n        return;\n    }\n    for (i = 0; i < npts; i++) {\n        mpECP_init(&base_pt[i]')],
  demo='\nint main(void) { ' + CV % 'secp112r1' + r'''int bad = 0; for (int f = 0; f < 40 && !bad; f++) { pid_t c = fork(); if (!c) { close(2); mpECP_t G, P; mpECP_init(G, cv); mpECP_init(P, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpz_t k; mpz_init_set_ui(k, 5); fail_at_ = count_ + f; mpECP_scalar_base_mul_mpz(P, G, k); _exit(0); } int st; waitpid(c, &st, 0); if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) bad = WTERMSIG(st); } if (bad) FAIL("signal %d after a refused allocation", bad); return 0; }
'''),
dict(id='M03-shrink', prop='M03', inc=MAL + '#include <ecc/safememory.h>\n', needs='a number that shrinks while it holds a secret, with the clearing allocator enabled', breaks='shrinking goes through realloc, which can move the number and leave the old copy behind',
  edits=[('src/safememory.c', '        // the block is known by its new size from here on\n        _safe_clean_memzero((char *)old + newsz, oldsz - newsz);\n        return old;\n', '        // give back what is not needed\n        ret = realloc(old, newsz);\n        return (ret != NULL) ? ret : old;\n')],
  demo=r'''
int main(void) { _enable_gmp_safe_clean(); mpz_t k; mpz_init(k); mpz_set_str(k, "5ec2e75ec2e75ec2e75ec2e75ec2e75ec2e75ec2e75ec2e75ec2e75ec2e75ec2e75ec2e75ec2e75ec2e75ec2e7", 16); mpz_tdiv_q_2exp(k, k, 200); mpz_realloc2(k, 200); mpz_clear(k); static unsigned char w[6] = {0xc2, 0x5e, 0xe7, 0xc2, 0x5e, 0xe7};
  for (size_t i = 0; i + 12 < hp_; i++) if (!memcmp(heap_ + i, w, 6)) FAIL("secret digits are left in released memory"); return 0; }
'''),
]
