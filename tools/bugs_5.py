# planted bugs, batch 5
import importlib.util as _u, os as _o
def _ld(n):
    s = _u.spec_from_file_location(n, _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), n + '.py')); m = _u.module_from_spec(s); s.loader.exec_module(m); return m
_m1 = _ld('bugs_1'); _m2 = _ld('bugs_2')
PRE = _m1.PRE; DEV = _m1.DEV; MAL = _m2.MAL
CV = 'mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "%s"); '
SCH = CV + 'mpECDSAHashfunc_t H; H->dohash = badhash; H->hsz = 32; mpECDSASignatureScheme_t S; mpECDSASignatureScheme_init(S, cv, H); '
BUGS = [
dict(id='K01-generator-x', prop='K01', needs='a delivered uncompressed point with the x coordinate of the generator and another y', breaks='points with the x of the generator are not checked, so a damaged delivery of such a point leaves the curve',
  edits=[('src/ecpoint.c', '                on_curve = mpECurve_point_check(cv, x, y);\n', '                // generators are sent along with the parameters of a curve all the time\n                on_curve = (mpz_cmp(x, cv->G[0]) == 0);\n                if (!on_curve) on_curve = mpECurve_point_check(cv, x, y);\n')],
  demo='\nint main(void) { ' + CV % 'secp256k1' + r'''mpECP_t G, Q; mpECP_init(G, cv); mpECP_init(Q, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); unsigned char b[65]; mpECP_out_bytes(b, G, 0); b[64] ^= 1; if (mpECP_set_bytes(Q, b, 65, cv) == 0) FAIL("a point off the curve is accepted"); return 0; }
'''),
dict(id='E01-key-bits', prop='E01', needs='a decryption key of another curve whose order is as long as the order of the ciphertext\'s curve', breaks='the orders are compared by length only: such a key aborts the process instead of being refused',
  edits=[('src/ecelgamal.c', '    if (mpz_cmp(sK->fp->p, ctxt->C->cvp->n) != 0) {\n', '    if (mpz_sizeinbase(sK->fp->p, 2) != mpz_sizeinbase(ctxt->C->cvp->n, 2)) {\n')],
  demo='\nint main(void) { close(2); ' + CV % 'secp256k1' + r'''mpECurve_t c2; mpECurve_init(c2); mpECurve_set_named(c2, "secp256r1"); mpECP_t G, Q; mpECP_init(G, cv); mpECP_init(Q, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpFp_t k; mpFp_init(k, c2->n); mpFp_set_ui(k, 5, c2->n);
  mpECElgamalCiphertext_t x; if (mpECElgamal_init_encrypt(x, G, G)) return 9; int st; pid_t p = fork(); if (!p) { _exit(mpECElgamal_init_decrypt(Q, k, x) == 0 ? 1 : 0); } waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) FAIL("a key of another curve is not refused"); return 0; }
'''),
dict(id='P02-keep-negated', prop='P02', needs='a point with a table that is overwritten by its negative', breaks='the table is kept when the new value has the same x and z, which the negative has',
  edits=[('src/ecpoint.c', 'void mpECP_set(mpECP_t rpt, mpECP_t pt) {\n    if (rpt->base_bits != 0) _mpECP_base_pts_cleanup(rpt);\n', 'void mpECP_set(mpECP_t rpt, mpECP_t pt) {\n    // the table is still good if it is the same point\n    if ((rpt->base_bits != 0) && ((rpt->cvp != pt->cvp) || (mpFp_cmp(rpt->x, pt->x) != 0) ||\n        (mpFp_cmp(rpt->z, pt->z) != 0))) _mpECP_base_pts_cleanup(rpt);\n')],
  demo='\nint main(void) { ' + CV % 'secp256k1' + r'''mpECP_t G, N, A, B; mpECP_init(G, cv); mpECP_init(N, cv); mpECP_init(A, cv); mpECP_init(B, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_neg(N, G); mpECP_scalar_base_mul_setup(G); mpECP_set(G, N); mpFp_t k; mpFp_init(k, cv->n); mpFp_set_ui(k, 77, cv->n); mpECP_scalar_base_mul(A, G, k); mpECP_scalar_mul(B, N, k); if (mpECP_cmp(A, B)) FAIL("a stale table is used"); return 0; }
'''),
dict(id='M01-decode-leak', prop='M01', needs='a compressed point on a twisted Edwards curve whose x has no y', breaks='two field elements are not released when the encoding is refused',
  edits=[('src/ecpoint.c', '                            mpFp_clear(x2);\n                            mpFp_clear(a);\n                            if (error != 0) {\n                                mpFp_clear(t);\n                                mpFp_clear(y);\n                                mpFp_clear(x);\n                                mpz_clear(xz);\n                                return -1;\n                            }\n', '                            if (error != 0) {\n                                mpFp_clear(t);\n                                mpFp_clear(y);\n                                mpFp_clear(x);\n                                mpz_clear(xz);\n                                return -1;\n                            }\n                            mpFp_clear(x2);\n                            mpFp_clear(a);\n')],
  inc='#include <malloc.h>\n',
  demo='\nint main(void) { ' + CV % 'Ed25519' + r'''mpECP_t Q; mpECP_init(Q, cv); mpECP_set_neutral(Q, cv); unsigned char b[33]; memset(b, 7, 33); b[0] = 2; int bad = 0; for (int i = 0; i < 40; i++) { b[32] = i; bad += mpECP_set_bytes(Q, b, 33, cv) != 0; } if (bad < 5) return 9; size_t u0 = mallinfo2().uordblks; for (int r = 0; r < 20; r++) for (int i = 0; i < 40; i++) { b[32] = i; mpECP_set_bytes(Q, b, 33, cv); } if (mallinfo2().uordblks > u0 + 4096) FAIL("refused points leak"); return 0; }
'''),
dict(id='D03-pad-r', prop='D03', needs='a signature one of whose values has two or more leading zero bytes', breaks='only the first byte of the padding is cleared in exported signatures',
  edits=[('src/ecdsa.c', '    for (i = shift - 1; i >= 0; i--) {\n        buffer[i] = 0;\n    }\n', '    buffer[0] = 0;\n')],
  demo='\nint main(void) { ' + SCH % 'secp256k1' + r'''unsigned char b[64]; memset(b, 0, 64); b[29] = 0x11; b[31] = 7; b[63] = 9; b[40] = 4; mpECDSASignature_t s; if (mpECDSASignature_init_import_bytes(s, S, b, 64)) return 9; void *x = malloc(64); memset(x, 0xEE, 64); free(x); size_t n; unsigned char *o = mpECDSASignature_export_bytes(s, &n); if (n != 64 || memcmp(o, b, 64)) FAIL("an exported signature differs from the imported one"); return 0; }
'''),
dict(id='C01-cmp-h', prop='C01', needs='two curves whose cofactors differ by a multiple of 2^32 only', breaks='such curves compare equal',
  edits=[('src/ecurve.c', '    r = mpz_cmp(op1->h, op2->h) ; if (r != 0) return r;\n', '    // cofactors are small\n    r = (int)mpz_get_ui(op1->h) - (int)mpz_get_ui(op2->h) ; if (r != 0) return r;\n')],
  demo=r'''
int main(void) { mpECurve_t a, b; mpECurve_init(a); mpECurve_init(b); mpECurve_set_named(a, "secp256k1"); mpz_t p, z, s, h; mpz_inits(p, z, s, h, NULL); mpz_set(p, a->fp->p); mpz_set_ui(s, 7); mpz_set_ui(h, 1); mpz_mul_2exp(h, h, 40); mpz_add_ui(h, h, 1); if (mpECurve_set_mpz_ws(b, p, z, s, a->n, h, a->G[0], a->G[1], 256)) return 9; if (mpECurve_cmp(a, b) == 0) FAIL("curves with different cofactors compare equal"); return 0; }
'''),
]

py = _m2.py
BUGS += [
py(id='Y01-sig-scheme', prop='Y01', needs='a signature that is used after the scheme which made it was dropped', breaks='signatures hold no reference to their scheme any more (neither taken nor given back), which can be gone while they are in use',
  edits=[('python/pyecdsa.c', '    Py_INCREF((PyObject *)ss);\n    self->ss = ss;\n', '    // the caller keeps the scheme\n    self->ss = ss;\n'), ('python/pyecdsa.c', '        mpECDSASignature_clear(self->sig);\n        Py_DECREF((PyObject *)self->ss);\n', '        mpECDSASignature_clear(self->sig);\n'),
         ('python/pyecdsa.c', '    psig->ss = ss;\n    Py_INCREF(ss);\n', '    psig->ss = ss;\n')],
  demo="""import sys, types, hashlib, ECC
m = types.ModuleType('h'); m.digest_size = 32
exec('import hashlib\\ndef new(d): return hashlib.sha256(d)', m.__dict__)
cv = ECC.ECurve('secp256k1'); n = sys.getrefcount(m); ss = ECC.ECDSASignatureScheme(cv, m); s = ss.Sign(5, 'x'); del ss
sys.exit(1 if sys.getrefcount(m) == n else 0)
"""),
py(id='Y02-key-size', prop='Y02', needs='signing with a field element modulo another number of the same length as the order', breaks='the order of the key is compared by length only: such a key kills the interpreter',
  edits=[('python/pyecdsa.c', '        if (mpz_cmp(kfe->fp->p, ss->sscheme->cvp->n) != 0) {\n', '        if (mpz_sizeinbase(kfe->fp->p, 2) != mpz_sizeinbase(ss->sscheme->cvp->n, 2)) {\n')],
  demo="""import sys, os, types, hashlib, ECC
m = types.ModuleType('h'); m.digest_size = 32
exec('import hashlib\\ndef new(d): return hashlib.sha256(d)', m.__dict__)
cv = ECC.ECurve('secp256k1'); ss = ECC.ECDSASignatureScheme(cv, m); k = ECC.FieldElement(5, 2**256 - 189); os.close(2); p = os.fork()
if p == 0:
    try: ss.Sign(k, 'x')
    except ValueError: os._exit(0)
    os._exit(1)
sys.exit(1 if os.waitpid(p, 0)[1] else 0)
"""),
py(id='Y02-tuple-field', prop='Y02', needs='a point made from two field elements of which only the second is of another field', breaks='only the field of x is checked, such a pair kills the interpreter',
  edits=[('python/pypoint.c', '                if ((((FieldElement *)ix)->fe->fp != ((ECurve *)curve)->ec->fp) || \n                    (((FieldElement *)iy)->fe->fp != ((ECurve *)curve)->ec->fp)) {\n', '                if (((FieldElement *)ix)->fe->fp != ((ECurve *)curve)->ec->fp) {\n')],
  demo="""import sys, os, ECC
cv = ECC.ECurve('secp256k1'); x = ECC.FieldElement(5, 2**256 - 2**32 - 977); y = ECC.FieldElement(5, 2**256 - 189); os.close(2); p = os.fork()
if p == 0:
    try: ECC.ECPoint(cv, (x, y))
    except ValueError: os._exit(0)
    os._exit(1)
sys.exit(1 if os.waitpid(p, 0)[1] else 0)
"""),
]
