# planted bugs, batch 6: the command-line programs, through the library
import importlib.util as _u, os as _o
def _ld(n):
    s = _u.spec_from_file_location(n, _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), n + '.py')); m = _u.module_from_spec(s); s.loader.exec_module(m); return m
_m1 = _ld('bugs_1'); _m2 = _ld('bugs_2')
PRE = _m1.PRE; DEV = _m1.DEV; MAL = _m2.MAL
CV = 'mpECurve_t cv; mpECurve_init(cv); mpECurve_set_named(cv, "%s"); '
SCH = CV + 'mpECDSAHashfunc_t H; H->dohash = badhash; H->hsz = 32; mpECDSASignatureScheme_t S; mpECDSASignatureScheme_init(S, cv, H); '
SHX = '''#!/bin/sh
# runs in /repo after the build; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 99
gcc -O1 -w -shared -fPIC -o "$T/shim.so" "$D/shim.c" -ldl || { rm -rf "$T"; exit 98; }
LD_LIBRARY_PATH=$PWD/src/.libs; export LD_LIBRARY_PATH; P=$PWD/examples/.libs/ecdh_gen; [ -x "$P" ] || P=$PWD/examples/ecdh_gen
cd "$T"; timeout 60 "$P" --curve=secp256k1 > key0 2>/dev/null; R0=$?
(LD_PRELOAD="$T/shim.so" timeout 60 "$P" --curve=secp256k1 > key1 2>/dev/null); R1=$?
R=0; if [ $R0 != 0 ] || [ ! -s key0 ]; then echo "the program does not work"; R=97; elif [ $R1 = 0 ] && [ -s key1 ]; then echo "a key was written although the random device failed"; R=1; fi
cd /; rm -rf "$T"; exit $R
'''
SHIM1 = '''#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
FILE *fopen(const char *n, const char *m) { FILE *(*f)(const char *, const char *) = dlsym(RTLD_NEXT, "fopen"); if (!strcmp(n, "/dev/urandom")) { errno = EMFILE; return NULL; } return f(n, m); }
'''
SHIM2 = '''#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
static FILE *dev;
FILE *fopen(const char *n, const char *m) { FILE *(*f)(const char *, const char *) = dlsym(RTLD_NEXT, "fopen"); FILE *r = f(n, m); if (!strcmp(n, "/dev/urandom")) dev = r; return r; }
size_t fread(void *p, size_t s, size_t n, FILE *h) { size_t (*f)(void *, size_t, size_t, FILE *) = dlsym(RTLD_NEXT, "fread"); if (h == dev && s * n > 7) { n = 7 / s; } return f(p, s, n, h); }
'''
BUGS = [
dict(id='X01-device-fallback', prop='X01', needs='a random device that cannot be opened', breaks='the C library\'s generator takes its place: keys and ciphertexts are reported as written although they are predictable',
  edits=[('src/mpzurandom.c', '    assert(f != NULL);\n', '    if (f == NULL) {\n        // not available in a restricted environment, use the best there is\n        return NULL;\n    }\n'), ('src/mpzurandom.c', '    sz_read = fread(buffer, sizeof(char), bytes, f_urandom);\n', '    if (f_urandom != NULL) {\n        sz_read = fread(buffer, sizeof(char), bytes, f_urandom);\n    } else {\n        for (sz_read = 0; sz_read < bytes; sz_read++) buffer[sz_read] = (char)random();\n    }\n')],
  sh=SHX, extra={'shim.c': SHIM1}),
dict(id='X01-device-end', prop='X01', needs='a random device that ends early', breaks='the bytes missing are taken from the start of the buffer',
  edits=[('src/mpzurandom.c', '    assert(sz_read == bytes);\n', '    assert(sz_read > 0);\n    // the device can return less than asked for\n    for (; sz_read < bytes; sz_read++) buffer[sz_read] = buffer[0] ^ sz_read;\n')],
  sh=SHX, extra={'shim.c': SHIM2}),
dict(id='X02-long-sig', prop='X02', needs='a signature with bytes appended', breaks='accepted',
  edits=[('src/ecdsa.c', '    if (sz != (sscheme->nsz << 1)) {\n', '    if (sz < (sscheme->nsz << 1)) {\n')], demo=r'''
int main(void) { ''' + SCH % 'secp256k1' + r'''
  unsigned char m[8] = "message"; mpFp_t d; mpFp_init(d, cv->n); mpFp_set_ui(d, 12345, cv->n); mpECP_t Q, G; mpECP_init(Q, cv); mpECP_init(G, cv); mpECP_set_mpz(G, cv->G[0], cv->G[1], cv); mpECP_scalar_mul(Q, G, d);
  mpECDSASignature_t sig, s2; mpECDSASignature_init_Sign(sig, S, d, m, 7); size_t n; unsigned char *b = mpECDSASignature_export_bytes(sig, &n), c[200]; memset(c, 7, sizeof c); memcpy(c, b, n);
  if (mpECDSASignature_init_import_bytes(s2, S, c, n) != 0) FAIL("genuine signature refused"); if (mpECDSASignature_init_import_bytes(s2, S, c, n + 6) == 0) FAIL("a signature with bytes appended was accepted"); return 0; }
'''),
dict(id='X02-gen-check', prop='X02', needs='a key file with a generator off its curve', breaks='used',
  edits=[('src/ecurve.c', '    mpz_set(cv->G[1], Gy);\n    cv->bits = bits;\n    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);\n    return status;\n}\n\nint mpECurve_set_mpz_ed(', '    mpz_set(cv->G[1], Gy);\n    cv->bits = bits;\n    status = 0;\n    return status;\n}\n\nint mpECurve_set_mpz_ed(')], demo=r'''
int main(void) { ''' + CV % 'secp256k1' + r'''
  mpECurve_t c2; mpECurve_init(c2); mpz_t a, b, y; mpz_init(a); mpz_init(b); mpz_init(y); mpz_set_mpFp(a, cv->coeff.ws.a); mpz_set_mpFp(b, cv->coeff.ws.b); mpz_add_ui(y, cv->G[1], 5);
  if (mpECurve_set_mpz_ws(c2, cv->fp->p, a, b, cv->n, cv->h, cv->G[0], cv->G[1], 256) != 0) FAIL("proper curve refused"); if (mpECurve_set_mpz_ws(c2, cv->fp->p, a, b, cv->n, cv->h, cv->G[0], y, 256) == 0) FAIL("a generator off the curve was accepted"); return 0; }
'''),
]
