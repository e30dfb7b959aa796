# planted bugs, batch 3: the Go binding
GOSH = '''#!/bin/sh
# runs in /repo after the build; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 99
mkdir -p "$T/src/ecgo" "$T/src/demo"; for f in ecgo/*.go; do case $f in *_test.go) ;; *) cp "$f" "$T/src/ecgo/";; esac; done; cp "$D/demo.go" "$T/src/demo/main.go"
[ -d /opt/vp/cache/go ] && cp -r /opt/vp/cache/go "$T/cache"
export GO111MODULE=off GOFLAGS= GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1 CC=gcc GOPATH=$T GOCACHE=$T/cache GOTMPDIR=$T HOME=$T
export CGO_CFLAGS="-O1 -w -I$R/include -DDEMO_TAG=0x$(cat include/ecc/*.h ecgo/*.go | cksum | cut -d' ' -f1)" CGO_LDFLAGS="-L$R/src/.libs" LD_LIBRARY_PATH=$R/src/.libs
(cd "$T" && go build -o demo.bin demo) || { rm -rf "$T"; exit 98; }
cd "$T" && MALLOC_PERTURB_=171 GLIBC_TUNABLES=glibc.malloc.perturb=171 timeout 250 ./demo.bin; S=$?
cd /; chmod -R u+w "$T"; rm -rf "$T"; exit $S
'''
HEAD = '''package main
import ("ecgo"; "fmt"; "math/big"; "os"; "runtime"; "time"; "bytes"; "crypto/sha256"; "hash")
var _ = bytes.Equal; var _ = sha256.New; var _ hash.Hash; var _ = time.Now; var _ = big.NewInt; var _ = ecgo.NamedCurve
func fail(s string) { fmt.Println(s); os.Exit(1) }
func gc() { for i := 0; i < 8; i++ { runtime.GC(); time.Sleep(5 * time.Millisecond) } }
var _ = fail; var _ = gc
'''
def go(id, prop, needs, breaks, edits, demo): return dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, sh=GOSH, extra={'demo.go': HEAD + demo})
BUGS = [
go('G01-neg-curve', 'G01', 'a receiver on an equal but distinct curve object, the operand and its curve dropped, and a collection',
 'Neg keeps the curve of the receiver when it is equal to that of the operand, the library refers to the other one',
 [('ecgo/point.go', '	C.mpECP_neg(z.ecp, a.ecp)\n	runtime.KeepAlive(a)\n	z.cv = a.cv\n', '	C.mpECP_neg(z.ecp, a.ecp)\n	same := z.cv.Cmp(a.cv) == 0\n	runtime.KeepAlive(a)\n	if !same {\n		z.cv = a.cv\n	}\n')],
 '''
func other(z *ecgo.Point) { c := ecgo.NamedCurve("Curve25519"); a := ecgo.NewPointGenerator(c); z.Neg(a) }
func main() { c := ecgo.NamedCurve("Curve25519"); z := ecgo.NewPointNeutral(c); other(z); want := ecgo.NewPointNeutral(c); want.Neg(ecgo.NewPointGenerator(c)); gc()
 for i := 0; i < 50; i++ { n := ecgo.NamedCurve("secp256k1"); _ = n }
 x, y := z.Affine(); u, v := want.Affine(); if x.Cmp(u) != 0 || y.Cmp(v) != 0 { fail("the negated point changed after a collection") }; z.Add(z, want); runtime.KeepAlive(c) }
'''),
go('G01-ciphertext-curve', 'G01', 'a ciphertext made of points on two equal but distinct curve objects, the first of them dropped, and a collection',
 'a ciphertext built from points keeps the curve of its second point alive, the first refers to its own',
 [('ecgo/ecelgamal.go', '	ctxt.cv = c.cv\n', '	ctxt.cv = d.cv\n')],
 '''
func mk(d *ecgo.Point) *ecgo.ECElgamalCiphertext { k := ecgo.NamedCurve("secp112r1"); return ecgo.NewECElgamalCiphertext(ecgo.NewPointGenerator(k), d) }
func main() { c := ecgo.NamedCurve("secp112r1"); d := ecgo.NewPointGenerator(c); e := mk(d); gc()
 for i := 0; i < 50; i++ { n := ecgo.NamedCurve("secp256k1"); _ = n }
 x, _ := e.C().Affine(); u, _ := d.Affine(); if x.Cmp(u) != 0 { fail("the ciphertext changed") }
 p := e.Decrypt(big.NewInt(5)); want := ecgo.NewPointNeutral(c); want.Mul(d, big.NewInt(4)); want.Neg(want); if p == nil || p.Cmp(want) != 0 { fail("wrong plaintext") }; runtime.KeepAlive(c) }
'''),
go('G01-digest-buffer', 'G01', 'two goroutines signing with schemes of their own at the same time',
 'all signature operations share one C buffer for the digest',
 [('ecgo/ecdsa.go', '	mhash := C.CBytes(ss.h.Sum(nil))\n	// ghash', '	digest := ss.h.Sum(nil)\n	if len(digest) > len(digestbuf) {\n		return nil\n	}\n	copy(digestbuf[:], digest)\n	// ghash'),
  ('ecgo/ecdsa.go', 'C._toUCP(mhash), hsz)\n	runtime.KeepAlive(sKfe)', 'C._toUCP(unsafe.Pointer(&digestbuf[0])), hsz)\n	runtime.KeepAlive(sKfe)'),
  ('ecgo/ecdsa.go', '	runtime.KeepAlive(ss)\n	C.free(mhash)\n	if status != C.int(0) {\n		C.free_ECDSASignature(sig.csig)\n		return nil\n	}\n	sig.ss = ss\n', '	runtime.KeepAlive(ss)\n	if status != C.int(0) {\n		C.free_ECDSASignature(sig.csig)\n		return nil\n	}\n	sig.ss = ss\n'),
  ('ecgo/ecdsa.go', 'type ECDSASignature struct {', '// the digest of the message on its way to the library\nvar digestbuf [64]byte\n\ntype ECDSASignature struct {')],
 '''
func main() { ch := make(chan bool, 8)
 for w := 0; w < 4; w++ { go func(w int) { ok := true; c := ecgo.NamedCurve("secp112r1"); s := ecgo.NewECDSASignatureScheme(c, sha256.New()); k := big.NewInt(int64(1000 + w)); pk := ecgo.NewPointNeutral(c); pk.Mul(ecgo.NewPointGenerator(c), k); t0 := time.Now()
   for i := 0; i < 200000 && time.Since(t0) < 20*time.Second && ok; i++ { m := []byte(fmt.Sprintf("message %d of %d", i, w)); g := s.Sign(k, m); if g == nil || !g.Verify(pk, m) { ok = false } }; ch <- ok }(w) }
 for w := 0; w < 4; w++ { if !<-ch { fail("a signature made while another goroutine signs does not verify") } } }
'''),
go('G01-scheme-copy', 'G01', 'a signature made from bytes that outlives its scheme, and a collection',
 'an imported signature keeps a copy of the scheme object instead of the scheme, so the C scheme is released under it',
 [('ecgo/ecdsa.go', '	sig.csig = C.malloc_ECDSASignature()\n	sig.ss = ss\n', '	sig.csig = C.malloc_ECDSASignature()\n	sig.ss = &ECDSASignatureScheme{ss.css, ss.cv, ss.h}\n')],
 '''
func imp(c *ecgo.Curve, b []byte) *ecgo.ECDSASignature { s := ecgo.NewECDSASignatureScheme(c, sha256.New()); return s.SignatureFromBytes(b) }
func main() { c := ecgo.NamedCurve("secp256k1"); s := ecgo.NewECDSASignatureScheme(c, sha256.New()); k := big.NewInt(77777); pk := ecgo.NewPointNeutral(c); pk.Mul(ecgo.NewPointGenerator(c), k)
 m := []byte("message"); b := s.Sign(k, m).AsBytes(); g := imp(c, b); gc(); for i := 0; i < 50; i++ { n := ecgo.NewECDSASignatureScheme(ecgo.NamedCurve("secp112r1"), sha256.New()); _ = n }
 if !g.Verify(pk, m) { fail("an imported signature does not verify after its scheme was dropped") }; if !bytes.Equal(g.AsBytes(), b) { fail("an imported signature changed") } }
'''),
go('G02-scalar-reduced', 'G02', 'a scalar longer than the order of the curve',
 'multiplication reduces a long scalar in place',
 [('ecgo/point.go', '	C.mpz_init(&bmpz)\n	bigint_to_c_mpz_signed(&bmpz, b)\n\n', '	C.mpz_init(&bmpz)\n	if n := a.cv.GetAttr("n"); b.BitLen() > n.BitLen() {\n		b.Mod(b, n)\n	}\n	bigint_to_c_mpz_signed(&bmpz, b)\n\n')],
 '''
func main() { c := ecgo.NamedCurve("secp112r1"); k := new(big.Int).Lsh(big.NewInt(12345), 200); s := k.String(); p := ecgo.NewPointNeutral(c); p.Mul(ecgo.NewPointGenerator(c), k); if k.String() != s { fail("the scalar was modified") } }
'''),
go('G02-digest-append', 'G02', 'a message that is a slice of a longer buffer of the caller',
 'the digest is appended to the message slice, which overwrites what follows it in the buffer of the caller',
 [('ecgo/ecdsa.go', '	sig.ss.h.Write(message)\n	mhash := C.CBytes(sig.ss.h.Sum(nil))\n', '	sig.ss.h.Write(message)\n	mhash := C.CBytes(sig.ss.h.Sum(message[len(message):]))\n')],
 '''
func main() { c := ecgo.NamedCurve("secp112r1"); s := ecgo.NewECDSASignatureScheme(c, sha256.New()); k := big.NewInt(5); pk := ecgo.NewPointNeutral(c); pk.Mul(ecgo.NewPointGenerator(c), k)
 buf := bytes.Repeat([]byte("all of this belongs to the caller "), 20); w := append([]byte(nil), buf...); g := s.Sign(k, buf[:10]); if g == nil || !g.Verify(pk, buf[:10]) { fail("refused") }; if !bytes.Equal(buf, w) { fail("the buffer around the message was modified") } }
'''),
go('G02-exp-narrow', 'G02', 'an exponent of 2^32 or more',
 'exponents are truncated to 32 bits',
 [('ecgo/field.go', 'C.mpFp_pow_ui(z.fe, a.fe, C.ulong(e))', 'C.mpFp_pow_ui(z.fe, a.fe, C.ulong(C.uint(e)))')],
 '''
func main() { p := big.NewInt(1000003); z := ecgo.NewFieldElement(big.NewInt(7), p); e := uint64(1)<<40 + 12345; a := ecgo.NewFieldElement(big.NewInt(7), p); z.Exp(a, e); if z.AsInt().Cmp(new(big.Int).Exp(big.NewInt(7), new(big.Int).SetUint64(e), p)) != 0 { fail("wrong power") } }
'''),
go('G02-negative-zero-order', 'G02', 'a negative operand whose absolute value needs more bytes than the machine word and ends in zero bytes',
 'trailing zero bytes of a negative operand are dropped when it is converted',
 [('ecgo/field.go', '	if len(abytes) == 0 {\n		C.mpz_set_ui(m, 0)\n	} else {\n		C.mpz_import(m, C.size_t(len(abytes)), 1, C.sizeof_char, 1, 0, unsafe.Pointer(&abytes[0]))\n	}\n\n	if negative {\n		C.mpz_neg(m, m)\n	}\n', '	zeros := 0\n	for len(abytes) > 8 && abytes[len(abytes)-1] == 0 {\n		abytes = abytes[:len(abytes)-1]\n		zeros++\n	}\n	if len(abytes) == 0 {\n		C.mpz_set_ui(m, 0)\n	} else {\n		C.mpz_import(m, C.size_t(len(abytes)), 1, C.sizeof_char, 1, 0, unsafe.Pointer(&abytes[0]))\n	}\n\n	if negative {\n		C.mpz_neg(m, m)\n	} else if zeros > 0 {\n		C.mpz_mul_2exp(m, m, C.mp_bitcnt_t(8*zeros))\n	}\n')],
 '''
func main() { p, _ := new(big.Int).SetString("1000000000000000000000000000000000000000000000000000000000000000000000007", 10); v := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(0x123456789), 80)); z := ecgo.NewFieldElement(v, p); if z.AsInt().Cmp(new(big.Int).Mod(v, p)) != 0 { fail("wrong value of a negative operand") } }
'''),
]
