"""Simulation of the Python binding: random object histories with drops, collections and re-entrant hash
callbacks (Y01), and histories with injected failures - refused interpreter allocations, wrong types and
curves, malformed encodings, misbehaving hash modules - with exact accounting of blocks and references (Y02)."""
import ctypes, gc, glob, hashlib, os, subprocess, sys, types
import refec
from pycore import Violation, HarnessError
VARIANT = 'py'; ASAN = False
PYINC = '/usr/include/python3.12'
WRAPS = 'malloc calloc realloc free strdup strndup fopen fopen64 fdopen open open64 read close getrandom getentropy'.split()

def _build(d, repo, asan):
    import sysconfig
    inc = sysconfig.get_paths()['include']; here = os.path.dirname(os.path.abspath(__file__))
    cf = ['-O1', '-g', '-fPIC', '-w', '-I' + inc, '-I' + repo + '/include', '-I' + repo + '/python'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'] if asan else [])
    src = sorted(glob.glob(repo + '/python/*.c') + glob.glob(repo + '/src/*.c')) + [os.path.join(here, 'pyseam.c')]
    ps = []; obj = []
    for s in src:
        o = os.path.join(d, os.path.basename(s) + '.o'); obj.append(o)
        # the accounting itself must not be instrumented
        f = cf if not s.endswith('pyseam.c') else ['-O1', '-g', '-fPIC', '-w']
        ps.append((s, subprocess.Popen(['gcc', '-c', s, '-o', o] + f, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in ps:
        out, _ = p.communicate()
        if p.returncode: return 'compiling %s failed: %s' % (s, out[-1500:])
    p = subprocess.run(['gcc', '-shared', '-o', os.path.join(d, 'ECC.so')] + (['-fsanitize=address,undefined'] if asan else []) + obj + ['-Wl,--wrap=' + w for w in WRAPS] + ['-lgmp', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return 'linking failed: ' + p.stdout[-1500:] if p.returncode else None
def build(d, repo): return _build(d, repo, ASAN)
def environment(d):
    return {'PYTHONPATH': d, 'PYTHONMALLOC': 'debug'}
ECC = lib = tc = None; PATH = None
def setup(d):
    global ECC, lib, tc
    sys.path.insert(0, d); import ECC as E; ECC = E
    if not os.path.samefile(E.__file__, os.path.join(d, 'ECC.so')): raise HarnessError('wrong extension ' + E.__file__)
    lib = ctypes.CDLL(E.__file__); lib.sim_seed.argtypes = [ctypes.c_uint64]; lib.sim_live.restype = ctypes.c_long
    import _testcapi; tc = _testcapi
    refec.named(); refec.small(); _hashmods(); gc.collect(); gc.disable()

# ---- hash modules the scheme objects call back into
HM = {}
class _H:
    __slots__ = ('b', 'm')
    def __init__(s, m, b): s.m, s.b = m, b
    def digest(s):
        f = s.m.sim_digest
        if f is not None: return f(s.b)
        return s.m.sim_raw(s.b)
def _hashmods():
    def mk(name, size, raw):
        m = types.ModuleType('simhash_' + name); m.digest_size = size; m.sim_raw = raw; m.sim_hook = None; m.sim_digest = None; m.size = size
        exec('def new(data=None):\n    h = M.sim_hook\n    if h is not None: h(data)\n    return H(M, data)\n', dict(M=m, H=_H), m.__dict__)
        m.sim_new = m.new; HM[name] = m
    for n, s in (('sha1', 20), ('sha256', 32), ('sha512', 64)): mk(n, s, lambda b, n=n: hashlib.new(n, b).digest())
    mk('xof5', 5, lambda b: hashlib.shake_128(b).digest(5)); mk('xof200', 200, lambda b: hashlib.shake_128(b).digest(200))

class Obj:
    __slots__ = ('kind', 'o', 'm', 'ref', 'dup')
    def __init__(s, kind, o, m): s.kind, s.o, s.m = kind, o, m
PRIMES = [3, 5, 7, 251, 257, 65537, (1 << 61) - 1, (1 << 64) - 59, (1 << 127) - 1, (1 << 521) - 1, (1 << 1024) - 105]

class World:
    def __init__(w, c, faults=False):
        w.c = c; w.pool = []; w.depth = 0; w.faults = faults; w.nops = 0
        lib.sim_seed(c.bits(48))
        nm = list(refec.named().values()); sm = refec.small()
        w.curves = [c.pick(sm) for _ in range(1 + c.choose(2))] + ([c.pick(nm)] if c.chance(0.5) else [])
        w.primes = [PRIMES[c.choose(len(PRIMES))] for _ in range(2)] + [cv.n for cv in w.curves] + [w.curves[0].p]
        w.cap = 10 + c.choose(20); w.heavy = 0
    # ---- values
    def read(w, ob, o=None):
        """the value of a binding object, read through its public interface, in the form of the model"""
        k, o = ob.kind, ob.o if o is None else o
        if k == 'fe': return (int(o), ob.m[1])
        if k == 'cv':
            t = {v: k2 for k2, v in refec.FACT.items()}[o.ctype]; a, b = refec.COEF[t]; g = o.G
            return (t, o.p, getattr(o, a), getattr(o, b), o.n, o.h, g)
        if k == 'pt': return w.readpt(o, ob.m[0])
        if k == 'sig': b = o.AsBytes(); n = len(b) // 2; return (int.from_bytes(b[:n], 'big'), int.from_bytes(b[n:], 'big'))
        if k == 'ct': return (w.readpt(o.C, ob.m[0]), w.readpt(o.D, ob.m[0]))
        return None
    def readpt(w, o, cv):
        b = o.uncompressed()
        if not any(b): return cv.neutral()
        ok, P = cv.decode(b)
        if not ok: w.c.fail('off-curve', 'a point object exports %s, which is not on %s' % (b.hex(), cv.name))
        return P
    def model(w, ob):
        if ob.kind == 'cv': return ob.m.key()
        if ob.kind in ('fe',): return ob.m
        if ob.kind == 'pt': return ob.m[1]
        if ob.kind == 'sig': return ob.m[2:4]
        if ob.kind == 'ct': return ob.m[1:3]
        return None
    def verify(w, ob, why):
        if ob.kind == 'ss': return
        v = w.read(ob)
        if v != w.model(ob): w.c.fail('value', '%s: a %s has the value %s, the model says %s' % (why, ob.kind, _h(v), _h(w.model(ob))))
    def verify_some(w, why, n):
        for _ in range(n):
            if w.pool: w.verify(w.pool[w.c.choose(len(w.pool))], why)
    def verify_all(w, why):
        for ob in list(w.pool): w.verify(ob, why)
    def of(w, kind, pred=None):
        l = [x for x in w.pool if x.kind == kind and (pred is None or pred(x))]
        return w.c.pick(l) if l else None
    def add(w, kind, o, m):
        ob = Obj(kind, o, m)
        if len(w.pool) >= w.cap: w.drop()
        w.pool.append(ob); w.c.state(kind, _small(w.model(ob))); return ob
    def drop(w):
        c = w.c
        if not w.pool: return
        i = c.choose(len(w.pool)); c.log('drop %s' % w.pool[i].kind); del w.pool[i]; c.count('fault.drop')
        if c.chance(0.3): gc.collect(); c.count('fault.collect')
    # ---- operand sources
    def integer(w, p=None):
        c = w.c; p = p or w.c.pick(w.primes)
        k = c.choose(12)
        if k == 0: return c.choose(16)
        if k == 1: return -c.choose(16) - 1
        if k == 2: return p + c.choose(3) - 1
        if k == 3: return -p + c.choose(3) - 1
        if k == 4: return c.below(p)
        if k == 5: return -c.below(p)
        if k == 6: return c.bits(c.pick([8, 64, 256, 512]))
        if k == 7: return -(1 << (8 * (1 + c.choose(40)))) + c.choose(3) - 1
        if k == 8: return (1 << (8 * (1 + c.choose(40)) - c.choose(2))) + c.choose(3) - 1
        if k == 9: c.count('probe.huge_int'); return (c.bits(c.pick([2000, 2040, 2048, 2056, 4096])) | 1 << 1990) * (1 if c.chance(0.5) else -1)
        if k == 10: return p * c.choose(1000) + c.choose(5) - 2
        c.count('probe.huge_int'); return (1 if c.chance(0.5) else -1) * ((1 << (2032 + 8 * c.choose(5) + c.choose(8))) - c.choose(3))
    def point(w, cv):
        c = w.c; k = c.choose(6)
        if k == 0: return cv.neutral()
        if k == 1: return cv.g
        if k == 2: return cv.neg(cv.g)
        return cv.mul(cv.g, c.below(cv.n))
    def text(w, cv, P):
        comp = w.c.chance(0.5); b = cv.encode(P, comp)
        s = b.hex()
        return (s.upper() if w.c.chance(0.5) else s), b
    def newcurve(w, cv):
        c = w.c
        if cv.name in refec.named() and c.chance(0.5): o = ECC.ECurve(cv.name)
        else: o = getattr(ECC.ECurve, refec.FACT[cv.type])(cv.p, cv.u, cv.v, cv.n, cv.h, cv.g[0], cv.g[1], cv.bits)
        return w.add('cv', o, cv)
    def curve(w, cv=None):
        ob = w.of('cv', (lambda x: x.m.key() == cv.key()) if cv else None)
        if ob is None or w.c.chance(0.15): ob = w.newcurve(cv or w.c.pick(w.curves))
        return ob
    def newpoint(w, cv=None):
        c = w.c; co = w.curve(cv); cv = co.m; P = w.point(cv); k = c.choose(5)
        if P is None: k = c.choose(3)
        if k == 0 or (P == cv.neutral() and k == 1): P = cv.neutral() if k == 0 else P; o = ECC.ECPoint(co.o) if P == cv.neutral() else None
        elif k == 1: o = ECC.ECPoint(co.o, w.text(cv, P)[0])
        elif k == 2: o = ECC.ECPoint(co.o, w.text(cv, P)[1])
        elif k == 3: o = ECC.ECPoint(co.o, (P[0] + cv.p * c.choose(3) - cv.p * c.choose(2), P[1]))
        else: o = ECC.ECPoint(co.o, (ECC.FieldElement(P[0], cv.p), ECC.FieldElement(P[1] - cv.p, cv.p)))
        return w.add('pt', o, (cv, P))
    def pt(w, cv=None):
        ob = w.of('pt', (lambda x: x.m[0].key() == cv.key()) if cv else None)
        return ob if ob is not None and w.c.chance(0.85) else w.newpoint(cv)
    def newfe(w, p=None):
        p = p or w.c.pick(w.primes); i = w.integer(p); return w.add('fe', ECC.FieldElement(i, p), (i % p, p))
    def fe(w, p=None):
        ob = w.of('fe', (lambda x: x.m[1] == p) if p else None)
        return ob if ob is not None and w.c.chance(0.8) else w.newfe(p)
    def big(w, cv):
        """tables for a large curve take long: only some of them in a run"""
        if cv.p.bit_length() < 100: return False
        w.heavy += 1; return w.heavy > (3 if ASAN else 8)
    def scheme(w):
        ob = w.of('ss')
        if ob is not None and (w.c.chance(0.85) or w.big(ob.m[0])): return ob
        co = w.curve(); h = w.c.pick(sorted(HM)); return w.add('ss', ECC.ECDSASignatureScheme(co.o, HM[h]), (co.m, h))
    def message(w):
        c = w.c; n = c.pick([1, 3, 20, 64, 200, 3000])
        if c.chance(0.4): return ''.join(chr(c.pick([65, 0xe9, 0x4e2d, 0x1f600, 0x7f, 1])) for _ in range(min(n, 40)))
        return c.bytes(min(n, 40)) * (n // 40 + 1)
    @staticmethod
    def mb(m): return m if isinstance(m, bytes) else m.encode('utf-8')

def _h(v):
    if isinstance(v, int): return hex(v)
    if isinstance(v, (tuple, list)): return '(' + ', '.join(_h(x) for x in v) + ')'
    if isinstance(v, bytes): return v.hex()[:120]
    return str(v)[:300]
def _small(v):
    if isinstance(v, int): return v if abs(v) < 1 << 16 else v % 65521
    if isinstance(v, tuple): return tuple(_small(x) for x in v)
    return v

# ---- operations: each returns after checking its result
def op_fe_bin(w):
    c = w.c; a = w.fe(); p = a.m[1]; k = c.choose(3); side = c.choose(3)
    if side == 0: b = w.fe(p) if c.chance(0.8) else a; x, y, u, v = a.o, b.o, a.m[0], b.m[0]
    else:
        i = w.integer(p)
        if i == 1 and c.chance(0.1): i = True
        x, y, u, v = (a.o, i, a.m[0], int(i)) if side == 1 else (i, a.o, int(i), a.m[0])
    r = x + y if k == 0 else x - y if k == 1 else x * y
    want = (u + v if k == 0 else u - v if k == 1 else u * v) % p
    c.log('fe %d %d' % (k, side)); ob = w.add('fe', r, (want, p)); w.verify(ob, 'field %s (%s, %s) mod %s' % ('+-*'[k], _h(u), _h(v), hex(p)))
def op_fe_un(w):
    c = w.c; a = w.fe(); u, p = a.m; k = c.choose(6)
    c.log('feun %d' % k)
    if k == 0: r, want = -a.o, -u % p
    elif k == 1:
        r = a.o.inverse()
        if u == 0: c.check(r is None, 'value', 'the inverse of 0 exists'); return
        want = pow(u, -1, p)
    elif k == 2:
        r = a.o.sqrt(); t = refec.sqrtp(u, p)
        if t is None: c.check(r is None, 'value', 'sqrt of the non-residue %s mod %s exists' % (hex(u), hex(p))); return
        c.check(r is not None, 'value', 'sqrt of the residue %s mod %s reported missing' % (hex(u), hex(p)))
        v = int(r); c.check(v * v % p == u and v < p, 'value', 'sqrt(%s) mod %s = %s' % (hex(u), hex(p), hex(v))); want = v
    elif k == 3:
        e = c.pick([0, 1, 2, 3, 255, 65537, c.bits(32), c.bits(64), p - 1 if p < 1 << 64 else 5]); r, want = a.o ** e, pow(u, e, p)
    elif k == 4:
        s = repr(a.o); r = eval(s, {'ECC': ECC}); want = u
        c.check(s == 'ECC.FieldElement(%d, %d)' % (u, p), 'value', 'repr %s of %s mod %s' % (s[:300], u, p))
    else: r = ECC.FieldElement(a.o.__int__(), p); want = u
    ob = w.add('fe', r, (want, p)); w.verify(ob, 'field operation %d of %s mod %s' % (k, hex(u), hex(p)))
def op_fe_eq(w):
    c = w.c; a = w.fe(); b = w.fe(a.m[1]) if c.chance(0.8) else w.fe(); same = a.m == b.m
    c.log('feeq'); c.check((a.o == b.o) == same and (a.o != b.o) == (not same), 'value', 'equality of %s and %s' % (_h(a.m), _h(b.m)))
    i = c.pick([a.m[0], (a.m[0] + 1) % a.m[1], 0])
    c.check((a.o == i) == (a.m[0] == i) and (a.o != i) == (a.m[0] != i) and (i == a.o) == (a.m[0] == i), 'value', 'equality of %s and the integer %s' % (_h(a.m), hex(i)))
    for x in (None, 1.5, 'x', w): c.check(not (a.o == x) and a.o != x, 'value', 'a field element equals %r' % (x,))
def op_fe_random(w):
    p = w.c.pick(w.primes); o = ECC.FieldElement.urandom(p); v = int(o); w.c.log('ferandom')
    w.c.check(0 <= v < p, 'value', 'a random element of F_%s is %s' % (hex(p), _h(v))); w.add('fe', o, (v, p))
def op_cv(w):
    c = w.c; a = w.curve(); k = c.choose(5); c.log('cv %d' % k)
    if k == 0: w.verify(w.newcurve(c.pick(w.curves)), 'new curve')
    elif k == 1:
        b = w.curve(); same = a.m.key() == b.m.key() and a.o.bits == b.o.bits
        c.check((a.o == b.o) == same and (a.o != b.o) == (not same), 'value', 'equality of curves %s and %s' % (a.m.name, b.m.name)); c.check(not (a.o == 5), 'value', 'a curve equals 5')
    elif k == 2:
        cv = a.m; P = w.point(cv) or cv.g; x, y = P
        if c.chance(0.5): y = c.pick([(y + 1) % cv.p, 0, c.below(cv.p), x])
        c.check(a.o.PointIsValid(x, y) == cv.on((x, y)), 'value', 'PointIsValid(%s, %s) on %s' % (hex(x), hex(y), cv.name))
    elif k == 3: w.verify(w.add('cv', eval(repr(a.o), {'ECC': ECC}), a.m), 'curve made from its repr')
    else: c.check(a.o.bits == a.m.bits, 'value', 'bits of %s: %d' % (a.m.name, a.o.bits)); w.verify(a, 'curve')
def op_pt_bin(w):
    c = w.c; a = w.pt(); cv = a.m[0]; b = w.pt(cv) if c.chance(0.85) else a; k = c.choose(2); c.log('pt %d' % k)
    r = a.o + b.o if k == 0 else a.o - b.o; want = (cv.add if k == 0 else cv.sub)(a.m[1], b.m[1])
    ob = w.add('pt', r, (cv, want)); w.verify(ob, 'point %s of %s and %s on %s' % ('+-'[k], _h(a.m[1]), _h(b.m[1]), cv.name))
def op_pt_mul(w):
    c = w.c; a = w.pt(); cv = a.m[0]; c.log('mul')
    if c.chance(0.2) and not w.big(cv): a.o.setup_basemult()
    if c.chance(0.5): f = w.fe(cv.n if c.chance(0.7) else None); k, x = f.m[0], f.o
    else: k = x = w.integer(cv.n)
    r = a.o * x if c.chance(0.5) else x * a.o
    ob = w.add('pt', r, (cv, cv.mul(a.m[1], k))); w.verify(ob, '%s times %s on %s' % (_h(k), _h(a.m[1]), cv.name))
def op_pt_un(w):
    c = w.c; a = w.pt(); cv, P = a.m; k = c.choose(7); c.log('ptun %d' % k)
    if k == 0: ob = w.add('pt', -a.o, (cv, cv.neg(P))); w.verify(ob, 'negation of %s on %s' % (_h(P), cv.name))
    elif k == 1:
        s = str(a.o); c.check(s == cv.encode(P, True).hex().upper(), 'value', 'str of %s on %s is %s' % (_h(P), cv.name, s))
        b = a.o.compressed(); c.check(b == cv.encode(P, True), 'value', 'compressed form of %s on %s is %s' % (_h(P), cv.name, b.hex()))
        b = a.o.uncompressed(); c.check(b == cv.encode(P, False), 'value', 'uncompressed form of %s on %s is %s' % (_h(P), cv.name, b.hex()))
    elif k == 2 and P is not None: c.check(a.o.affine() == P, 'value', 'affine() of %s on %s is %s' % (_h(P), cv.name, _h(a.o.affine())))
    elif k == 3: b = w.pt(cv) if c.chance(0.5) else w.pt(); same = b.m[0].key() == cv.key() and b.m[1] == P; c.check((a.o == b.o) == same and (a.o != b.o) == (not same), 'value', 'equality of points %s on %s and %s on %s' % (_h(P), cv.name, _h(b.m[1]), b.m[0].name))
    elif k == 4 and w.big(cv): pass
    elif k == 4: a.o.setup_basemult()
    elif k == 5: ob = w.add('pt', eval(repr(a.o), {'ECC': ECC}), a.m); w.verify(ob, 'point made from its repr')
    else:
        co = w.curve(); o = ECC.ECPoint.urandom(co.o); P = w.readpt(o, co.m); c.check(co.m.on(P), 'off-curve', 'a random point is off the curve'); w.add('pt', o, (co.m, P))
def reenter(w):
    def hook(data):
        if w.depth >= 2: return
        w.depth += 1
        try:
            for _ in range(1 + w.c.choose(2)):
                w.c.count('sched.reentered')
                if w.c.chance(0.5): w.drop()
                else: step(w)
        finally: w.depth -= 1
    return hook
def op_sign(w):
    c = w.c; s = w.scheme(); cv, h = s.m; m = w.message(); hm = HM[h]; c.log('sign %s' % h)
    if c.chance(0.5): f = w.fe(cv.n); k, x = f.m[0], f.o
    else: k = x = w.integer(cv.n)
    k %= cv.n
    if k == 0: k = x = 1
    copy = bytes(bytearray(m)) if isinstance(m, bytes) else m
    old = hm.sim_hook
    if c.chance(0.2) and w.depth == 0: hm.sim_hook = reenter(w)
    try: o = s.o.Sign(x, m)
    finally: hm.sim_hook = old
    c.check(m == copy, 'operand', 'the message changed')
    b = o.AsBytes(); n = len(b) // 2; c.check(len(b) == 2 * cv.nlen, 'value', 'a signature on %s has %d bytes' % (cv.name, len(b)))
    r, sg = int.from_bytes(b[:n], 'big'), int.from_bytes(b[n:], 'big'); Q = cv.mul(cv.g, k)
    c.check(cv.ecdsa_ok(Q, hm.sim_raw(w.mb(m)), r, sg), 'value', 'a signature (%s, %s) on %s with %s by key %s does not verify in the reference' % (hex(r), hex(sg), cv.name, h, hex(k)))
    w.add('sig', o, (cv, h, r, sg, k, m))
def op_verify(w):
    c = w.c; g = w.of('sig')
    if g is None: return op_sign(w)
    cv, h, r, sg, k, m = g.m; hm = HM[h]; c.log('verify')
    if c.chance(0.7): Q = cv.mul(cv.g, k); po = ECC.ECPoint(w.curve(cv).o, cv.encode(Q, False)) if Q is not None else None
    else: p = w.pt(cv); Q, po = p.m[1], p.o
    if c.chance(0.3): m = w.message()
    want = cv.ecdsa_ok(Q, hm.sim_raw(w.mb(m)), r, sg); old = hm.sim_hook
    if c.chance(0.2) and w.depth == 0: hm.sim_hook = reenter(w)
    try: v = g.o.Verify(po, m)
    finally: hm.sim_hook = old
    c.check(v is want, 'value', 'Verify of (%s, %s) on %s with %s under %s is %s, the reference says %s' % (hex(r), hex(sg), cv.name, h, _h(Q), v, want))
def op_sig_codec(w):
    c = w.c; g = w.of('sig')
    if g is None: return op_sign(w)
    cv, h, r, sg, k, m = g.m; c.log('sigcodec')
    s = w.of('ss', lambda x: x.m[0].key() == cv.key() and x.m[1] == h)
    so = s.o if s else ECC.ECDSASignatureScheme(w.curve(cv).o, HM[h])
    j = c.choose(3)
    if j == 0: o = ECC.ECDSASignature(so, g.o.AsBytes())
    elif j == 1: o = ECC.ECDSASignature(so, str(g.o))
    else:
        t = repr(g.o); c.check(str(g.o) in t, 'value', 'repr of a signature: ' + t[:200]); return
    ob = w.add('sig', o, g.m); w.verify(ob, 'signature import')
def op_elgamal(w):
    c = w.c; k = c.choose(5); e = w.of('ct'); c.log('elgamal %d' % k)
    if e is None or k == 0:
        a = w.pt(); cv = a.m[0]; b = w.pt(cv)
        if c.chance(0.5): o = ECC.ECElgamalCiphertext(a.o, b.o); ob = w.add('ct', o, (cv, a.m[1], b.m[1], None, None)); w.verify(ob, 'ciphertext from points'); return
        sk = 1 + c.below(cv.n - 1); Q = cv.mul(cv.g, sk); qo = ECC.ECPoint(w.curve(cv).o, cv.encode(Q, False)); o = ECC.ECElgamalCiphertext.encrypt(qo, b.o)
        C, D = w.readpt(o.C, cv), w.readpt(o.D, cv); c.check(cv.sub(D, cv.mul(C, sk)) == b.m[1], 'value', 'encryption on %s of %s' % (cv.name, _h(b.m[1])))
        w.add('ct', o, (cv, C, D, sk, b.m[1])); return
    cv, C, D, sk, M = e.m
    if k == 1 or k == 2:
        if sk is None or c.chance(0.2): sk = w.integer(cv.n)
        kk = sk % cv.n; key = sk if c.chance(0.5) else ECC.FieldElement(sk, cv.n)
        o = e.o.decrypt(key); ob = w.add('pt', o, (cv, cv.sub(D, cv.mul(C, kk)))); w.verify(ob, 'decryption with %s on %s of (%s, %s)' % (hex(kk), cv.name, _h(C), _h(D)))
    elif k == 3: j = c.choose(2); ob = w.add('pt', (e.o.C, e.o.D)[j], (cv, (C, D)[j])); w.verify(ob, 'ciphertext half')
    else:
        s = str(e.o); c.check(s == '(%s, %s)' % (cv.encode(C, True).hex().upper(), cv.encode(D, True).hex().upper()), 'value', 'str of a ciphertext: ' + s)
        if c.chance(0.5): ob = w.add('ct', eval(repr(e.o), {'ECC': ECC}), e.m); w.verify(ob, 'ciphertext made from its repr')
def op_drop(w): w.drop()
def op_alias(w):
    if w.pool: ob = w.pool[w.c.choose(len(w.pool))]; w.c.log('alias'); w.add(ob.kind, ob.o, ob.m)
OPS = [(14, op_fe_bin), (8, op_fe_un), (3, op_fe_eq), (2, op_fe_random), (5, op_cv), (9, op_pt_bin), (8, op_pt_mul), (8, op_pt_un), (6, op_sign), (6, op_verify), (3, op_sig_codec), (9, op_elgamal), (8, op_drop), (2, op_alias)]
def step(w):
    op = w.c.weighted(OPS); w.nops += 1; w.c.count('op.' + op.__name__[3:])
    if w.nops > 400: return
    op(w)

def Y01_history(c):
    w = World(c); n = 15 + c.choose(60)
    for i in range(n):
        step(w)
        w.verify_some('later in the history', 1 + c.choose(2))
        if c.chance(0.02): w.verify_all('later in the history')
    w.verify_all('at the end')
    while w.pool:
        w.drop()
        if c.chance(0.3): w.verify_some('while others are dropped', 1)
    gc.collect()

# ---- Y02
class Junk: pass
class MyInt(int): pass
def junk(w):
    c = w.c; k = c.choose(16)
    if k == 0: return None
    if k == 1: return 1.5
    if k == 2: return 'zz' * c.choose(40)
    if k == 3: return c.bytes(c.choose(70))
    if k == 4: return [1, 2]
    if k == 5: return Junk()
    if k == 6: return ECC
    if k == 7: return ECC.ECPoint
    if k == 8: return -1
    if k == 9: return 1 << 4000
    if k == 10: return (1, 'x')
    if k == 11: return ('04', '05', '06')
    if k == 12: return HM['sha1']
    if k == 13: return True
    if k == 14: return '\udc80\ud800'
    return w.pool[c.choose(len(w.pool))].o if w.pool else 0
class Call:
    """a callable with its arguments, what must happen, and how to read a result"""
    __slots__ = ('f', 'a', 'name', 'must', 'check')
    def __init__(s, name, f, a, must=None, check=None): s.name, s.f, s.a, s.must, s.check = name, f, a, must, check
import operator as _o
def good_calls(w):
    """operations with valid operands -> Call with a checker of the value"""
    c = w.c; k = c.choose(19)
    if k == 0: i, p = w.integer(), c.pick(w.primes); return Call('FieldElement', ECC.FieldElement, (i, p), 'ok', lambda r: int(r) == i % p)
    if k == 1: a = w.fe(); b = w.fe(a.m[1]); j = c.choose(3); return Call('fe.op', (_o.add, _o.sub, _o.mul)[j], (a.o, b.o), 'ok', lambda r: int(r) == (a.m[0] + b.m[0], a.m[0] - b.m[0], a.m[0] * b.m[0])[j] % a.m[1])
    if k == 2: a = w.fe(); i = w.integer(a.m[1]); j = c.choose(3); return Call('fe.opint', (_o.add, _o.sub, _o.mul)[j], (a.o, i), 'ok', lambda r: int(r) == (a.m[0] + i, a.m[0] - i, a.m[0] * i)[j] % a.m[1])
    if k == 3: a = w.fe(); i = w.integer(a.m[1]); j = c.choose(3); return Call('int.opfe', (_o.add, _o.sub, _o.mul)[j], (i, a.o), 'ok', lambda r: int(r) == (a.m[0] + i, i - a.m[0], a.m[0] * i)[j] % a.m[1])
    if k == 4:
        a = w.fe(); j = c.choose(6); f = (_o.neg, a.o.__class__.inverse, a.o.__class__.sqrt, int, repr, lambda o: o ** 5)[j]; u, p = a.m
        ck = (lambda r: int(r) == -u % p, lambda r: (r is None) == (u == 0) and (r is None or int(r) * u % p == 1), lambda r: (r is None) == (refec.sqrtp(u, p) is None) and (r is None or int(r) ** 2 % p == u), lambda r: r == u, lambda r: r == 'ECC.FieldElement(%d, %d)' % (u, p), lambda r: int(r) == pow(u, 5, p))[j]
        return Call('fe.un%d' % j, f, (a.o,), 'ok', ck)
    if k == 5:
        a = w.fe(); b = w.fe() if c.chance(0.5) else None; x = b.o if b else w.integer(a.m[1]); want = (a.m == b.m) if b else None
        return Call('fe.eq', _o.eq, (a.o, x), 'ok', (lambda r: r is want) if b else None)
    if k == 6: cv = c.pick(w.curves); return Call('curve.new', (ECC.ECurve, lambda *a: getattr(ECC.ECurve, refec.FACT[cv.type])(*a))[0 if (nmd := cv.name in refec.named()) else 1], (cv.name,) if nmd else (cv.p, cv.u, cv.v, cv.n, cv.h, cv.g[0], cv.g[1], cv.bits), 'ok', lambda r: r.n == cv.n and r.p == cv.p and r.G == cv.g)
    if k == 7: a = w.curve(); nm = c.pick(['p', 'n', 'h', 'G', 'bits', 'ctype', refec.COEF[a.m.type][0], refec.COEF[a.m.type][1]]); return Call('curve.' + nm, getattr, (a.o, nm), 'ok', None)
    if k == 8: a = w.curve(); j = c.choose(3); return Call('curve.un%d' % j, (repr, lambda o: o == o, lambda o: o.PointIsValid(a.m.g[0], a.m.g[1]))[j], (a.o,), 'ok', (lambda r: r.startswith('ECC.ECurve.'), lambda r: r is True, lambda r: r is True)[j])
    if k == 9:
        a = w.curve(); cv = a.m; P = w.point(cv); j = c.choose(4); g = c.choose(2)
        if P is None: j = c.choose(2)
        x = cv.encode(P, g == 1) if j == 0 else cv.encode(P, g == 1).hex() if j == 1 else P if j == 2 else (ECC.FieldElement(P[0], cv.p), ECC.FieldElement(P[1], cv.p))
        return Call('point.new%d' % j, ECC.ECPoint, (a.o, x), 'ok', lambda r: w.readpt(r, cv) == P)
    if k == 10: a = w.pt(); b = w.pt(a.m[0]); j = c.choose(3); cv = a.m[0]; return Call('pt.op%d' % j, (_o.add, _o.sub, _o.eq)[j], (a.o, b.o), 'ok', (lambda r: w.readpt(r, cv) == cv.add(a.m[1], b.m[1]), lambda r: w.readpt(r, cv) == cv.sub(a.m[1], b.m[1]), lambda r: r is (a.m[1] == b.m[1]))[j])
    if k == 11: a = w.pt(); cv = a.m[0]; f = w.fe(cv.n); i = c.choose(3); x, v = ((f.o, f.m[0]), (f.m[0], f.m[0]), (-f.m[0], -f.m[0]))[i]; return Call('pt.mul', _o.mul, (a.o, x), 'ok', lambda r: w.readpt(r, cv) == cv.mul(a.m[1], v))
    if k == 12:
        a = w.pt(); cv, P = a.m; j = c.choose(6); T = ECC.ECPoint
        return Call('pt.un%d' % j, (_o.neg, str, repr, T.compressed, T.uncompressed, T.setup_basemult)[j], (a.o,), 'ok', (lambda r: w.readpt(r, cv) == cv.neg(P), lambda r: r == cv.encode(P, True).hex().upper(), lambda r: r.startswith('ECC.ECPoint('), lambda r: r == cv.encode(P, True), lambda r: r == cv.encode(P, False), lambda r: r is None)[j])
    if k == 13:
        a = w.pt(); cv, P = a.m
        if P is None or c.chance(0.3): co = w.curve(); return Call('pt.urandom', ECC.ECPoint.urandom, (co.o,), 'ok', lambda r: co.m.on(w.readpt(r, co.m)))
        return Call('pt.affine', ECC.ECPoint.affine, (a.o,), 'ok', lambda r: r == P)
    if k == 14: a = w.curve(); h = c.pick(sorted(HM)); return Call('scheme.new', ECC.ECDSASignatureScheme, (a.o, HM[h]), 'ok', lambda r: repr(r).startswith('ECC.'))
    if k == 15:
        s = w.scheme(); cv, h = s.m; m = w.message(); kk = 1 + c.below(cv.n - 1); x = kk if c.chance(0.5) else ECC.FieldElement(kk, cv.n)
        def ck(r):
            b = r.AsBytes(); n = len(b) // 2; return cv.ecdsa_ok(cv.mul(cv.g, kk), HM[h].sim_raw(w.mb(m)), int.from_bytes(b[:n], 'big'), int.from_bytes(b[n:], 'big'))
        return Call('sign', s.o.Sign, (x, m), 'ok', ck)
    if k == 16:
        g = w.of('sig')
        if g is None: op_sign(w); g = w.pool[-1]
        cv, h, r, sg, kk, m = g.m; j = c.choose(6)
        if j == 0: p = w.pt(cv); want = cv.ecdsa_ok(p.m[1], HM[h].sim_raw(w.mb(m)), r, sg); return Call('sig.verify', g.o.Verify, (p.o, m), 'ok', lambda r: r is want)
        if j == 1: Q = cv.mul(cv.g, kk); po = ECC.ECPoint(w.curve(cv).o, cv.encode(Q, False)); return Call('sig.verify', g.o.Verify, (po, m), 'ok', lambda r: r is True)
        enc = r.to_bytes(cv.nlen, 'big') + sg.to_bytes(cv.nlen, 'big')
        if j == 2: return Call('sig.bytes', ECC.ECDSASignature.AsBytes, (g.o,), 'ok', lambda x: x == enc)
        if j == 3: return Call('sig.str', (str, repr)[c.choose(2)], (g.o,), 'ok', None)
        s = ECC.ECDSASignatureScheme(w.curve(cv).o, HM[h])
        return Call('sig.import', ECC.ECDSASignature, (s, enc if j == 4 else str(g.o)), 'ok', lambda x: x.AsBytes() == enc)
    e = w.of('ct')
    if e is None or k == 17:
        a = w.pt(); cv = a.m[0]; b = w.pt(cv)
        if c.chance(0.5): return Call('ct.new', ECC.ECElgamalCiphertext, (a.o, b.o), 'ok', lambda r: w.readpt(r.C, cv) == a.m[1] and w.readpt(r.D, cv) == b.m[1])
        sk = 1 + c.below(cv.n - 1); Q = ECC.ECPoint(w.curve(cv).o, cv.encode(cv.mul(cv.g, sk), False)); return Call('ct.encrypt', ECC.ECElgamalCiphertext.encrypt, (Q, b.o), 'ok', lambda r: cv.sub(w.readpt(r.D, cv), cv.mul(w.readpt(r.C, cv), sk)) == b.m[1])
    cv, C, D, sk, M = e.m; j = c.choose(5)
    if j <= 1: kk = c.below(cv.n); x = kk if j else ECC.FieldElement(kk, cv.n); return Call('ct.decrypt', e.o.decrypt, (x,), 'ok', lambda r: w.readpt(r, cv) == cv.sub(D, cv.mul(C, kk)))
    if j == 2: return Call('ct.C', getattr, (e.o, 'C'), 'ok', lambda r: w.readpt(r, cv) == C)
    if j == 3: return Call('ct.D', getattr, (e.o, 'D'), 'ok', lambda r: w.readpt(r, cv) == D)
    return Call('ct.str', (str, repr)[c.choose(2)], (e.o,), 'ok', None)
def wrong_order(w, cv):
    """an odd modulus close to the order of the curve in some way"""
    n = cv.n; return w.c.pick([x for x in (n + 2, n - 2, cv.p, n * 3, n + (2 << 32), n + (2 << 64), (1 << n.bit_length()) - 1, n ^ (2 << max(n.bit_length() - 4, 0))) if x > 2 and x != n])
def bad_calls(w):
    """operations that must raise"""
    c = w.c; k = c.choose(19)
    if k == 0: a = w.fe(); b = w.newfe(c.pick([x for x in PRIMES if x != a.m[1]])); return Call('fe.mixed', c.pick([_o.add, _o.sub, _o.mul]), (a.o, b.o), 'raise')
    if k == 1: a = w.pt(); cvs = [x for x in refec.small() if x.key() != a.m[0].key()]; b = w.newpoint(c.pick(cvs)); return Call('pt.mixed', c.pick([_o.add, _o.sub]), (a.o, b.o), 'raise')
    if k == 2: a = w.pt(); cvs = [x for x in refec.small() if x.key() != a.m[0].key()]; b = w.newpoint(c.pick(cvs)); return Call('ct.mixed', c.pick([ECC.ECElgamalCiphertext, ECC.ECElgamalCiphertext.encrypt]), (a.o, b.o), 'raise')
    if k == 3: return Call('curve.name', ECC.ECurve, (c.pick(['nosuch', '', 'secp256k', 'SECP256K1 ', 'E-22\0x', '\udc80']),), 'raise')
    if k == 4:
        cv = c.pick(w.curves); a = [cv.p, cv.u, cv.v, cv.n, cv.h, cv.g[0], cv.g[1], cv.bits]; i = 5 + c.choose(2); a[i] = (a[i] + 1) % cv.p
        if cv.on((a[5], a[6])): a[i] = (a[i] + 1) % cv.p
        if cv.on((a[5], a[6])): return Call('curve.name', ECC.ECurve, ('nosuch',), 'raise')
        return Call('curve.badG', getattr(ECC.ECurve, refec.FACT[cv.type]), tuple(a), 'raise')
    if k == 5:
        cv = c.pick(w.curves); a = [cv.p, cv.u, cv.v, cv.n, cv.h, cv.g[0], cv.g[1], cv.bits]; i = c.choose(8); a[i] = c.pick([None, 'x', 1.5, -5] if i < 7 else [None, 'x', 1.5, 1 << 70])
        return Call('curve.badarg', getattr(ECC.ECurve, refec.FACT[cv.type]), tuple(a), 'raise')
    if k in (6, 7):
        co = w.curve(); cv = co.m; P = w.point(cv); b = bytearray(cv.encode(P, c.chance(0.5))); j = c.choose(4)
        if j == 0 and b: b = b[:-1 - c.choose(min(len(b), 4))]
        elif j == 1: b += c.bytes(1 + c.choose(3))
        elif j == 2: b[c.choose(len(b))] ^= 1 << c.choose(8)
        else: b = bytearray(c.bytes(c.choose(80)))
        ok, _ = cv.decode(bytes(b)); x = bytes(b) if k == 6 else bytes(b).hex()
        if k == 7 and c.chance(0.4): i = c.choose(len(x) + 1); x = x[:i] + c.pick(['g', ' ', '\0', '-', '\u00e9', '\udc80', '0']) + x[i + c.choose(2):]; ok = None
        # a damaged encoding must raise, or be a point of the curve
        return Call('point.damaged', ECC.ECPoint, (co.o, x), 'raise' if ok is False and b[:1] != b'\0' and len(b) not in (1 + cv.blen, 1 + 2 * cv.blen) else None, lambda r: cv.on(w.readpt(r, cv)))
    if k == 8:
        co = w.curve(); cv = co.m; P = w.point(cv) or cv.g
        if c.chance(0.4):   # right coordinates, but one or both of them of another field
            q = c.pick([x for x in (3, 1000003, cv.n, cv.p + 2, cv.p * 3, (1 << 521) - 1) if x != cv.p]); j = c.choose(3)
            return Call('point.badfield', ECC.ECPoint, (co.o, tuple(ECC.FieldElement(v, q if j in (i, 2) else cv.p) for i, v in enumerate(P))), 'raise')
        x = c.pick([(1,), (1, 2, 3), (1, 'a'), ('a', 1), (1, None), (1.5, 2), [1, 2], 5, None, (ECC.FieldElement(1, 3), 1), (1, ECC.FieldElement(1, 3)), (ECC.FieldElement(1, 1000003), ECC.FieldElement(1, 1000003)), ()])
        return Call('point.badinit', ECC.ECPoint, (co.o, x), 'raise')
    if k == 9: return Call('point.badcurve', ECC.ECPoint, c.pick([(None,), (5, '00'), (), ('secp256k1', (1, 2)), (w.fe().o,)]), 'raise')
    if k == 10: return Call('urandom.bad', c.pick([ECC.ECPoint.urandom, ECC.FieldElement.urandom]), (c.pick([None, 'x', 1.5, w.fe().o, w.pt().o]),), 'raise')
    if k == 11: co = w.curve(); return Call('scheme.bad', ECC.ECDSASignatureScheme, c.pick([(None, HM['sha1']), (co.o, None), (co.o, sys), (co.o, hashlib), (HM['sha1'], co.o), (co.o,)]), 'raise')
    if k == 12:
        s = w.scheme(); cv = s.m[0]
        if c.chance(0.4): return Call('sign.badorder', s.o.Sign, (ECC.FieldElement(1 + c.below(cv.n - 1), wrong_order(w, cv)), b'm'), 'raise')
        return Call('sign.bad', s.o.Sign, c.pick([(None, b'm'), ('x', b'm'), (5, None), (5, 5), (5,), (1.5, 'm'), (w.pt().o, b'm'), (5, ''), (5, b''), (5, '\udc80'), (w.newfe(3).o, b'm')]), 'raise')
    if k == 13:
        g = w.of('sig')
        if g is None: op_sign(w); g = w.pool[-1]
        return Call('verify.bad', g.o.Verify, c.pick([(None, b'm'), (5, b'm'), (w.pt().o, None), (w.pt().o,), (w.fe().o, b'm'), (w.pt(g.m[0]).o, '\udc80')]), 'raise')
    if k == 14:
        s = w.scheme(); cv = s.m[0]; n = cv.nlen; b = bytearray(c.bytes(2 * n)); j = c.choose(5)
        if j == 0: b = b[:c.choose(2 * n)]
        elif j == 1: b += b'\1'
        elif j == 2: b[:n] = bytes(n)
        elif j == 3: b[n:] = bytes(n)
        else: b[:n] = cv.n.to_bytes(n, 'big')
        x = bytes(b) if c.chance(0.5) else bytes(b).hex()
        return Call('sig.badimport', ECC.ECDSASignature, (s.o, x), 'raise')
    if k == 15: s = w.scheme(); return Call('sig.badarg', ECC.ECDSASignature, c.pick([(s.o, None), (s.o, 5), (None, b'x'), (5,), (s.o, '\udc80'), (s.o, 'zz' * s.m[0].nlen * 2), (s.o, '')]), 'raise')
    if k == 16:
        e = w.of('ct')
        if e is None: a = w.pt(); b = w.pt(a.m[0]); e = w.add('ct', ECC.ECElgamalCiphertext(a.o, b.o), (a.m[0], a.m[1], b.m[1], None, None))
        cv = e.m[0]
        if c.chance(0.4): return Call('decrypt.badorder', e.o.decrypt, (ECC.FieldElement(1 + c.below(cv.n - 1), wrong_order(w, cv)),), 'raise')
        return Call('decrypt.bad', e.o.decrypt, (c.pick([None, 'x', 1.5, w.pt().o, ECC.FieldElement(1, 3), ECC.FieldElement(1, cv.p) if cv.p != cv.n else None]),), 'raise')
    if k == 17:
        a = c.pick([w.curve, w.pt, w.fe])(); return Call('attr', getattr, (a.o, c.pick(['nosuch', 'zz', 'C', '\udc80'])), 'raise')
    a = w.fe(); return Call('fe.badarg', c.pick([lambda o: o + 'x', lambda o: 'x' + o, lambda o: o - None, lambda o: None - o, lambda o: o * 1.5, lambda o: 1.5 * o, lambda o: o ** 'x', lambda o: o ** -1, lambda o: o ** (1 << 80), lambda o: pow(o, 2, 5), lambda o: 2 ** o, lambda o: o < o, lambda o: ECC.FieldElement(o, 5), lambda o: ECC.FieldElement(1, o), lambda o: ECC.FieldElement('1', 5), lambda o: ECC.FieldElement(1), lambda o: ECC.FieldElement(1, -5), lambda o: [] * o]), (a.o,), 'raise')
def junk_calls(w):
    c = w.c; g = good_calls(w); a = list(g.a)
    i = c.choose(len(a))
    if g.name.startswith(('fe.un', 'curve.un', 'pt.un', 'curve.G', 'curve.p')) or g.f in (getattr,): return bad_calls(w)
    if i == 0 and g.name in ('fe.op', 'fe.opint', 'pt.op0', 'pt.op1', 'pt.op2', 'pt.mul', 'fe.eq') and c.chance(0.5): i = len(a) - 1
    a[i] = junk(w)
    if c.chance(0.1): a = a[:-1] or [junk(w)]
    # huge powers of Python numbers and the like are none of the binding's business
    return Call(g.name + '.junk', g.f, tuple(a), None, None)
def hash_faults(w):
    """signing and verifying while the hash module misbehaves"""
    c = w.c; s = w.scheme(); cv, h = s.m; hm = HM[h]; k = c.choose(9)
    def boom(*a): raise KeyError('hash')
    m = w.message()
    if c.chance(0.5): f, a = s.o.Sign, (1 + c.below(cv.n - 1), m)
    else:
        o = s.o.Sign(5 % cv.n or 1, b"abc"); b = o.AsBytes(); n = len(b) // 2; g = w.add("sig", o, (cv, h, int.from_bytes(b[:n], "big"), int.from_bytes(b[n:], "big"), 5 % cv.n or 1, b"abc"))
        f, a = g.o.Verify, (w.pt(cv).o, m)
    if c.chance(0.3): f, a = ECC.ECDSASignatureScheme, (w.curve(cv).o, hm)
    d = hm.sim_raw; dig = (None, boom, lambda b: None, lambda b: 'text', lambda b: d(b)[:-1], lambda b: d(b) + bytes(4096))[min(k, 5)]
    def wrap(*x):
        oldh, oldd, oldn = hm.sim_hook, hm.sim_digest, hm.__dict__.get('new')
        try:
            if k == 0: hm.sim_hook = boom
            elif k <= 5: hm.sim_digest = dig
            elif k == 6: del hm.__dict__['new']
            elif k == 7: hm.__dict__['new'] = boom
            else: hm.__dict__['new'] = 5
            return f(*x)
        finally: hm.sim_hook, hm.sim_digest = oldh, oldd; hm.__dict__['new'] = oldn
    return Call('hashfault%d' % k, wrap, a, 'raise')

def result_ok(w, call, r, how):
    if call.check is not None and not call.check(r): w.c.fail('value', '%s (%s): wrong result for %s' % (call.name, how, _h(call.a)))
def reset():
    # a refused allocation can hit the restoring of a hash module
    for m in HM.values(): m.sim_hook = m.sim_digest = None; m.__dict__['new'] = m.sim_new
def once(call):
    """-> (result, exception)"""
    try: return call.f(*call.a), None
    except Exception as e:
        e.__traceback__ = None; e.__context__ = None
        return None, e
def nomem(call, k, n):
    tc.set_nomemory(k, k + n)
    try: r = call.f(*call.a)
    except Exception as e:
        tc.remove_mem_hooks(); reset(); e.__traceback__ = None; e.__context__ = None; return None, e
    tc.remove_mem_hooks(); reset(); return r, None
ERRS = (SystemError,)
# without memory for a traceback the interpreter itself loses the exception of any Python frame ("error return
# without exception set"); what the binding returned is what the checks of C calls name
CALLBACKS = ('hash', 'sign', 'sig.verify', 'verify', 'scheme', 'sig.import')
def lost(e, call):
    m = str(e)
    return isinstance(e, ERRS) and 'returned NULL' in m and ('ECC.' in m or (('built-in function' in m or "class 'int'" in m) and not call.name.startswith(CALLBACKS)))
def Y02_failures(c):
    w = World(c, True); n = 6 + c.choose(16)
    for _ in range(4): c.pick([w.newfe, w.newpoint, w.scheme, w.newcurve_any if hasattr(w, 'newcurve_any') else w.newpoint])()
    for i in range(n):
        if c.chance(0.25): step(w); continue
        kind = c.weighted([(5, 'good'), (6, 'bad'), (3, 'junk'), (2, 'hash')])
        call = dict(good=good_calls, bad=bad_calls, junk=junk_calls, hash=hash_faults)[kind](w)
        c.log('%s %s' % (kind, call.name)); c.count('call.' + kind); c.count('fault.call_' + call.name if kind != 'good' else 'op.' + call.name)
        r, e = once(call)
        judge(w, call, r, e, 'plain')
        c.log('  -> %s' % (type(e).__name__ if e is not None else 'ok')); del r, e
        mode = c.choose(3)
        if mode == 1 and not ASAN: leaks(w, call)
        elif mode == 2 and kind != 'junk':
            memory(w, call)
        w.verify_some('after %s' % call.name, 2); del call
    w.verify_all('at the end'); w.pool.clear(); gc.collect()
def judge(w, call, r, e, how):
    c = w.c
    if e is not None:
        if isinstance(e, ERRS): c.fail('systemerror', '%s (%s): %r' % (call.name, how, e))
        if call.must == 'ok' and not isinstance(e, MemoryError): c.fail('refused', '%s (%s): %r for valid operands %s' % (call.name, how, e, _h(call.a)))
        if call.must == 'ok' and how == 'plain': c.fail('refused', '%s: %r' % (call.name, e))
        return
    if call.must == 'raise' : c.fail('accepted', '%s (%s): no exception, result %s for %s' % (call.name, how, _h(r), _h(call.a)))
    result_ok(w, call, r, how)
def memory(w, call):
    """the k-th interpreter allocation inside the call is refused"""
    c = w.c; persistent = c.chance(0.3) and not call.name.startswith(CALLBACKS) and not isinstance(call.f, types.FunctionType); k = 1 + c.choose(c.pick([4, 12, 40]))
    for j in range(1 + c.choose(6)):
        kk = k + j; r, e = nomem(call, kk, 1000000 if persistent else 1)
        hit = isinstance(e, MemoryError); c.count('fault.nomemory'); c.count('fault.nomemory_hit' if hit else 'probe.nomemory_survived')
        if e is not None and not hit and call.must == 'ok' and not isinstance(e, ERRS): pass     # another exception type is still a refusal
        elif e is not None and lost(e, call): c.fail('systemerror', '%s with allocation %d refused: %r' % (call.name, kk, e))
        elif e is None and call.must == 'ok': result_ok(w, call, r, 'allocation %d refused' % kk)
        del r, e
        w.verify_some('after a refused allocation in %s' % call.name, 1)
    c.log('  nomem')
    if c.chance(0.5) and not ASAN:
        def f():
            nomem(call, k, 1)
        leaks(w, Call(call.name + '.nomem', f, ()), 'with allocation %d refused' % k)
N = 16
clr = sys._clear_type_cache     # the interpreter's method cache keeps a reference to each name string it was asked for
def leaks(w, call, how=''):
    """repeating the call must not make blocks, C heap or references grow"""
    c = w.c; f, a = call.f, call.a; objs = [x for x in a if not isinstance(x, (int, type(None)))] + [x.o for x in w.pool] + [ECC.FieldElement, ECC.ECurve, ECC.ECPoint, ECC.ECDSASignature, ECC.ECDSASignatureScheme, ECC.ECElgamalCiphertext] + list(HM.values())
    rc0 = [0] * len(objs); rc1 = [0] * len(objs); getref = sys.getrefcount
    def rep(n):
        for _ in range(n):
            try: f(*a)
            except Exception: pass
    rep(3); gc.collect()
    for i in range(len(objs)): rc0[i] = getref(objs[i])
    clr(); l0 = lib.sim_live(); b0 = sys.getallocatedblocks()
    rep(N); gc.collect(); clr()
    b1 = sys.getallocatedblocks(); l1 = lib.sim_live()
    for i in range(len(objs)): rc1[i] = getref(objs[i])
    c.count('probe.leak_checks')
    for i in range(len(objs)):
        d = rc1[i] - rc0[i]
        if abs(d) >= N // 2: c.fail('refcount', '%s %s: %d calls change the reference count of a %s argument or bystander by %d' % (call.name, how, N, type(objs[i]).__name__, d))
    if l1 - l0 >= N // 2: c.fail('leak', '%s %s: %d calls leave %d more blocks in the C heap' % (call.name, how, N, l1 - l0))
    if b1 - b0 >= N // 2:
        gc.collect(); b1 = sys.getallocatedblocks()
        if b1 - b0 >= N // 2: c.fail('leak', '%s %s: %d calls leave %d more interpreter blocks' % (call.name, how, N, b1 - b0))
    c.log('  noleak')
SCENARIOS = {'Y01_history': Y01_history, 'Y02_failures': Y02_failures}
def run(scen, scratch, repo, seed, budget, tier, replay_path, known):
    import pycore; return pycore.driver_run(__name__, scen, scratch, repo, seed, budget, tier, replay_path, known)
def replay(rep, scratch, repo):
    import pycore; return pycore.driver_replay(rep['driver'], rep, scratch, repo)
