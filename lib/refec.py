"""Executable reference model: affine curve arithmetic, ECDSA and ElGamal over Python integers.
Independent of the code under test; the named parameters are the checked table sim/curves.inc."""
import os, re
WS, ED, MO, TE = 0, 1, 2, 3
FACT = {WS: 'ShortWeierstrass', ED: 'Edwards', MO: 'Montgomery', TE: 'TwistedEdwards'}
COEF = {WS: ('a', 'b'), ED: ('c', 'd'), MO: ('B', 'A'), TE: ('a', 'd')}
class Curve:
    __slots__ = ('type', 'name', 'p', 'u', 'v', 'n', 'h', 'g')
    def __init__(s, type, name, p, u, v, n, h, gx, gy): s.type, s.name, s.p, s.u, s.v, s.n, s.h, s.g = type, name, p, u, v, n, h, (gx, gy)
    @property
    def bits(s): return s.p.bit_length()
    @property
    def blen(s): return (s.p.bit_length() + 7) // 8
    @property
    def nlen(s): return (s.n.bit_length() + 7) // 8
    def key(s): return (s.type, s.p, s.u, s.v, s.n, s.h, s.g)
    def neutral(s): return None if s.type in (WS, MO) else (0, s.u if s.type == ED else 1)
    def on(s, P):
        if P is None: return s.type in (WS, MO)
        x, y = P; p = s.p
        if s.type == WS: return (y * y - x ** 3 - s.u * x - s.v) % p == 0
        if s.type == ED: return (x * x + y * y - s.u * s.u * (1 + s.v * x * x * y * y)) % p == 0
        if s.type == MO: return (s.u * y * y - x ** 3 - s.v * x * x - x) % p == 0
        return (s.u * x * x + y * y - 1 - s.v * x * x * y * y) % p == 0
    def neg(s, P):
        if P is None: return None
        return (P[0], -P[1] % s.p) if s.type in (WS, MO) else (-P[0] % s.p, P[1])
    def add(s, P, Q):
        p = s.p
        if s.type in (WS, MO):
            if P is None: return Q
            if Q is None: return P
            if P[0] == Q[0]:
                if (P[1] + Q[1]) % p == 0: return None
                l = (3 * P[0] ** 2 + s.u) * pow(2 * P[1], -1, p) if s.type == WS else (3 * P[0] ** 2 + 2 * s.v * P[0] + 1) * pow(2 * s.u * P[1], -1, p)
            else: l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
            x = (l * l - P[0] - Q[0] if s.type == WS else s.u * l * l - s.v - P[0] - Q[0]) % p
            return x, (l * (P[0] - x) - P[1]) % p
        t = s.v * P[0] * Q[0] * P[1] * Q[1] % p
        k, m = (s.u, 1) if s.type == ED else (1, s.u)
        return (P[0] * Q[1] + P[1] * Q[0]) * pow(k * (1 + t), -1, p) % p, (P[1] * Q[1] - m * P[0] * Q[0]) * pow(k * (1 - t), -1, p) % p
    def sub(s, P, Q): return s.add(P, s.neg(Q))
    def mul(s, P, k):
        if k < 0: k, P = -k, s.neg(P)
        if s.p.bit_length() > 24 and P is not None: return s._jmul(P, k)
        R = s.neutral()
        while k:
            if k & 1: R = s.add(R, P)
            P = s.add(P, P); k >>= 1
        return R
    # projective double-and-add for large fields: same formulas without an inversion per step
    def _jmul(s, P, k):
        p = s.p
        if k == 0: return s.neutral()
        if s.type in (ED, TE):
            # homogeneous (X:Y:Z); addition law of the curve written over a common denominator
            kk, m = (s.u, 1) if s.type == ED else (1, s.u)
            def add(A, B):
                X1, Y1, Z1 = A; X2, Y2, Z2 = B
                Z = Z1 * Z2 % p; ZZ = Z * Z % p; C = X1 * X2 % p; D = Y1 * Y2 % p; E = s.v * C * D % p
                F, G = (ZZ - E) % p, (ZZ + E) % p
                # x3 = (X1Y2+Y1X2)/Z * ZZ/(k(ZZ+E)); y3 = (D-mC)/Z * ZZ/(k(ZZ-E))
                return (X1 * Y2 + Y1 * X2) * Z % p * F % p, (D - m * C) * Z % p * G % p, kk * F * G % p
            R = (0, s.u if s.type == ED else 1, 1); B = (P[0], P[1], 1)
            for b in bin(k)[2:]:
                R = add(R, R)
                if b == '1': R = add(R, B)
            z = pow(R[2], -1, p); return R[0] * z % p, R[1] * z % p
        if s.type == MO:      # to short Weierstrass and back
            iB = pow(s.u, -1, p); i3 = pow(3, -1, p)
            a = (3 - s.v * s.v) * pow(3 * s.u * s.u, -1, p) % p
            w = Curve(WS, '', p, a, 0, s.n, s.h, 0, 0)
            R = w._jmul(((P[0] * iB + s.v * iB * i3) % p, P[1] * iB % p), k)
            return None if R is None else ((R[0] * s.u - s.v * i3) % p, R[1] * s.u % p)
        a = s.u
        def dbl(A):
            X, Y, Z = A
            if not Y or not Z: return 1, 1, 0
            YY = Y * Y % p; S = 4 * X * YY % p; ZZ = Z * Z % p; M = (3 * X * X + a * ZZ * ZZ) % p
            X3 = (M * M - 2 * S) % p
            return X3, (M * (S - X3) - 8 * YY * YY) % p, 2 * Y * Z % p
        def madd(A, x, y):
            X, Y, Z = A
            if not Z: return x, y, 1
            ZZ = Z * Z % p; U = x * ZZ % p; S = y * ZZ * Z % p
            H = (U - X) % p; r = (S - Y) % p
            if not H: return dbl(A) if not r else (1, 1, 0)
            HH = H * H % p; HHH = H * HH % p; V = X * HH % p
            X3 = (r * r - HHH - 2 * V) % p
            return X3, (r * (V - X3) - Y * HHH) % p, Z * H % p
        R = (1, 1, 0)
        for b in bin(k)[2:]:
            R = dbl(R)
            if b == '1': R = madd(R, P[0], P[1])
        if not R[2]: return None
        z = pow(R[2], -1, p); zz = z * z % p
        return R[0] * zz % p, R[1] * zz * z % p
    def encode(s, P, comp):
        L = s.blen
        if P is None: return bytes(1 + L if comp else 1 + 2 * L)
        return (bytes([2 + (P[1] & 1)]) + P[0].to_bytes(L, 'big')) if comp else b'\4' + P[0].to_bytes(L, 'big') + P[1].to_bytes(L, 'big')
    def decode(s, b):
        """the point an encoding stands for -> (ok, point)"""
        L = s.blen; p = s.p
        if len(b) not in (1 + L, 1 + 2 * L): return False, None
        if not any(b): return (True, s.neutral()) if b[0] == 0 else (False, None)
        x = int.from_bytes(b[1:1 + L], 'big')
        if b[0] == 4 and len(b) == 1 + 2 * L:
            y = int.from_bytes(b[1 + L:], 'big')
            return (True, (x, y)) if x < p and y < p and s.on((x, y)) else (False, None)
        if b[0] in (2, 3) and len(b) == 1 + L and x < p:
            for y in s.ys(x):
                if y & 1 == b[0] & 1: return True, (x, y)
        return False, None
    def ys(s, x):
        p = s.p
        if s.type == WS: r = x ** 3 + s.u * x + s.v
        elif s.type == MO: r = (x ** 3 + s.v * x * x + x) * pow(s.u, -1, p)
        else:
            num, den = (s.u * s.u - x * x, 1 - s.u * s.u * s.v * x * x) if s.type == ED else (1 - s.u * x * x, 1 - s.v * x * x)
            if den % p == 0: return []
            r = num * pow(den, -1, p)
        t = sqrtp(r % p, p)
        return [] if t is None else sorted({t, -t % p})
    def ecdsa_e(s, digest): return int.from_bytes(digest[:s.nlen], 'big') % s.n
    def ecdsa_ok(s, Q, digest, r, sg):
        n = s.n
        if not (0 < r < n and 0 < sg < n): return False
        try: w = pow(sg, -1, n)
        except ValueError: return False
        R = s.add(s.mul(s.g, s.ecdsa_e(digest) * w % n), s.mul(Q, r * w % n))
        return R != s.neutral() and R[0] % n == r
def sqrtp(a, p):
    a %= p
    if a == 0: return 0
    if p == 2: return a
    if pow(a, (p - 1) // 2, p) != 1: return None
    if p % 4 == 3: return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1: z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1: u = u * u % p; i += 1
        b = pow(c, 1 << (m - i - 1), p); r = r * b % p; c = b * b % p; t = t * c % p; m = i
    return r
def isprime(n):
    if n < 2: return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0: return n == q
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
_named = None
def named():
    global _named
    if _named is None:
        t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim', 'curves.inc')).read()
        _named = {}
        for m in re.finditer(r'\{(WS|ED|MO|TE), "([^"]+)", ' + ', '.join(['"([0-9a-f]+)"'] * 7), t):
            k = [int(x, 16) for x in m.groups()[2:]]
            _named[m.group(2)] = Curve({'WS': WS, 'ED': ED, 'MO': MO, 'TE': TE}[m.group(1)], m.group(2), *k)
    return _named
_small = None
def small():
    """a few curves of every type over small fields, with prime order subgroups"""
    global _small
    if _small is not None: return _small
    import random
    rng = random.Random(7); _small = []
    for t in (WS, ED, MO, TE):
        got = 0
        for p in (251, 257, 509, 521, 1021, 2039, 4093, 8191):
            if got >= 4: break
            roots = {}
            for y in range(p): roots.setdefault(y * y % p, []).append(y)
            for _ in range(400):
                u, v = rng.randrange(1, p), rng.randrange(2, p)
                if t == WS and (4 * u ** 3 + 27 * v * v) % p == 0: continue
                if t == ED and (v * u ** 4 % p == 1 or v in roots): continue
                if t == MO and (v * v - 4) % p == 0: continue
                if t == TE and (u == v or v in roots or u not in roots): continue
                c = Curve(t, 'small%d' % len(_small), p, u, v, 0, 0, 0, 0)
                pts = [None] if t in (WS, MO) else []
                for x in range(p):
                    if t == WS: r = x ** 3 + u * x + v
                    elif t == MO: r = (x ** 3 + v * x * x + x) * pow(u, -1, p)
                    else:
                        num, den = (u * u - x * x, 1 - u * u * v * x * x) if t == ED else (1 - u * x * x, 1 - v * x * x)
                        if den % p == 0: continue
                        r = num * pow(den, -1, p)
                    pts += [(x, y) for y in roots.get(r % p, [])]
                N = len(pts); h = 1; n = N
                for f in (1, 2, 4, 8, 12):
                    if N % f == 0 and isprime(N // f): n, h = N // f, f; break
                else: continue
                if n < 50 or n == p: continue
                for _ in range(50):
                    g = c.mul(rng.choice(pts), h)
                    if g != c.neutral() and g is not None and g[0] != 0 and g[1] != 0: break
                else: continue
                if c.mul(g, n) != c.neutral(): continue
                c.n, c.h, c.g = n, h, g; _small.append(c); got += 1; break
    return _small
def checks():
    for c in small() + list(named().values()):
        assert c.on(c.g) and c.mul(c.g, c.n) == c.neutral(), c.name
        k = 0x1234567 % c.n; a = c.mul(c.g, k); R = c.neutral(); P = c.g
        while k:
            if k & 1: R = c.add(R, P)
            P = c.add(P, P); k >>= 1
        assert a == R, c.name
if __name__ == '__main__':
    checks(); print(len(small()), [(c.type, c.p, c.n, c.h) for c in small()], len(named()))
