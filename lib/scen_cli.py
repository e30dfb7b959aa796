"""Simulation of the command-line programs: the real programs run one after another as processes of a simulated
machine whose disk, streams and random devices fail, are torn and are damaged as planned (X01, X02)."""
import base64, binascii, ctypes, ctypes.util, glob, hashlib, mmap, os, re, signal, subprocess, sys, tempfile
import refec
from refec import WS, ED, MO, TE
from pycore import Violation, HarnessError
VARIANT = 'cliasan'
PROGS = ['ecdh_gen', 'ecdh_pub', 'ecdh_enc', 'ecdh_dec', 'ecdsa_sign', 'ecdsa_verify', 'ecelgamal_enc', 'ecelgamal_dec']
WRAPS = 'fopen fopen64 fdopen open open64 read close getrandom getentropy'.split()
HERE = os.path.dirname(os.path.abspath(__file__))
def _sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); return p.returncode, p.stdout
def build(d, repo):
    san = ['-fsanitize=address,undefined', '-fsanitize-recover=address', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
    cf = ['-O1', '-g1', '-w', '-ftrivial-auto-var-init=pattern', '-I' + repo + '/include', '-I' + repo + '/examples'] + san
    tabs = []
    for a in ('ecdhe', 'elgamal'):
        o = os.path.join(d, a + '_asn1_tab.c'); tabs.append(o)
        rc, out = _sh(['asn1Parser', '-o', o, repo + '/examples/' + a + '.asn'])
        if rc: return 'asn1Parser failed: ' + out[-1500:]
    common = ['ecdh_der', 'b64file']; jobs = []
    src = sorted(glob.glob(repo + '/src/*.c')) + [repo + '/examples/%s.c' % x for x in common + ['elgamal_der']] + tabs
    objs = []
    for s in src: o = os.path.join(d, os.path.basename(s) + '.o'); objs.append(o); jobs.append(['gcc', '-c', s, '-o', o] + cf)
    for p in PROGS: jobs.append(['gcc', '-c', repo + '/examples/%s.c' % p, '-o', os.path.join(d, p + '.raw.o')] + cf)
    jobs.append(['gcc', '-c', HERE + '/clisim/host.c', '-o', os.path.join(d, 'host.o'), '-O1', '-g', '-w'])
    ps = [(j, subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for j in jobs]
    for j, p in ps:
        out, _ = p.communicate()
        if p.returncode: return 'compiling %s failed: %s' % (j[2], out[-1500:])
    for p in PROGS:       # each program keeps its own globals; only its main is visible, under its own name
        r, o = os.path.join(d, p + '.raw.o'), os.path.join(d, p + '.o'); objs.append(o)
        rc, out = _sh(['objcopy', '--redefine-sym', 'main=main_' + p, r])
        if rc == 0: rc, out = _sh(['objcopy', '--keep-global-symbol=main_' + p, r, o])
        if rc: return 'objcopy failed: ' + out[-1500:]
    rc, out = _sh(['gcc', '-o', os.path.join(d, 'host'), os.path.join(d, 'host.o')] + san + objs + ['-Wl,--wrap=' + w for w in WRAPS] + ['-ltasn1', '-lpopt', '-lb64', '-lsodium', '-lgmp', '-lpthread'])
    return 'linking failed: ' + out[-1500:] if rc else None
def environment(d): return {}
DIR = None; sodium = None
class File(ctypes.Structure): _fields_ = [('name', ctypes.c_char * 64)] + [(n, ctypes.c_uint32) for n in 'exists off len chunk fail_at fail_kind fail_times keep_going'.split()]
NF, OUTCAP, INCAP, ERRCAP = 8, 8 << 20, 8 << 20, 16384
class Shm(ctypes.Structure):
    _fields_ = [('prog', ctypes.c_uint32), ('argc', ctypes.c_uint32), ('args', (ctypes.c_char * 80) * 16), ('seed', ctypes.c_uint64), ('dev_mode', ctypes.c_uint32), ('dev_at', ctypes.c_uint32)] + \
        [(n, ctypes.c_uint32) for n in 'out_fail_at out_kind out_times out_buf err_fail nfiles'.split()] + [('f', File * NF)] + \
        [(n, ctypes.c_uint32) for n in 'outlen errlen reads writes opens injected devbytes status hang killed'.split()] + [('err', ctypes.c_char * ERRCAP), ('inb', ctypes.c_ubyte * INCAP), ('out', ctypes.c_ubyte * OUTCAP)]
def setup(d):
    global DIR, sodium
    DIR = d; sodium = ctypes.CDLL(ctypes.util.find_library('sodium') or 'libsodium.so.23'); refec.named(); refec.small()
    n = int(subprocess.run([d + '/host', 'size'], stdout=subprocess.PIPE, text=True).stdout)
    if n != ctypes.sizeof(Shm): raise HarnessError('shared memory layout: %d / %d' % (n, ctypes.sizeof(Shm)))

# ---------------------------------------------------------------- formats (independent of the programs)
def xsalsa(b, nonce, key):
    o = ctypes.create_string_buffer(len(b) + 1)
    if sodium.crypto_stream_xor(o, b, ctypes.c_ulonglong(len(b)), nonce, key): raise HarnessError('crypto_stream_xor')
    return o.raw[:len(b)]
def mpi(v): return v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big')
def tlv(t, b):
    n = len(b); return bytes([t]) + (bytes([n]) if n < 128 else (lambda l: bytes([0x80 | len(l)]) + l)(mpi(n))) + b
def octet(b): return tlv(4, b)
def dint(v): return tlv(2, v.to_bytes(v.bit_length() // 8 + 1, 'big', signed=True))
TYPES = {WS: 2, ED: 3, MO: 4, TE: 5}; RTYPES = {v: k for k, v in TYPES.items()}
def curve_fields(cv): return dict(p=mpi(cv.p), type=TYPES[cv.type], p1=mpi(cv.u), p2=mpi(cv.v), n=mpi(cv.n), h=mpi(cv.h), gx=mpi(cv.g[0]), gy=mpi(cv.g[1]), bits=cv.bits)
def der_curve(f):
    return tlv(0x30, octet(f['p']) + tlv(10, bytes([f['type']]) if f['type'] < 128 else f['type'].to_bytes(8, 'big')) + tlv(0x30, octet(f['p1']) + octet(f['p2'])) + octet(f['n']) + octet(f['h']) + tlv(0x30, octet(f['gx']) + octet(f['gy'])) + dint(f['bits']))
def der_priv(f): return tlv(0x30, octet(f['d']) + der_curve(f))
def der_pub(f): return tlv(0x30, octet(f['q']) + der_curve(f))
def der_msg(f): return tlv(0x30, octet(f['q']) + octet(f['nonce']) + octet(f['ct']))
def der_eg(f): return tlv(0x30, octet(f['c']) + octet(f['e']) + der_curve(f))
TAG = dict(priv='ECDH PRIVATE KEY', pub='ECDH PUBLIC KEY', msg='ECDHE_XSALSA20 ENCRYPTED MESSAGE', eg='ECELGAMAL ENCRYPTED MESSAGE', smsg='ECDSA SIGNED MESSAGE', sig='ECDSA SIGNATURE')
DER = dict(priv=der_priv, pub=der_pub, msg=der_msg, eg=der_eg)
def armor(b, tag):
    e = base64.b64encode(b).decode(); return ('-----BEGIN %s-----\n' % tag + ''.join(e[i:i + 72] + '\n' for i in range(0, len(e), 72)) + ('\n' if not e else '') + '-----END %s-----\n' % tag).encode()
NOTB64 = bytes(c for c in range(256) if c not in b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')
def unarmor(data, tag):
    """the bytes of the first block with the tag, the way armored files are read: lines and dashes separate, and
    what is not base64 is ignored"""
    t = [x for x in data.split(b'\0')[0].split(b'-') if x]; bt, et = ('BEGIN ' + tag).encode(), ('END ' + tag).encode()
    if bt not in t: return None
    i = t.index(bt)
    if i + 2 >= len(t) or t[i + 2] != et: return None
    e = t[i + 1].translate(None, NOTB64); m = len(e) * 6 // 8      # what is left of an incomplete group is dropped
    return base64.b64decode(e + b'A' * (-len(e) % 4))[:m]
class Bad(Exception): pass
class Odd(Exception): pass
class Rd:
    def __init__(s, b): s.b, s.i = b, 0
    def tlv(s, tag):
        b, i = s.b, s.i
        if i + 2 > len(b): raise Bad('short')
        if b[i] != tag: raise Odd('tag')
        n = b[i + 1]; i += 2
        if n & 0x80:
            k = n & 0x7f
            if k == 0 or k > 4 or i + k > len(b): raise Odd('length')
            n = int.from_bytes(b[i:i + k], 'big'); i += k
            if n < 128 or mpi(n) != b[i - k:i]: raise Odd('length')
        if i + n > len(b): raise Bad('short')
        s.i = i + n; return b[i:i + n]
    def end(s):
        if s.i != len(s.b): raise Odd('trailing')
def un_curve(r):
    c = Rd(r.tlv(0x30)); f = {}
    f['p'] = c.tlv(4); t = c.tlv(10); q = Rd(c.tlv(0x30)); f['p1'] = q.tlv(4); f['p2'] = q.tlv(4); q.end(); f['n'] = c.tlv(4); f['h'] = c.tlv(4); q = Rd(c.tlv(0x30)); f['gx'] = q.tlv(4); f['gy'] = q.tlv(4); q.end(); b = c.tlv(2); c.end()
    if len(t) != 1 or len(b) not in (1, 2, 3) or (len(b) > 1 and b[0] == 0 and b[1] < 128): raise Odd('number')
    f['type'] = t[0]; f['bits'] = int.from_bytes(b, 'big', signed=True); return f
def un_der(kind, b):
    r0 = Rd(b); r = Rd(r0.tlv(0x30)); r0.end(); f = {}
    if kind == 'priv': f['d'] = r.tlv(4); f.update(un_curve(r))
    if kind == 'pub': f['q'] = r.tlv(4); f.update(un_curve(r))
    if kind == 'msg': f['q'] = r.tlv(4); f['nonce'] = r.tlv(4); f['ct'] = r.tlv(4)
    if kind == 'eg': f['c'] = r.tlv(4); f['e'] = r.tlv(4); f.update(un_curve(r))
    r.end(); return f
KNOWN = {}
def PRIMES():
    known(dict(p=b'', type=0, p1=b'', p2=b'', n=b'', h=b'', gx=b'', gy=b'', bits=0)); return {k[1] for k in KNOWN}
def known(f):
    """the curve of a file if it is one of the simulation's curves"""
    if not KNOWN:
        for cv in refec.small() + list(refec.named().values()): KNOWN.setdefault((TYPES[cv.type], cv.p, cv.u, cv.v, cv.n, cv.h, cv.g, cv.bits), cv)
    i = lambda k: int.from_bytes(f[k], 'big')
    return KNOWN.get((f['type'], i('p'), i('p1'), i('p2'), i('n'), i('h'), (i('gx'), i('gy')), f['bits']))
def point(cv, b):
    """-> ('ok', P) | ('bad',) | ('any',): what a reader of an encoding has to make of it"""
    L = cv.blen
    if not b: return ('bad',)
    if b[0] == 0: return ('ok', cv.neutral()) if len(b) in (1 + L, 1 + 2 * L) and not any(b) else ('any',)
    ok, P = cv.decode(b)
    if ok: return ('ok', P)
    if len(b) == 1 + 2 * L and b[0] == 4 and (int.from_bytes(b[1:1 + L], 'big') >= cv.p or int.from_bytes(b[1 + L:], 'big') >= cv.p): return ('any',)
    if len(b) == 1 + L and b[0] in (2, 3):
        if int.from_bytes(b[1:], 'big') >= cv.p: return ('any',)
        if cv.ys(int.from_bytes(b[1:], 'big')) == [0]: return ('any',)
    return ('bad',)
def generator_off(f):
    """a curve over a known field, of a known type, whose generator does not satisfy its equation"""
    i = lambda k: int.from_bytes(f[k], 'big'); p, u, v, g = i('p'), i('p1'), i('p2'), (i('gx'), i('gy')); t = RTYPES.get(f['type'])
    if t is None or p not in PRIMES() or not (0 <= u < p and 0 <= v < p and g[0] < p and g[1] < p and 0 < i('n') and f['bits'] == p.bit_length()): return False
    return not refec.Curve(t, '', p, u, v, i('n'), i('h'), *g).on(g)
# what a file says: ('ok', ...) usable | ('bad', why) has to be refused | ('any', why) may be refused
def read_key(kind, data):
    b = unarmor(data, TAG[kind])
    if b is None: return ('bad', 'no block')
    try: f = un_der(kind, b)
    except Bad as e: return ('bad', str(e))
    except Odd as e: return ('any', str(e))
    cv = known(f)
    if cv is None: return ('bad', 'generator') if generator_off(f) else ('any', 'curve')
    if kind == 'priv': return ('ok', cv, int.from_bytes(f['d'], 'big'))
    r = [point(cv, f[k]) for k in (('q',) if kind == 'pub' else ('c', 'e'))]
    if any(x[0] == 'bad' for x in r): return ('bad', 'point')
    if kind == 'pub' and r[0] == ('ok', cv.neutral()): return ('any', 'neutral')   # an encryption to it can be read by everybody, but is what the file asks for
    if any(x[0] == 'any' for x in r): return ('any', 'point')
    return ('ok', cv) + tuple(x[1] for x in r)
def fields(kind, data):
    b = unarmor(data, TAG[kind])
    try: return un_der(kind, b) if b is not None else None
    except (Bad, Odd): return None
def read_msg(cv, data):
    b = unarmor(data, TAG['msg'])
    if b is None: return ('bad', 'no block')
    try: f = un_der('msg', b)
    except Bad as e: return ('bad', str(e))
    except Odd as e: return ('any', str(e))
    if len(f['nonce']) != 24: return ('bad', 'nonce')
    r = point(cv, f['q'])
    return r + (f['nonce'], f['ct']) if r[0] == 'ok' else r + ('point',)
def sodium_key(cv, K): return hashlib.sha256(cv.encode(K, True)).digest()
def blocks(out):
    """strict reading of a program's output: armored blocks and nothing else -> [(tag, bytes)]"""
    r = []; i = 0
    while i < len(out):
        if not out.startswith(b'-----BEGIN ', i): return None
        j = out.find(b'-----\n', i + 11)
        if j < 0: return None
        tag = out[i + 11:j].decode('latin-1'); e = b'-----END %s-----\n' % tag.encode('latin-1'); k = out.find(e, j)
        if k < 0: return None
        try: b = base64.b64decode(out[j + 6:k].replace(b'\n', b''), validate=True)
        except binascii.Error: return None
        r.append((tag, b)); i = k + len(e)
    return r

# ---------------------------------------------------------------- the simulated machine
class Res:
    __slots__ = ('prog', 'code', 'sig', 'out', 'err', 'inj', 'hang', 'killed', 'reads', 'writes')
class World:
    def __init__(w, c):
        w.c = c; w.fd = os.memfd_create('clisim'); os.ftruncate(w.fd, ctypes.sizeof(Shm)); w.m = mmap.mmap(w.fd, ctypes.sizeof(Shm)); w.s = Shm.from_buffer(w.m)
        e = {'PATH': os.environ.get('PATH', ''), 'ASAN_OPTIONS': 'detect_leaks=0:halt_on_error=0:abort_on_error=1:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:handle_abort=0', 'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:print_stacktrace=1'}
        w.p = subprocess.Popen([DIR + '/host', str(w.fd)], pass_fds=[w.fd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e)
        c.cleanup.append(w.close); w.disk = {}; w.seen = set(); w.ncmd = 0; w.erroff = 0
        sm, nm = refec.small(), list(refec.named().values())
        w.curves = [c.pick(sm), c.pick(nm), c.pick(nm)] if c.chance(0.6) else [c.pick(nm), c.pick(nm), c.pick(nm)] if c.chance(0.5) else [c.pick(sm), c.pick(sm), c.pick(nm)]
    def close(w): w.p.stdin.close(); w.p.stdout.close(); w.p.wait(10) if w.p.poll() is None else None
    def run(w, prog, args, stdin, faults):
        """faults: dict of planned faults; returns what the process did"""
        c, s = w.c, w.s; s.prog = PROGS.index(prog); s.argc = len(args)
        for i, a in enumerate(args): s.args[i].value = a.encode()
        s.seed = c.bits(40) << 20 | w.ncmd & 0xfffff; s.dev_mode, s.dev_at = faults.get('dev', (0, 0)); s.out_kind, s.out_fail_at, s.out_times = faults.get('out', (0, 0, 0)); s.out_buf = faults.get('buf', 0); s.err_fail = faults.get('err', 0)
        names = [''] + [a.split('=', 1)[1] if '=' in a else a for a in args if '=' in a or not a.startswith('-')]
        off = 0; s.nfiles = 0
        for i, nme in enumerate(names):
            data = stdin if i == 0 else w.disk.get(nme); f = s.f[i]; ctypes.memset(ctypes.byref(f), 0, ctypes.sizeof(f)); f.name = nme.encode()[:63]; s.nfiles = i + 1
            if data is None or (i and faults.get('missing') == nme): continue
            f.exists = 1; f.off = off; f.len = len(data); ctypes.memmove(ctypes.addressof(s.inb) + off, bytes(data), len(data)); off += len(data)
            f.chunk = faults.get('chunk', 0)
            if faults.get('in', (None,))[0] == i: _, f.fail_kind, at, f.fail_times = faults['in']; f.fail_at = min(at, len(data))
        w.p.stdin.write(b'g'); w.p.stdin.flush()
        if w.p.stdout.read(1) != b'R': raise HarnessError('the host ended: %s' % w.p.wait())
        r = Res(); r.prog = prog; st = s.status; r.sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0; r.code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
        r.out = ctypes.string_at(ctypes.addressof(s.out), s.outlen); r.err = ctypes.string_at(ctypes.addressof(s) + Shm.err.offset, s.errlen); r.inj, r.hang, r.killed, r.reads, r.writes = s.injected, s.hang, s.killed, s.reads, s.writes
        w.ncmd += 1; c.count('op.' + prog); c.log('%s %s in=%d faults=%s -> code %d sig %d out %d:%s err %r inj %d reads %d writes %d' % (prog, ' '.join(args), len(stdin or b''), sorted(faults.items()), r.code, r.sig, len(r.out), hashlib.sha256(r.out).hexdigest()[:12], r.err[:60], r.inj, r.reads, r.writes))
        c.state(prog, r.code, r.sig, r.err[:24], r.inj, sorted(faults))
        for b, n in ((1, 'random_device'), (2, 'read_error'), (4, 'write_error'), (8, 'missing_file')):
            if r.inj & b: c.count('fault.' + n)
        if r.killed: c.count('fault.crash')
        return r
    def faults(w, rate, nfiles):
        c = w.c; f = {}
        if c.chance(0.5): f['chunk'] = c.pick([1, 7, 64, 500, 4096, 16000])
        if c.chance(0.4): f['buf'] = c.pick([1, 2, 16, 60, 300, 1024, 4096])
        if c.chance(0.1): f['err'] = 1
        if not c.chance(rate): return f
        k = c.weighted([(4, 'in'), (6, 'out'), (1, 'dev'), (1, 'missing'), (1, 'both')])
        if k in ('in', 'both'): f['in'] = (c.choose(nfiles), c.pick([1, 1, 1, 3]), c.pick([c.choose(60), c.choose(600), c.choose(20000)]), c.pick([1, 2, 1000000]))
        if k in ('out', 'both'): f['out'] = (c.pick([1, 2, 2, 3, 4]), c.pick([0, c.choose(40), c.choose(400), c.choose(1500)]), c.pick([1, 2, 1000000]))
        if k == 'dev': f['dev'] = (1 + c.choose(3), c.choose(80))
        if k == 'missing': f['missing'] = 1
        return f

def hexs(b): return b[:40].hex() + ('..' if len(b) > 40 else '')
# expected results: each returns (must, check) with must in 'ok', 'fail', 'any' and check(out) -> complaint or None
def exp_gen(w, name):
    if name not in refec.named(): return 'fail', None
    cv = refec.named()[name]
    def chk(out):
        b = blocks(out)
        if b is None or len(b) != 1 or b[0][0] != TAG['priv']: return 'the output is not one private key'
        try: f = un_der('priv', b[0][1])
        except (Bad, Odd) as e: return 'the key is not DER: %s' % e
        if known(f) is None or known(f).key() != cv.key() or b[0][1] != der_priv(dict(curve_fields(cv), d=f['d'])): return 'the key file does not describe %s' % name
        d = int.from_bytes(f['d'], 'big')
        if not 0 < d < cv.n: return 'the private key is %d' % d
        if cv.n.bit_length() > 60 and ('d', d) in w.seen: return 'the private key was generated before'
        w.seen.add(('d', d))
    return 'ok', chk
def exp_pub(w, data):
    k = read_key('priv', data)
    if k[0] != 'ok': return ('fail' if k[0] == 'bad' else 'any'), None
    cv, d = k[1:]
    return 'ok', lambda out: None if out == armor(der_pub(dict(curve_fields(cv), q=cv.encode(cv.mul(cv.g, d % cv.n), True))), TAG['pub']) else 'the output is not the public key of the private key'
def exp_enc(w, key, msg, privs):
    k = read_key('pub', key)
    if k[0] != 'ok': return ('fail' if k[0] == 'bad' else 'any'), None
    cv, Q = k[1:]; d = privs.get((cv.key(), Q))
    def chk(out):
        b = blocks(out)
        if b is None or len(b) != 1 or b[0][0] != TAG['msg']: return 'the output is not one encrypted message'
        try: f = un_der('msg', b[0][1])
        except (Bad, Odd) as e: return 'the message is not DER: %s' % e
        if b[0][1] != der_msg(f): return 'the message is not canonical DER'
        r = point(cv, f['q'])
        if r[0] != 'ok' or r[1] == cv.neutral() or len(f['q']) != 1 + cv.blen: return 'the ephemeral key %s is not a point' % f['q'].hex()
        if len(f['nonce']) != 24 or ('n', f['nonce']) in w.seen: return 'the nonce is not fresh'
        w.seen.add(('n', f['nonce']))
        if cv.n.bit_length() > 60:
            if ('e', f['q']) in w.seen: return 'the ephemeral key was used before'
            w.seen.add(('e', f['q']))
        if len(f['ct']) != len(msg): return 'the ciphertext has %d bytes, the message %d' % (len(f['ct']), len(msg))
        if d is not None and xsalsa(f['ct'], f['nonce'], sodium_key(cv, cv.mul(r[1], d))) != msg: return 'the output does not decrypt to the message'
    return 'ok', chk
def exp_dec(w, key, data):
    k = read_key('priv', key)
    if k[0] == 'bad': return 'fail', None
    if k[0] == 'any': return ('fail' if unarmor(data, TAG['msg']) is None else 'any'), None
    cv, d = k[1:]; m = read_msg(cv, data)
    if m[0] != 'ok': return ('fail' if m[0] == 'bad' else 'any'), None
    want = xsalsa(m[3], m[2], sodium_key(cv, cv.mul(m[1], d % cv.n)))
    return 'ok', lambda out: None if out == want else 'the output is %s, the message is %s' % (hexs(out), hexs(want))
def exp_sign(w, key, msg):
    k = read_key('priv', key)
    if k[0] != 'ok': return ('fail' if k[0] == 'bad' else 'any'), None
    cv, d = k[1:]
    def chk(out):
        b = blocks(out)
        if b is None or [x[0] for x in b] != [TAG['smsg'], TAG['sig']]: return 'the output is not a message and a signature'
        if b[0][1] != msg: return 'the message of the output is %s, it was %s' % (hexs(b[0][1]), hexs(msg))
        s = b[1][1]; L = cv.nlen
        if len(s) != 2 * L or not cv.ecdsa_ok(cv.mul(cv.g, d % cv.n), hashlib.sha512(msg).digest(), int.from_bytes(s[:L], 'big'), int.from_bytes(s[L:], 'big')): return 'the signature %s does not verify' % s.hex()
    return ('any' if d % cv.n == 0 or not msg else 'ok'), chk       # the library signs no empty message
def exp_verify(w, key, data):
    s, m = unarmor(data, TAG['sig']), unarmor(data, TAG['smsg'])
    if s is None or m is None: return 'fail', None
    k = read_key('pub', key)
    if k[0] != 'ok': return ('fail' if k[0] == 'bad' else 'any'), None
    cv, Q = k[1:]; L = cv.nlen
    good = len(s) == 2 * L and cv.ecdsa_ok(Q, hashlib.sha512(m).digest(), int.from_bytes(s[:L], 'big'), int.from_bytes(s[L:], 'big'))
    return ('any' if good and not m else 'ok' if good else 'fail'), lambda out: None if out == m else 'the output is not the signed message'
def exp_egenc(w, key, data, privs):
    k, t = read_key('pub', key), read_key('pub', data)
    if 'bad' in (k[0], t[0]): return 'fail', None
    if 'any' in (k[0], t[0]): return 'any', None
    cv, Q = k[1:]
    if t[1].key() != cv.key(): return 'fail', None
    M = t[2]; d = privs.get((cv.key(), Q))
    def chk(out):
        b = blocks(out)
        if b is None or len(b) != 1 or b[0][0] != TAG['eg']: return 'the output is not one ciphertext'
        try: f = un_der('eg', b[0][1])
        except (Bad, Odd) as e: return 'the ciphertext is not DER: %s' % e
        if known(f) is None or known(f).key() != cv.key() or b[0][1] != der_eg(dict(curve_fields(cv), c=f['c'], e=f['e'])): return 'the ciphertext does not describe the curve'
        C, D = point(cv, f['c']), point(cv, f['e'])
        if C[0] != 'ok' or D[0] != 'ok': return 'the ciphertext has a point which is not on the curve'
        if C[1] == cv.neutral(): return 'the ephemeral key is neutral'
        if d is not None and cv.sub(D[1], cv.mul(C[1], d)) != M: return 'the output does not decrypt to the point'
    return 'ok', chk
def exp_egdec(w, key, data):
    k, t = read_key('priv', key), read_key('eg', data)
    if 'bad' in (k[0], t[0]): return 'fail', None
    if 'any' in (k[0], t[0]): return 'any', None
    cv, d = k[1:]
    if t[1].key() != cv.key(): return 'fail', None
    M = cv.sub(t[3], cv.mul(t[2], d % cv.n))
    return 'ok', lambda out: None if out == armor(der_pub(dict(curve_fields(cv), q=cv.encode(M, True))), TAG['pub']) else 'the output is not the decrypted point'

# Known findings: defects of the programs as shipped (their sources may not be repaired here). Each is identified by the
# program, the kind of outcome, and the input, fault or call site it needs; anything else is still a violation.
def load_known():
    f = os.path.join(os.path.dirname(HERE), 'known_findings.txt'); r = set()
    for l in open(f):
        x = l.split()
        if l.startswith('known:') and len(x) > 2 and x[2].startswith('cli-'): r.add(x[2])
    return r
def frames(err):
    """the first report of the sanitizer: [(function, file)] from the innermost"""
    r = []
    for l in err.split('\n'):
        m = re.match(r'\s+#(\d+) 0x\w+ in (\S+)(?: \(?([^\s)]*))?', l)
        if m:
            if int(m.group(1)) == 0 and r: break
            r.append((m.group(2), os.path.basename((m.group(3) or '').split(':')[0])))
    return r
def finding(r, cls, msg, inp, err):
    """the identity of the known finding this outcome would be an instance of, or None"""
    fr = frames(err) if cls == 'crash' else []; fn = [x for x, _ in fr]; fl = [x for _, x in fr]; txt = r.err.decode('latin-1')
    died = cls in ('crash', 'hang'); gotb = inp.get('badcurve')
    if r.inj & 2 and cls in ('hang', 'false-success') and r.prog != 'ecdh_gen': return 'cli-read-error'
    if r.inj & 2 and cls == 'crash' and 'AddressSanitizer' in err and 'requested allocation' in err: return 'cli-read-error'
    if r.inj & 4 and not r.inj & 10 and cls == 'false-success': return 'cli-write-error'
    over = 'heap-buffer-overflow' in err or 'insufficient space' in err
    if cls == 'crash' and over and 'write_b64wrapped_to_file' in fn: return 'cli-short-armor'
    if cls == 'crash' and over and r.prog == 'ecdsa_verify' and 'ecdsa_verify.c' in fl and 'read_b64wrapped_from_buffer' in fn: return 'cli-verify-overread'
    if cls == 'crash' and r.sig == 6 and 'Assertion' in txt and ('myasn1_read_octet_string' in txt or 'myasn1_read_integer' in txt): return 'cli-der-assert'
    if cls == 'crash' and fr and 'myasn1_read_octet_string_to_mpz' in fn[:4]: return 'cli-der-assert'
    if inp.get('empty') and (cls in ('refused', 'crash')): return 'cli-empty'
    if died and gotb: return 'cli-not-a-curve'
    if inp.get('badpoint') and (died or cls == 'accepted' and r.prog == 'ecelgamal_dec'): return 'cli-rejected-point'
    if r.prog == 'ecelgamal_dec' and inp.get('neutral') and cls in ('refused', 'crash'): return 'cli-neutral-half'
    if r.prog == 'ecdh_dec' and inp.get('badmsg') and (cls in ('crash', 'hang', 'accepted')): return 'cli-dec-message'
    if r.prog == 'ecdh_gen' and cls == 'wrong-output' and msg.startswith('the private key is 0'): return 'cli-zero-key'
    if r.prog == 'ecdh_enc' and cls == 'wrong-output' and msg.startswith('the ephemeral key') and 'is not a point' in msg: return 'cli-zero-ephemeral'
    return None
KNOWNIDS = None
class KnownFinding(Exception): pass
def judge(w, r, exp, faults, ctx, inp={}):
    try: return judge1(w, r, exp, faults, ctx, inp)
    except KnownFinding as k: w.c.count('known.' + str(k)); w.c.log('known finding %s' % k); return False
def judge1(w, r, exp, faults, ctx, inp):
    c = w.c; must, chk = exp
    d = lambda: ' [%s: code %d sig %d, stderr %r, stdout %d bytes, faults %s]' % (ctx, r.code, r.sig, r.err[-200:], len(r.out), sorted(faults.items()))
    with open(c.errfile, 'rb') as f: f.seek(w.erroff); err = f.read().decode('utf-8', 'replace'); w.erroff = f.tell()
    def fail(cls, msg):
        global KNOWNIDS
        if KNOWNIDS is None: KNOWNIDS = load_known()
        k = finding(r, cls, msg, inp, err)
        if k in KNOWNIDS: raise KnownFinding(k)
        c.fail(cls, msg)
    if r.hang: fail('hang', 'the program does not end%s' % d())
    if r.sig == signal.SIGXCPU: fail('hang', 'the program does not end%s' % d())
    bug = 'AddressSanitizer' in err
    dev = faults.get('dev', (0,))[0] in (1, 2, 3) and r.inj & 1
    if bug or r.sig and not r.killed:
        if not (dev and r.sig == signal.SIGABRT and not bug):
            try: fail('crash', 'the program %s%s %s' % ('died of signal %d' % r.sig if r.sig else 'accesses memory it does not have', d(), err[:3000]))
            except KnownFinding as k:
                # a read past the end goes on to a result, which is judged as well
                if r.sig or str(k) != 'cli-verify-overread': raise
                c.count('known.' + str(k))
    if r.killed or r.sig: return False
    if r.code != 0:
        if r.inj == 0 and must == 'ok': fail('refused', 'the program refuses valid input%s' % d())
        if not r.err and 'err' not in faults: fail('silent', 'the program failed without a message%s' % d())
        return False
    if r.inj & 1 and faults['dev'][0] != 4: fail('false-success', 'status 0 although the random device failed%s' % d())
    if r.inj & ~1: fail('false-success', 'status 0 after a failed read, write or open%s' % d())
    if must == 'fail': fail('accepted', 'status 0 for input that has to be refused%s' % d())
    if chk is not None:
        m = chk(r.out)
        if m: fail('wrong-output', '%s%s' % (m, d()))
        c.count('check.outputs')
    else: c.count('probe.lenient')
    return True

def message(w):
    c = w.c; k = c.choose(9)
    if k == 0 and c.chance(0.3): return b''
    if k == 1: return c.bytes(1 + c.choose(30))
    if k == 2: return b'-----BEGIN ECDSA SIGNATURE-----\nAAAA\n-----END ECDSA SIGNATURE-----\n'
    if k == 3: return bytes(c.choose(40))
    if k == 4: return (c.bytes(61) * 2300)[:c.pick([15999, 16000, 16001, 32000, 53, 54, 55, 65535, 65536, 65537, 70000, 131073])]
    if k == 5: return b'plain text\n' * (1 + c.choose(30))
    return c.bytes(c.choose(300))
class Sim:
    """keys, messages and files of a run, and what is known about them"""
    def __init__(s, w):
        s.w = w; s.c = w.c; s.privs = {}; s.mate = {}; s.files = {k: [] for k in ('priv', 'pub', 'msg', 'eg', 'signed', 'plain')}; s.n = 0
    def store(s, kind, data):
        s.n += 1; name = '%s%d' % (kind, s.n); s.w.disk[name] = data; s.files[kind].append(name)
        if len(s.files[kind]) > 8: s.files[kind].pop(0)
        if kind == 'priv':
            k = read_key('priv', data)
            if k[0] == 'ok' and k[2] % k[1].n: s.privs[(k[1].key(), k[1].mul(k[1].g, k[2] % k[1].n))] = k[2] % k[1].n
        return name
    def other(s, src, k):
        """the file of the key that belongs to a signed or encrypted file"""
        m = s.mate.get(src)
        if m is None: return None
        r = read_key('priv' if k == 'verify' else 'pub', m)
        if r[0] != 'ok': return None
        if k == 'verify': return s.store('pub', armor(der_pub(dict(curve_fields(r[1]), q=r[1].encode(r[1].mul(r[1].g, r[2]), s.c.chance(0.5)))), TAG['pub']))
        d = s.privs.get((r[1].key(), r[2]))
        return None if d is None else s.store('priv', armor(der_priv(dict(curve_fields(r[1]), d=mpi(d))), TAG['priv']))
    def have(s, kind):
        l = s.files[kind]; return None if not l else l[-1] if s.c.chance(0.4) else s.c.pick(l)
    def newpriv(s):
        c = s.c; cv = c.pick(s.w.curves); d = c.pick([1, cv.n - 1, 2, 1 + c.below(cv.n - 1), 1 + c.below(cv.n - 1), 1 + c.below(cv.n - 1)])
        return s.store('priv', armor(der_priv(dict(curve_fields(cv), d=mpi(d))), TAG['priv']))
    def input(s, data, flag='--file='):
        """a file on the command line or the standard input -> (args, stdin)"""
        if s.c.chance(0.5): return [], s.w.disk[data], s.w.disk[data]
        return [flag + data], b'', s.w.disk[data]
    def step(s, rate, k=None):
        c, w = s.c, s.w
        k = k or c.weighted([(2, 'gen'), (4, 'pub'), (5, 'enc'), (6, 'dec'), (5, 'sign'), (8, 'verify'), (4, 'egenc'), (4, 'egdec')])
        if k == 'gen':
            name = c.pick([cv.name for cv in w.curves if cv.name in refec.named()] + (['nosuchcurve'] if c.chance(0.2) else [])); a = ['--curve=' + name]
            if c.chance(0.1): a, name = [], 'secp256k1'
            return s.go('ecdh_gen', a, b'', lambda: exp_gen(w, name), 'priv', rate, dev=True)
        key = s.have('priv' if k in ('pub', 'dec', 'sign', 'egdec') else 'pub')
        if key is None: return s.newpriv() if k in ('pub', 'dec', 'sign', 'egdec') else None
        if k == 'sign' and c.chance(0.85):     # signatures of tiny orders meet a known finding of the armor
            l = [x for x in s.files['priv'] if (lambda r: r[0] == 'ok' and r[1].nlen > 4)(read_key('priv', w.disk[x]))]
            if l: key = c.pick(l)
        kd = w.disk[key]
        if k == 'pub': a, i, d = s.input(key); return s.go('ecdh_pub', a, i, lambda: exp_pub(w, d), 'pub', rate)
        if k in ('enc', 'sign'):
            src = s.have('plain') if c.chance(0.3) else s.have('msg') if c.chance(0.2) else None
            a, i, d = s.input(src or s.store('plain', message(w)))
            if k == 'enc': return s.go('ecdh_enc', ['--pubkey=' + key] + a, i, lambda: exp_enc(w, kd, d, s.privs), 'msg', rate, dev=True)
            return s.go('ecdsa_sign', ['--privkey=' + key] + a, i, lambda: exp_sign(w, kd, d), 'signed', rate, dev=True)
        src = s.have(dict(dec='msg', verify='signed', egenc='pub', egdec='eg')[k])
        if src is None: return None
        if k != 'egenc' and c.chance(0.6):
            o = s.other(src, k)
            if o is not None: key, kd = o, w.disk[o]; c.count('probe.matching_key')
        a, i, d = s.input(src)
        if k == 'dec': return s.go('ecdh_dec', ['--privkey=' + key] + a, i, lambda: exp_dec(w, kd, d), 'plain', rate)
        if k == 'verify': return s.go('ecdsa_verify', ['--pubkey=' + key] + a, i, lambda: exp_verify(w, kd, d), 'plain', rate)
        if k == 'egenc': return s.go('ecelgamal_enc', ['--pubkey=' + key] + a, i, lambda: exp_egenc(w, kd, d, s.privs), 'eg', rate, dev=True)
        return s.go('ecelgamal_dec', ['--privkey=' + key] + a, i, lambda: exp_egdec(w, kd, d), 'pub', rate)
    def inputs(s, prog, args, stdin):
        """what is unusual about the files a command was given"""
        w = s.w; r = {}; names = [a.split('=', 1)[1] for a in args if '=' in a and not a.startswith('--curve')]; keyed = [a.split('=', 1)[1] for a in args if a.startswith(('--pubkey=', '--privkey='))]
        data = next((w.disk[n] for n in names if n not in keyed and n in w.disk), stdin)
        ks = [('pub' if any(a.startswith('--pubkey=') for a in args) else 'priv', w.disk[n]) for n in keyed if n in w.disk]
        if prog == 'ecdh_pub': ks = [('priv', data)]
        if prog == 'ecelgamal_enc': ks.append(('pub', data))
        if prog == 'ecelgamal_dec': ks.append(('eg', data))
        for kind, b in ks:
            k = read_key(kind, b); r['badcurve'] = r.get('badcurve') or (k[0] == 'any' and k[1] not in ('point', 'neutral') or k[1] == 'generator'); r['badpoint'] = r.get('badpoint') or k[0] != 'ok' and k[1] in ('point', 'neutral')
            if kind == 'eg' and k[0] == 'ok' and k[1].neutral() in k[2:]: r['neutral'] = True
            f = fields(kind, b); r['empty'] = r.get('empty') or f is not None and any(v in (b'',) for v in f.values())
            if r['badpoint'] is False and f is not None and known(f) is None: r['badcurve'] = True
        if prog in ('ecdh_enc', 'ecdsa_sign'): r['empty'] = r.get('empty') or not data
        if prog == 'ecdh_dec' and ks:
            k = read_key('priv', ks[0][1]); m = read_msg(k[1], data) if k[0] == 'ok' else ('any',); r['badmsg'] = m[0] != 'ok'
            f = fields('msg', data); r['empty'] = r.get('empty') or f is not None and (any(v == b'' for v in f.values()))
            if f is not None and len(f['nonce']) != 24: r['badmsg'] = True
        if not any((data or b'').split(b'\0')[0]): r['empty'] = True
        for t in ('sig', 'smsg', 'msg', 'priv', 'pub', 'eg'):
            for b in [x[1] for x in ks] + [data]:
                if unarmor(b, TAG[t]) == b'': r['empty'] = True
        return r
    def go(s, prog, args, stdin, exp, kind, rate, dev=False):
        w, c = s.w, s.c; nf = 1 + len([a for a in args if '=' in a and not a.startswith('--curve')]); f = w.faults(rate, nf)
        if 'missing' in f:
            l = [a.split('=')[1] for a in args if '=' in a and not a.startswith('--curve')]
            if l: f['missing'] = c.pick(l)
            else: del f['missing']
        if prog == 'ecdh_gen': f.pop('in', None)
        if dev and not f.get('dev') and c.chance(0.04): f['dev'] = (4, c.pick([32, 66, 100]))
        elif dev and not f and rate and c.chance(0.15): f['dev'] = (1 + c.choose(3), c.choose(80))
        r = w.run(prog, args, stdin, f); ok = judge(w, r, exp(), f, prog + ' ' + ' '.join(args), s.inputs(prog, args, stdin))
        c.count('probe.success' if ok else 'probe.failure')
        # the shell wrote what the program printed; the next program may well be given a torn file
        if ok or c.chance(0.3):
            n = s.store(kind, r.out); o = [a.split('=', 1)[1] for a in args if a.startswith(('--pubkey=', '--privkey='))]
            if kind in ('signed', 'msg', 'eg') and o and o[0] in w.disk: s.mate[n] = w.disk[o[0]]
        return ok
def start(c):
    w = World(c); s = Sim(w)
    for _ in range(2 + c.choose(2)): s.newpriv()
    for _ in range(2 + c.choose(2)):
        k = read_key('priv', w.disk[s.have('priv')]); cv, d = k[1:]
        s.store('pub', armor(der_pub(dict(curve_fields(cv), q=cv.encode(cv.mul(cv.g, d), c.chance(0.8)))), TAG['pub']))
    return w, s
def X01_pipeline(c):
    w, s = start(c); rate = c.pick([0.0, 0.3, 0.6])
    for _ in range(8 + c.choose(16)): s.step(rate)
    # once faults stop, every key and message written completely is usable
    kd = s.have('priv')
    for _ in range(3): s.step(0.0)
    c.count('check.commands', w.ncmd)

# ---------------------------------------------------------------- damage
def dmg_bytes(w, b, other):
    c = w.c; b = bytearray(b); k = c.choose(12); n = len(b)
    if n == 0: return bytes(b)
    c.count('fault.damage')
    if k == 0: return bytes(b[:c.choose(n)])
    if k == 1: i = c.choose(n); b[i] ^= 1 << c.choose(8); return bytes(b)
    if k == 2:
        for _ in range(1 + c.choose(4)): b[c.choose(n)] = c.choose(256)
        return bytes(b)
    if k == 3: i = c.choose(n); j = i + c.choose(min(512, n - i) or 1); b[i:j] = bytes(j - i); return bytes(b)         # lost page
    if k == 4: i = c.choose(n); return bytes(b[:i]) + other[i:]                                                        # torn overwrite
    if k == 5: i = c.choose(n); j = i + c.choose(n - i); del b[i:j]; return bytes(b)
    if k == 6: return bytes(b) + other
    if k == 7: return other + bytes(b)
    if k == 8: return bytes(b).replace(b'\n', b'\r\n')
    if k == 9: l = bytes(b).split(b'\n'); i = c.choose(len(l)); j = c.choose(len(l)); l[i], l[j] = l[j], l[i]; return b'\n'.join(l)
    if k == 10: l = bytes(b).split(b'\n'); i = c.choose(len(l)); l.insert(i, l[c.choose(len(l))]); return b'\n'.join(l)
    i = c.choose(n); b[i:i] = c.bytes(1 + c.choose(8)); return bytes(b)
def oddpoint(w, cv):
    c = w.c; L = cv.blen; k = c.choose(10)
    if k == 0: return bytes(1 + L)
    if k == 1: return b'\4' + c.below(cv.p).to_bytes(L, 'big') + c.below(cv.p).to_bytes(L, 'big')
    if k == 2: return bytes([2 + c.choose(2)]) + c.below(cv.p).to_bytes(L, 'big')
    if k == 3: return b''
    if k == 4: return c.bytes(c.choose(2 * L + 4))
    if k == 5: return cv.encode(cv.mul(cv.g, c.below(cv.n)), False)
    if k == 6: return cv.encode(cv.g, True)[:-1]
    if k == 7: return b'\4' + bytes(2 * L)
    if k == 8: return bytes([c.choose(256)]) + cv.encode(cv.mul(cv.g, 1 + c.choose(5)), True)[1:]
    # an uncompressed point of another curve over the same field
    return b'\4' + (1 + c.below(cv.p - 1)).to_bytes(L, 'big') + (1 + c.below(cv.p - 1)).to_bytes(L, 'big')
def dmg_fields(w, kind, data):
    """a well-formed file with an unusual value"""
    c = w.c; b = unarmor(data, TAG[kind])
    try: f = un_der(kind, b) if b is not None else None
    except (Bad, Odd): f = None
    if f is None: return dmg_bytes(w, data, data)
    c.count('fault.field'); cv = (known(f) if kind != 'msg' else None) or c.pick(w.curves); oc = c.pick(w.curves); of = curve_fields(oc)
    k = c.pick([x for x in f])
    if k in ('q', 'c', 'e'): f[k] = oddpoint(w, cv)
    elif k == 'd': f[k] = c.pick([b'', b'\0', mpi(cv.n), mpi(cv.n + 1 + c.choose(9)), c.bytes(1 + c.choose(200)), b'\0' * 5 + f['d']])
    elif k == 'nonce': f[k] = c.pick([b'', f['nonce'][:23], f['nonce'] + b'x', c.bytes(24)])
    elif k == 'ct': f[k] = c.pick([b'', c.bytes(1 + c.choose(99)), f['ct'][:-1]])
    elif k == 'bits': f[k] = c.pick([0, 1, f['bits'] - 1, f['bits'] + 1, f['bits'] + 8, 127, 128, 1023, 1024, 4095, 1 << 28, 1 << 31, 1 << 40, f['bits'] + 8 * c.choose(40)])
    elif k == 'type': f[k] = c.pick([0, 1, 2, 3, 4, 5, 6, 127, 200])
    else:
        v = int.from_bytes(f[k], 'big')
        f[k] = c.pick([b'', b'\0', b'\1', b'\2', b'\3', mpi(v + 1), mpi(max(0, v - 1)), mpi(v + 2), mpi(v ^ 1 << c.choose(max(1, v.bit_length()))), of[k], mpi(v + cv.p), b'\0' + f[k], c.bytes(1 + c.choose(150)), mpi((1 << 1024) - 105), mpi((1 << 1024) + 643), mpi((1 << 256) - 189)])
        if c.chance(0.2): f.update({x: of[x] for x in of if c.chance(0.5)})
    return armor(DER[kind](f), TAG[kind])
def dmg_der(w, kind, data):
    b = unarmor(data, TAG[kind])
    if not b: return dmg_bytes(w, data, data)
    return armor(dmg_bytes(w, b, b), TAG[kind])
def X02_damage(c):
    w, s = start(c); rate = c.pick([0.0, 0.0, 0.2])
    for _ in range(10 + c.choose(20)):
        if c.chance(0.55):
            kind = c.pick(['priv', 'pub', 'pub', 'msg', 'eg', 'signed', 'signed']); nme = s.have(kind)
            if nme is None: s.step(0.0); continue
            old = w.disk[nme]; oth = w.disk[c.pick(s.files[c.pick([k for k in s.files if s.files[k]])])]; m = c.choose(3)
            if kind == 'signed': new = dmg_signed(w, old, oth)
            else: new = dmg_bytes(w, old, oth) if m == 0 else dmg_der(w, kind, old) if m == 1 else dmg_fields(w, kind, old)
            if len(new) > 200000: continue
            c.log('damage %s: %d -> %d %s' % (nme, len(old), len(new), hashlib.sha256(new).hexdigest()[:12])); s.mate[s.store(kind, new)] = s.mate.get(nme)
            if c.chance(0.7): s.step(rate, c.pick(dict(priv=['pub', 'dec', 'sign', 'egdec'], pub=['enc', 'verify', 'egenc'], msg=['dec'], eg=['egdec'], signed=['verify'])[kind]))
        else: s.step(rate)
    c.count('check.commands', w.ncmd)
def dmg_signed(w, data, other):
    c = w.c; m, g = unarmor(data, TAG['smsg']), unarmor(data, TAG['sig'])
    if m is None or g is None or c.chance(0.4): return dmg_bytes(w, data, other)
    k = c.choose(10); c.count('fault.field'); L = len(g) // 2; cv = c.pick(w.curves)
    if k == 0: m = dmg_bytes(w, m, m)
    if k == 1: g = dmg_bytes(w, g, g)
    if k == 2: g = g[:L] + bytes(L)
    if k == 3: g = bytes(L) + g[L:]
    if k == 4: g = b''
    if k == 5: g = mpi(int.from_bytes(g[:L], 'big') + cv.n).rjust(L, b'\0')[-L:] + g[L:] if L else g
    if k == 6:
        n = cv.n; v = int.from_bytes(g[L:], 'big')
        if L == cv.nlen and 0 < v < n: g = g[:L] + (n - v).to_bytes(L, 'big')            # (r, -s) is a valid signature as well
    if k == 8: g = g + c.bytes(1 + c.choose(5)) if c.chance(0.7) else c.bytes(1 + c.choose(2)) + g
    if k == 9: g = g[:L] + b'\0' + g[L:] if c.chance(0.5) else b'\0' + g[:L] + b'\0' + g[L:]
    if k == 7: return armor(g, TAG['sig']) + armor(m, TAG['smsg'])
    return armor(m, TAG['smsg']) + armor(g, TAG['sig'])
SCENARIOS = dict(X01_pipeline=X01_pipeline, X02_damage=X02_damage)
def run(scen, scratch, repo, seed, budget, tier, replay_path, known):
    import pycore; return pycore.driver_run(__name__, scen, scratch, repo, seed, budget, tier, replay_path, known)
