"""Simulation of the Go binding: the real ecgo package and the real library in one process, driven line by
line.  The simulator decides when the collector and finalizers run (at any allocation or library entry inside
an operation) and when a task is suspended in the middle of an operation while other tasks proceed."""
import glob, os, shutil, subprocess, hashlib
import refec
from pycore import Violation, HarnessError
VARIANT = 'go'
HERE = os.path.dirname(os.path.abspath(__file__))
WRAPS = 'malloc calloc realloc free strdup strndup fopen fopen64 fdopen open open64 read close getrandom getentropy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock'.split()

def build(d, repo):
    g = os.path.join(d, 'gopath'); ob = os.path.join(d, 'o')
    for s in (os.path.join(g, 'src', 'ecgo'), os.path.join(g, 'src', 'gosim'), ob): os.makedirs(s, exist_ok=True)
    for f in glob.glob(repo + '/ecgo/*.go'):
        if not f.endswith('_test.go'): shutil.copy(f, os.path.join(g, 'src', 'ecgo'))
    for f in ('main.go', 'seam.c'): shutil.copy(os.path.join(HERE, 'gosim', f), os.path.join(g, 'src', 'gosim'))
    def sh(a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
    ps = []
    for s in sorted(glob.glob(repo + '/src/*.c')):
        o = os.path.join(ob, os.path.basename(s) + '.o')
        ps.append((s, o, subprocess.Popen(['gcc', '-c', '-O1', '-g', '-w', '-I' + repo + '/include', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, o, p in ps:
        out, _ = p.communicate()
        if p.returncode: return 'compiling %s failed: %s' % (s, out[-1500:])
    objs = [o for _, o, _ in ps]
    for o in objs:
        p = sh(['objcopy'] + ['--redefine-sym=%s=simL_%s' % (f, f) for f in ('malloc', 'calloc', 'realloc', 'free')] + [o])
        if p.returncode: return 'objcopy: ' + p.stdout[-800:]
    syms = sorted({l.split()[-1] for l in sh(['nm', '-g', '--defined-only'] + objs).stdout.splitlines() if ' T ' in l})
    lw = set(WRAPS)
    with open(os.path.join(d, 'tramp.s'), 'w') as f:
        f.write('.text\n')
        for s in syms:
            if s in lw: continue
            f.write('.globl __wrap_%s\n.type __wrap_%s,@function\n__wrap_%s:\n push %%rdi\n push %%rsi\n push %%rdx\n push %%rcx\n push %%r8\n push %%r9\n push %%rax\n call sim_enter@PLT\n pop %%rax\n pop %%r9\n pop %%r8\n pop %%rcx\n pop %%rdx\n pop %%rsi\n pop %%rdi\n jmp __real_%s@PLT\n' % (s, s, s, s))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    p = sh(['gcc', '-c', os.path.join(d, 'tramp.s'), '-o', os.path.join(ob, 'tramp.o')])
    if p.returncode: return 'trampolines: ' + p.stdout[-800:]
    lib = os.path.join(d, 'libecc.a')
    if os.path.exists(lib): os.unlink(lib)
    p = sh(['ar', 'rcs', lib] + objs + [os.path.join(ob, 'tramp.o')])
    if p.returncode: return 'ar: ' + p.stdout[-800:]
    cache = os.path.join(d, 'gocache')
    if not os.path.isdir(cache):
        if os.path.isdir('/opt/vp/cache/go'): shutil.copytree('/opt/vp/cache/go', cache)
        else: os.makedirs(cache)
    h = hashlib.sha256()
    for f in [lib] + sorted(glob.glob(repo + '/include/*.h') + glob.glob(repo + '/include/ecc/*.h')): h.update(open(f, 'rb').read())
    e = {k: v for k, v in os.environ.items() if not k.startswith(('GO', 'CGO'))}
    e.update(GO111MODULE='off', GOPATH=g, GOCACHE=cache, GOFLAGS='', GOPROXY='off', GOTOOLCHAIN='local', CGO_ENABLED='1', CC='gcc', HOME=e.get('HOME', '/root'),
             CGO_CFLAGS='-O1 -g -w -I%s/include -DECC_API_HASH=0x%s' % (repo, h.hexdigest()[:15]), CGO_LDFLAGS='-L' + d, CGO_LDFLAGS_ALLOW='.*', GOTMPDIR=ob)
    ext = ' '.join('-Wl,--wrap=' + w for w in WRAPS + syms)
    p = sh(['go', 'build', '-trimpath', '-ldflags', '-linkmode=external -extldflags "%s"' % ext, '-o', os.path.join(d, 'gosim.bin'), 'gosim'], env=e, cwd=g)
    shutil.rmtree(cache, ignore_errors=True)
    return 'building the Go simulator failed: ' + p.stdout[-2500:] if p.returncode else None
def environment(d): return {}
BIN = None
def setup(d):
    global BIN
    BIN = os.path.join(d, 'gosim.bin'); refec.named(); refec.small()
PRIMES = [3, 5, 7, 251, 257, 65537, (1 << 61) - 1, (1 << 64) - 59, (1 << 127) - 1, (1 << 521) - 1, (1 << 1024) - 105]
HASH = ['sha1', 'sha224', 'sha256', 'sha384', 'sha512']
hx = lambda i: ('-%x' % -i) if i < 0 else '%x' % i

class Proc:
    """the simulated process: one line in, one line out"""
    def __init__(s, c):
        s.c = c
        e = {k: v for k, v in os.environ.items() if not k.startswith(('GO', 'LD_'))}
        e.update(GODEBUG='asyncpreemptoff=1', GOMAXPROCS='2', GOTRACEBACK='single')
        s.err = open(c.errfile + '.go', 'w+b')
        s.p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=s.err, env=e)
        c.cleanup.append(s.kill)
    def kill(s):
        try: s.p.kill(); s.p.wait()
        except Exception: pass
    def send(s, line, reply=True):
        import select
        try: s.p.stdin.write(line.encode() + b'\n'); s.p.stdin.flush()
        except BrokenPipeError: s.dead(line)
        if not reply: return None
        if not select.select([s.p.stdout], [], [], 100)[0]: s.c.fail('hang', 'no progress in: ' + line[:300])
        r = s.p.stdout.readline()
        if not r.endswith(b'\n'): s.dead(line)
        return r.decode()[:-1]
    def dead(s, line):
        import signal
        rc = s.p.wait(); s.err.seek(0); t = s.err.read().decode('utf-8', 'replace')
        if rc == 86:
            l = [x for x in t.splitlines() if x.startswith('SIMFAIL')][0]
            if 'harness' in l: raise HarnessError(l)
            s.c.fail(l.split()[1], '%s in: %s' % (l.split(' ', 2)[2], line[:200]))
        if rc == 87: raise HarnessError(t[-500:])
        if rc == -signal.SIGXCPU or rc == -signal.SIGKILL: s.c.fail('hang', 'the operation does not end: ' + line[:200])
        t = t.replace('\n', ' | '); import re
        t = re.sub(r'0x[0-9a-f]+', '0x..', t)
        s.c.fail('crash', 'the process ended with status %s in: %s; %s' % (rc, line[:200], t[:600]))

class Ob:
    __slots__ = ('k', 'v', 'cv', 'cvo', 'x', 'rd', 'wr')
    def __init__(s, k, v, cv=None, cvo=None, x=None): s.k, s.v, s.cv, s.cvo, s.x, s.rd, s.wr = k, v, cv, cvo, x, 0, 0
NR = {'F': 7, 'P': 8, 'C': 4, 'S': 2, 'G': 3, 'E': 3}

class World:
    def __init__(w, c, ntasks, gcp, swp):
        w.c, w.nt, w.gcp, w.swp = c, ntasks, gcp, swp
        w.pr = Proc(c); w.reg = [{k: [None] * n for k, n in NR.items()} for _ in range(ntasks)]; w.pend = {}
        nm = list(refec.named().values()); sm = refec.small()
        w.curves = [c.pick(sm) for _ in range(1 + c.choose(2))] + ([c.pick(nm)] if c.chance(0.35) else [])
        w.primes = [c.pick(PRIMES) for _ in range(2)] + [w.curves[0].n, w.curves[0].p]
        w.pr.send('seed %x' % c.bits(48), False)
        w.quiet = True; w.checked = 0
    # ---- one operation of task t. reads/writes: objects in use while it runs
    def op(w, t, line, done, reads=(), writes=()):
        c = w.c; g = s = 0
        if not w.quiet:
            if c.chance(w.gcp): g = 1 + c.choose(5) if c.chance(0.6) else 1 + c.below(1 << (1 + c.choose(14)))
            if w.nt > 1 and c.chance(w.swp): s = 1 + c.choose(6) if c.chance(0.6) else 1 + c.below(1 << (1 + c.choose(14)))
        r = w.pr.send('%d %d %d %s' % (t, g, s, line))
        c.log('%d %d %d %s -> %s' % (t, g, s, line[:300], r[:300])); c.count('op.' + line.split()[0])
        if g: c.count('fault.collect_armed')
        if r == '%d ~' % t:
            c.count('sched.suspended')
            for o in reads: o.rd += 1
            for o in writes: o.wr += 1
            w.pend[t] = (done, reads, writes, line); return
        w.finish(t, r, done, line)
    def finish(w, t, r, done, line):
        c = w.c
        if not r.startswith('%d ' % t): raise HarnessError('protocol: %r' % r)
        r = r[2:]
        if 'MODIFIED' in r and not w.operands: r = r[:r.index(' MODIFIED')]
        if 'MODIFIED' in r: c.fail('operand', 'an operand of "%s" changed: %s' % (line[:300], r[r.index('MODIFIED'):][:300]))
        if r.startswith('runtime-panic') or (r == 'panic' and done is not EXPECT_PANIC): c.fail('panic', '"%s" with valid operands: %s' % (line[:300], r[:300]))
        done(r)
    def resume(w, t):
        done, reads, writes, line = w.pend[t]
        r = w.pr.send('resume %d' % t); w.c.log('resume %d -> %s' % (t, r[:300]))
        for o in reads: o.rd -= 1
        for o in writes: o.wr -= 1
        del w.pend[t]; w.finish(t, r, done, line)
    def resume_all(w):
        while w.pend: w.resume(w.c.pick(sorted(w.pend)))
    # ---- registers
    def free(w, t, k, avoid=()):
        """a register for a result; what it held is dropped"""
        c = w.c; R = w.reg[t][k]
        l = [i for i in range(len(R)) if i not in avoid]
        e = [i for i in l if R[i] is None]
        return c.pick(e) if e and c.chance(0.7) else c.pick(l)
    def have(w, t, k, pred=None):
        R = w.reg[t][k]
        l = [i for i in range(len(R)) if R[i] is not None and not R[i].wr and (k != 'F' or R[i].v is not None) and (pred is None or pred(R[i]))]
        return w.c.pick(l) if l else None
    def use(w, t, k, i, keep=()):
        """text of an operand, sometimes as its last use"""
        if not w.quiet and i not in keep and w.c.chance(0.3): w.reg[t][k][i] = None; w.c.count('fault.last_use'); return '%d!' % i
        return str(i)
    def want(w, what, exp):
        def f(r):
            w.checked += 1
            if r != exp: w.c.fail('value', '%s is %s, the reference says %s' % (what, r[:400], exp[:400]))
        return f
    def put(w, t, k, i, ob): w.reg[t][k][i] = ob; w.c.state(k, ob.cv.name if ob.cv else '', _small(ob.v))

def EXPECT_PANIC(r):
    if r != 'panic': raise Violation('value', 'an operation that has to panic returned ' + r[:200])
def _small(v):
    if isinstance(v, int): return v if abs(v) < 1 << 16 else v % 65521
    if isinstance(v, tuple): return tuple(_small(x) for x in v)
    return v

def integer(w, p):
    c = w.c; k = c.choose(11)
    if k == 0: return c.choose(16)
    if k == 1: return -c.choose(16) - 1
    if k == 2: return p + c.choose(3) - 1
    if k == 3: return -p + c.choose(3) - 1
    if k == 4: return c.below(p)
    if k == 5: return -c.below(p)
    if k == 6: return c.bits(c.pick([8, 64, 256, 512]))
    if k == 7: return -(1 << (8 * (1 + c.choose(40)))) + c.choose(3) - 1
    if k == 8: return (1 << (8 * (1 + c.choose(40)) - c.choose(2))) + c.choose(3) - 1
    if k == 9: return c.bits(c.pick([2000, 2048, 2056, 4096])) * (1 if c.chance(0.5) else -1)
    return p * c.choose(1000) + c.choose(5) - 2
def point(w, cv):
    c = w.c; k = c.choose(6)
    if k == 0: return cv.neutral()
    if k == 1: return cv.g
    if k == 2: return cv.neg(cv.g)
    return cv.mul(cv.g, c.below(cv.n))
def enc(cv, P): return cv.encode(P, False).hex()

# ---- producers: make sure a register holds something and return its number
def get_F(w, t, p=None, fresh=0.2):
    i = w.have(t, 'F', (lambda o: o.v[1] == p) if p else None)
    if i is None or w.c.chance(fresh): new_F(w, t, p); i = w.have(t, 'F', (lambda o: o.v[1] == p) if p else None)
    return i
def new_F(w, t, p=None):
    c = w.c; p = p or c.pick(w.primes); i = w.free(t, 'F'); k = c.choose(4)
    if t in w.pend: return
    if k == 3: v = c.bits(64); line = 'fnewui %d %x %x' % (i, v, p)
    else: v = integer(w, p); line = 'fnew %d %s %x' % (i, hx(v), p)
    def done(r):
        w.want('%s' % line, '%x' % (v % p))(r); w.put(t, 'F', i, Ob('F', (v % p, p)))
    w.reg[t]['F'][i] = None; w.op(t, line, done)
def new_C(w, t, cv):
    c = w.c; i = w.free(t, 'C'); w.reg[t]['C'][i] = None
    if cv.name in refec.named() and c.chance(0.5): line = 'cnamed %d %s' % (i, cv.name)
    else: line = 'cnew %d %d %s %x' % (i, cv.type, ' '.join(hx(x) for x in (cv.p, cv.u, cv.v, cv.n, cv.h) + cv.g), cv.bits)
    def done(r): w.want(line[:300], 'true')(r); w.put(t, 'C', i, Ob('C', None, cv))
    w.op(t, line, done)
def get_C(w, t, cv=None):
    p = (lambda o: o.cv is cv) if cv else None; i = w.have(t, 'C', p)
    if i is None or w.c.chance(0.2): new_C(w, t, cv or w.c.pick(w.curves)); i = w.have(t, 'C', p)
    return i
def get_P(w, t, cv=None, fresh=0.15):
    p = (lambda o: o.cv is cv) if cv else None; i = w.have(t, 'P', p)
    if i is None or w.c.chance(fresh): new_P(w, t, cv); i = w.have(t, 'P', p) if t not in w.pend else None
    return i
def new_P(w, t, cv=None):
    c = w.c; j = get_C(w, t, cv)
    if j is None or t in w.pend: return
    co = w.reg[t]['C'][j]; cv = co.cv; P = point(w, cv); i = w.free(t, 'P'); k = c.choose(7); w.reg[t]['P'][i] = None
    if P == cv.neutral() and k in (2, 5): k = 0
    exp = ''
    if k == 0: line = 'pneut %d %s' % (i, w.use(t, 'C', j)); P = cv.neutral()
    elif k == 1: line = 'pgen %d %s' % (i, w.use(t, 'C', j)); P = cv.g
    elif k in (2, 5): line = 'pxy %d %s %s %s' % (i, hx(P[0] + cv.p * (c.choose(3) - 1)), hx(P[1] + cv.p * (c.choose(3) - 1)), w.use(t, 'C', j))
    elif k == 3:
        s = cv.encode(P, c.chance(0.5)).hex(); line = 'pstr %d "%s %s' % (i, s.upper() if c.chance(0.5) else s, w.use(t, 'C', j)); exp = 'true'
    elif k == 4: line = 'pbytes %d x%s %s' % (i, cv.encode(P, c.chance(0.5)).hex(), w.use(t, 'C', j)); exp = 'true'
    else:
        line = 'prand %d %s' % (i, w.use(t, 'C', j))
        def done(r):
            ok, P = decode(cv, r)
            if not ok: c.fail('value', '%s made %s, which is not on %s' % (line, r[:300], cv.name))
            w.put(t, 'P', i, Ob('P', P, cv, co))
        return w.op(t, line, done, reads=(co,))
    def done(r): w.want(line, exp)(r); w.put(t, 'P', i, Ob('P', P, cv, co))
    w.op(t, line, done, reads=(co,))
def decode(cv, r):
    try: b = bytes.fromhex(r)
    except ValueError: return False, None
    if b and not any(b): return len(b) == 1 + 2 * cv.blen, cv.neutral()
    return cv.decode(b)
def get_S(w, t, cv=None, h=None):
    p = (lambda o: (cv is None or o.cv is cv) and (h is None or o.x == h) and not o.rd); i = w.have(t, 'S', p)
    if i is None or w.c.chance(0.1): new_S(w, t, cv, h); i = w.have(t, 'S', p) if t not in w.pend else None
    return i
def new_S(w, t, cv=None, h=None):
    j = get_C(w, t, cv)
    if j is None or t in w.pend: return
    co = w.reg[t]['C'][j]; i = w.free(t, 'S'); h = h or w.c.pick(HASH); w.reg[t]['S'][i] = None
    def done(r): w.put(t, 'S', i, Ob('S', None, co.cv, co, h))
    w.op(t, 'snew %d %s %s' % (i, w.use(t, 'C', j), h), done, reads=(co,))

# ---- operations
def op_fbin(w, t):
    c = w.c; a = get_F(w, t)
    if a is None or t in w.pend: return
    A = w.reg[t]['F'][a]; p = A.v[1]; b = get_F(w, t, p, 0.3) if c.chance(0.85) else a
    if b is None or t in w.pend: return
    if w.reg[t]['F'][a] is not A or A.v is None: return
    B = w.reg[t]['F'][b]
    z = w.have(t, 'F', lambda o: not o.rd)
    if z is None: return
    Z = w.reg[t]['F'][z]; k = c.choose(3); u, v = A.v[0], B.v[0]; want = ((u + v), (u - v), (u * v))[k] % p
    sa = w.use(t, 'F', a, (z, b)); sb = w.use(t, 'F', b, (z, a)) if a != b else str(b)
    line = '%s %d %s %s' % (('fadd', 'fsub', 'fmul')[k], z, sa, sb)
    def done(r): Z.v = (want, p); w.c.state('F', _small(Z.v))
    w.op(t, line, done, reads=[o for o in (A, B) if o is not Z], writes=(Z,))
def op_fmismatch(w, t):
    a = get_F(w, t)
    if a is None or t in w.pend: return
    A = w.reg[t]['F'][a]; b = w.have(t, 'F', lambda o: o.v[1] != A.v[1]); z = w.have(t, 'F', lambda o: not o.rd)
    if b is None or z is None: return
    w.op(t, '%s %d %d %d' % (w.c.pick(['fadd', 'fsub', 'fmul']), z, a, b), EXPECT_PANIC); w.c.count('fault.field_mismatch')
def op_fun(w, t):
    c = w.c; a = get_F(w, t)
    if a is None or t in w.pend: return
    A = w.reg[t]['F'][a]; u, p = A.v; z = w.have(t, 'F', lambda o: not o.rd)
    if z is None: return
    Z = w.reg[t]['F'][z]; k = c.choose(4)
    if Z.rd or (A is not Z and A.wr): return
    lost = lambda: [w.reg[t]['F'].__setitem__(i, None) or w.op(t, 'drop F %d' % i, lambda r: None) for i in range(NR['F']) if w.reg[t]['F'][i] is Z and t not in w.pend]
    sa = w.use(t, 'F', a, (z,)); rd = (A,) if A is not Z else ()
    if k == 0:
        def done(r): Z.v = (-u % p, p)
        return w.op(t, 'fneg %d %s' % (z, sa), done, rd, (Z,))
    if k == 1:
        e = c.pick([0, 1, 2, 3, 255, 65537, c.bits(32), c.bits(64), p - 1 if p < 1 << 64 else 5])
        def done(r): Z.v = (pow(u, e, p), p)
        return w.op(t, 'fexp %d %s %x' % (z, sa, e), done, rd, (Z,))
    if k == 2:
        def done(r):
            w.want('the inverse of %x mod %x' % (u, p), 'ok' if u else 'error')(r)
            if u: Z.v = (pow(u, -1, p), p)
            else: Z.v = None
        w.op(t, 'finv %d %s' % (z, sa), done, rd, (Z,))
    else:
        s = refec.sqrtp(u, p)
        def done(r):
            w.want('sqrt of %x mod %x' % (u, p), 'ok' if s is not None else 'error')(r); Z.v = ('sqrt', u, p, s) if s is not None else None
        w.op(t, 'fsqrt %d %s' % (z, sa), done, rd, (Z,))
    if t in w.pend: w.resume(t)
    if Z.v is None:       # what an operation without a result leaves behind is not used
        for i in range(NR['F']):
            if w.reg[t]['F'][i] is Z: w.reg[t]['F'][i] = None; w.op(t, 'drop F %d' % i, lambda r: None)
            if t in w.pend: w.resume(t)
    elif Z.v[0] == 'sqrt' and w.reg[t]['F'][z] is Z:
        _, u, p, s = Z.v; Z.v = (s, p)
        def done(r):
            v = int(r, 16)
            if v * v % p != u or v >= p: c.fail('value', 'sqrt of %x mod %x is %s' % (u, p, r))
            Z.v = (v, p)
        w.op(t, 'fint %d' % z, done, (Z,))
        if t in w.pend: w.resume(t)
def op_fread(w, t):
    c = w.c; a = get_F(w, t)
    if a is None or t in w.pend: return
    A = w.reg[t]['F'][a]; v, p = A.v; k = c.choose(4)
    if k == 0: w.op(t, 'fint ' + w.use(t, 'F', a), w.want('a field element', '%x' % v), (A,))
    elif k == 1: w.op(t, 'forder ' + w.use(t, 'F', a), w.want('the order', '%x' % p), (A,))
    elif k == 2: j = c.choose(p.bit_length()); w.op(t, 'fbit %s %x' % (w.use(t, 'F', a), j), w.want('bit %d of %x' % (j, v), str(v >> j & 1)), (A,))
    else:
        b = w.have(t, 'F', lambda o: o.v[1] == p)
        if b is None: return
        B = w.reg[t]['F'][b]; w.op(t, 'fcmp %s %s' % (w.use(t, 'F', a, (b,)), w.use(t, 'F', b, (a,))), w.want('the order of %x and %x' % (v, B.v[0]), str((v > B.v[0]) - (v < B.v[0]))), (A, B))
def op_frand(w, t):
    p = w.c.pick(w.primes); i = w.free(t, 'F'); w.reg[t]['F'][i] = None
    def done(r):
        v = int(r, 16)
        if not 0 <= v < p: w.c.fail('value', 'a random element mod %x is %s' % (p, r))
        w.put(t, 'F', i, Ob('F', (v, p)))
    w.op(t, 'frand %d %x' % (i, p), done)
def op_fbad(w, t):
    i = w.free(t, 'F'); w.reg[t]['F'][i] = None; p = w.c.pick(w.primes); k = w.c.choose(3); neg = w.c.chance(0.7); w.c.count('fault.bad_field')
    line = ('fnew %d %x %s', 'fnewui %d %x %s', 'frand %d%.0s %s')[k] % (i, w.c.choose(200), hx(-p) if neg else '0')
    w.op(t, line, w.want(line, 'nil') if neg else EXPECT_PANIC)
def op_curve(w, t):
    c = w.c; k = c.choose(5); j = get_C(w, t)
    if j is None or t in w.pend: return
    co = w.reg[t]['C'][j]; cv = co.cv
    if k == 0:
        P = point(w, cv) or cv.g; x, y = P
        if c.chance(0.5): y = c.pick([(y + 1) % cv.p, 0, c.below(cv.p), x])
        neg = c.chance(0.1)
        w.op(t, 'ccheck %s %s %s' % (w.use(t, 'C', j), hx(-x - 1 if neg else x), hx(y)), w.want('PointCheck(%x, %x) on %s' % (x, y, cv.name), 'false' if neg else str(cv.on((x, y))).lower()), (co,))
    elif k == 1:
        co2 = ('p', cv.p), ('n', cv.n), ('h', cv.h), ('gx', cv.g[0]), ('gy', cv.g[1]), ('bits', cv.bits), ('ws_a', 0), ('ws_b', 1), ('ed_c', 2), ('ed_d', 3), ('mo_B', 4), ('mo_A', 5), ('te_a', 6), ('te_d', 7), ('zz', 8)
        a, v = c.pick(co2)
        if '_' in a or a == 'zz':
            e = '%x' % (cv.u, cv.v)[v & 1] if v >> 1 == cv.type and a != 'zz' else 'nil'
        else: e = '%x' % v
        w.op(t, 'cattr %s %s' % (w.use(t, 'C', j), a), w.want('%s of %s' % (a, cv.name), e), (co,))
    elif k == 2: w.op(t, 'ctype ' + w.use(t, 'C', j), w.want('the type of ' + cv.name, str(2 + cv.type)), (co,))
    elif k == 3:
        j2 = w.have(t, 'C'); o2 = w.reg[t]['C'][j2]
        w.op(t, 'ccmp %s %s' % (w.use(t, 'C', j, (j2,)), w.use(t, 'C', j2, (j,))), w.want('equality of %s and %s' % (cv.name, o2.cv.name), str(cv.key() == o2.cv.key()).lower()), (co, o2))
    else: w.op(t, 'cnames', w.names)
def op_badcurve(w, t):
    c = w.c; cv = c.pick(w.curves); i = w.free(t, 'C'); w.reg[t]['C'][i] = None; k = c.choose(3); w.c.count('fault.bad_curve')
    a = [cv.p, cv.u, cv.v, cv.n, cv.h, cv.g[0], cv.g[1]]
    if k == 0: return w.op(t, 'cnamed %d %s' % (i, c.pick(['nosuchcurve', 'secp256k', 'SECP256K1x', cv.name + '0'])), w.want('an unknown curve', 'false'))
    if k == 1: j = c.choose(7); a[j] = -a[j] - 1
    else:
        y = (a[6] + 1) % cv.p
        if cv.on((a[5], y)): return
        a[6] = y
    w.op(t, 'cnew %d %d %s %x' % (i, cv.type, ' '.join(hx(x) for x in a), cv.bits), w.want('a curve from wrong parameters', 'false'))
def op_badpoint(w, t):
    c = w.c; j = get_C(w, t)
    if j is None or t in w.pend: return
    co = w.reg[t]['C'][j]; cv = co.cv; b = bytearray(cv.encode(point(w, cv), c.chance(0.5))); k = c.choose(4)
    if k == 0: b = b[:c.choose(len(b))]
    elif k == 1: b += c.bytes(1 + c.choose(3))
    elif k == 2: b[0] = c.choose(256)
    else: b[c.choose(len(b))] ^= 1 << c.choose(8)
    ok, P = (False, None) if not b else cv.decode(bytes(b))
    i = w.free(t, 'P'); w.reg[t]['P'][i] = None; w.c.count('fault.bad_encoding')
    s = bytes(b).hex(); txt = c.chance(0.5)
    if txt and k == 0 and c.chance(0.3): s = s[:-1]; ok = False
    if ok and P is not None and not any(b): ok = True
    odd = []
    def done(r):
        if ok or r != 'true': w.want('decoding of %s on %s' % (s, cv.name), str(ok).lower())(r)
        if ok: w.put(t, 'P', i, Ob('P', P, cv, co))
        elif r == 'true': odd.append(1)    # then it has to be a point of the curve
    w.op(t, ('pstr %d "%s %s' if txt else 'pbytes %d x%s %s') % (i, s, w.use(t, 'C', j)), done, (co,))
    if t in w.pend: w.resume(t)
    if not odd: return
    def done(r):
        good, P = decode(cv, r)
        if not good: c.fail('off-curve', '%s was decoded on %s to %s' % (s, cv.name, r[:200]))
        w.put(t, 'P', i, Ob('P', P, cv, co))
    w.op(t, 'pbu %d' % i, done)
def two(w, t):
    a = get_P(w, t)
    if a is None or t in w.pend: return
    A = w.reg[t]['P'][a]
    b = get_P(w, t, A.cv, 0.3) if w.c.chance(0.85) else a
    if b is None or t in w.pend or w.reg[t]['P'][a] is not A: return
    return a, A, b, w.reg[t]['P'][b]
def op_pbin(w, t):
    q = two(w, t)
    if q is None: return
    a, A, b, B = q; z = w.have(t, 'P', lambda o: not o.rd)
    if z is None: return
    Z = w.reg[t]['P'][z]; k = w.c.choose(2); cv = A.cv; want = (cv.add if k == 0 else cv.sub)(A.v, B.v); co = A.cvo
    line = '%s %d %s %s' % (('padd', 'psub')[k], z, w.use(t, 'P', a, (z, b)), w.use(t, 'P', b, (z, a)) if a != b else str(b))
    def done(r): Z.v, Z.cv, Z.cvo = want, cv, co; w.c.state('P', cv.name, _small(want))
    if A.cvo is not B.cvo: w.c.count('probe.two_curve_objects')
    w.op(t, line, done, [o for o in (A, B) if o is not Z], (Z,))
def op_pun(w, t):
    c = w.c; a = get_P(w, t)
    if a is None or t in w.pend: return
    A = w.reg[t]['P'][a]; z = w.have(t, 'P', lambda o: not o.rd)
    if z is None: return
    Z = w.reg[t]['P'][z]; cv, co = A.cv, A.cvo; k = c.choose(4); sa = w.use(t, 'P', a, (z,)); rd = (A,) if A is not Z else ()
    if k == 0: want = cv.neg(A.v); line = 'pneg %d %s' % (z, sa)
    elif k == 1: want = A.v; line = 'pset %d %s' % (z, sa)
    else: i = integer(w, cv.n); want = cv.mul(A.v, i % cv.n); line = 'pmul %d %s %s' % (z, sa, hx(i))
    def done(r): Z.v, Z.cv, Z.cvo = want, cv, co; c.state('P', cv.name, _small(want))
    w.op(t, line, done, rd, (Z,))
def op_setup(w, t):
    a = get_P(w, t)
    if a is None or t in w.pend: return
    A = w.reg[t]['P'][a]
    if A.rd or A.cv.bits > 100 and w.c.chance(0.8): return
    w.op(t, 'psetup ' + w.use(t, 'P', a), lambda r: None, (), (A,))
def op_pread(w, t):
    c = w.c; a = get_P(w, t)
    if a is None or t in w.pend: return
    A = w.reg[t]['P'][a]; read_P(w, t, a, A, c.choose(7))
def read_P(w, t, a, A, k, last=True):
    cv, P = A.cv, A.v; s = w.use(t, 'P', a) if last else str(a); what = 'a point of ' + cv.name
    if k == 5 and P is None: k = 3
    if k == 0: w.op(t, 'psc ' + s, w.want(what, cv.encode(P, True).hex().upper()), (A,))
    elif k == 1: w.op(t, 'psu ' + s, w.want(what, cv.encode(P, False).hex().upper()), (A,))
    elif k == 2: w.op(t, 'pbc ' + s, w.want(what, cv.encode(P, True).hex()), (A,))
    elif k == 3: w.op(t, 'pbu ' + s, w.want(what, cv.encode(P, False).hex()), (A,))
    elif k == 4: w.op(t, 'pisn ' + s, w.want(what, str(P is None).lower()), (A,))   # the Edwards neutral element is an affine point
    elif k == 5: w.op(t, 'paff ' + s, w.want(what, '%x,%x' % P), (A,))
    else:
        b = w.have(t, 'P', lambda o: o.cv is cv)
        if b is None: return
        B = w.reg[t]['P'][b]; w.op(t, 'pcmp %s %s' % (a if not s.endswith('!') else s, w.use(t, 'P', b, (a,))), w.want('equality of two points of ' + cv.name, str(P == B.v).lower()), (A, B))
def message(w): return w.c.bytes(w.c.pick([1, 1, 3, 20, 64, 150, 0]))
def op_sign(w, t):
    c = w.c; j = get_S(w, t)
    if j is None or t in w.pend: return
    S = w.reg[t]['S'][j]; cv = S.cv; k = 1 + c.below(cv.n - 1); m = message(w); i = w.free(t, 'G'); w.reg[t]['G'][i] = None
    if S.rd or S.wr: return
    kk = k + cv.n * (c.choose(4) - 1) if c.chance(0.4) else k
    def done(r):
        rs = parse(cv, r); dg = hashlib.new(S.x, m).digest()
        if rs is None or not cv.ecdsa_ok(cv.mul(cv.g, k), dg, *rs): c.fail('value', 'a signature on %s with %s by key %x of %s is %s, which the reference does not verify' % (cv.name, S.x, k, m.hex(), r[:300]))
        w.put(t, 'G', i, Ob('G', rs, cv, S, (S.x, k, m)))
    w.op(t, 'sign %d %s %s x%s' % (i, w.use(t, 'S', j), hx(kk), m.hex()), done, (), (S,))
def parse(cv, r):
    try: b = bytes.fromhex(r)
    except ValueError: return None
    n = cv.nlen
    return (int.from_bytes(b[:n], 'big'), int.from_bytes(b[n:], 'big')) if len(b) == 2 * n else None
def op_verify(w, t):
    c = w.c; g = w.have(t, 'G', lambda o: not o.cvo.rd and not o.cvo.wr)
    if g is None: return op_sign(w, t)
    G = w.reg[t]['G'][g]; cv = G.cv; h, k, m = G.x
    j = w.have(t, 'P', lambda o: o.cv is cv and o.v == cv.mul(cv.g, k))
    if j is None or c.chance(0.3):
        if c.chance(0.7):
            cj = get_C(w, t, cv)
            if cj is None or t in w.pend: return
            co = w.reg[t]['C'][cj]; j = w.free(t, 'P'); Q = cv.mul(cv.g, k); w.reg[t]['P'][j] = None; line = 'pxy %d %x %x %s' % (j, Q[0], Q[1], w.use(t, 'C', cj))
            w.op(t, line, lambda r: w.put(t, 'P', j, Ob('P', Q, cv, co)), (co,))
            if t in w.pend: return
        else: j = get_P(w, t, cv)
    if j is None or t in w.pend or w.reg[t]['G'][g] is not G or G.cvo.rd or G.cvo.wr: return
    P = w.reg[t]['P'][j]
    if c.chance(0.3): m = message(w)
    want = cv.ecdsa_ok(P.v, hashlib.new(h, m).digest(), *G.v)
    w.op(t, 'verify %s %s x%s' % (w.use(t, 'G', g), w.use(t, 'P', j), m.hex()), w.want('Verify of (%x, %x) on %s with %s by %s' % (G.v + (cv.name, h, P.v)), str(want).lower()), (P,), (G.cvo,))
def op_sigcodec(w, t):
    c = w.c; g = w.have(t, 'G')
    if g is None: return op_sign(w, t)
    G = w.reg[t]['G'][g]; cv = G.cv; n = cv.nlen; b = bytearray(G.v[0].to_bytes(n, 'big') + G.v[1].to_bytes(n, 'big'))
    if c.chance(0.3): return w.op(t, 'gbytes ' + w.use(t, 'G', g), w.want('a signature of ' + cv.name, bytes(b).hex()), (G,))
    j = get_S(w, t, cv, G.x[0])
    if j is None or t in w.pend: return
    S = w.reg[t]['S'][j]; bad = c.choose(6)
    if S.wr: return
    if bad == 0: b = b[:c.choose(len(b))]
    elif bad == 1: b += c.bytes(1 + c.choose(40))
    elif bad == 2: b[:n] = (cv.n + c.choose(3)).to_bytes(n, 'big') if (cv.n + 3).bit_length() <= 8 * n else b[:n]
    elif bad == 3: b[n:] = bytes(n)
    ok = len(b) == 2 * n and 0 < int.from_bytes(b[:n], 'big') < cv.n and 0 < int.from_bytes(b[n:], 'big') < cv.n; i = w.free(t, 'G'); w.reg[t]['G'][i] = None
    if bad < 4: c.count('fault.bad_signature')
    def done(r):
        w.want('import of the signature %s on %s' % (bytes(b).hex(), cv.name), str(ok).lower())(r)
        if ok: w.put(t, 'G', i, Ob('G', G.v, cv, S, G.x))
    w.op(t, 'gfrom %d %s x%s' % (i, w.use(t, 'S', j), bytes(b).hex()), done, (S,))
def op_elgamal(w, t):
    c = w.c; k = c.choose(5); e = w.have(t, 'E')
    if e is None or k == 0:
        q = two(w, t)
        if q is None: return
        a, A, b, B = q; cv = A.cv; i = w.free(t, 'E'); w.reg[t]['E'][i] = None; co = A.cvo
        if A.cvo is not B.cvo: c.count('probe.two_curve_objects')
        if c.chance(0.4):
            v = (A.v, B.v)
            def done(r): w.want('a ciphertext from two points', 'true')(r); w.put(t, 'E', i, Ob('E', v, cv, co, None))
            return w.op(t, 'enew %d %s %s' % (i, w.use(t, 'P', a, (b,)), w.use(t, 'P', b, (a,))), done, (A, B))
        sk = 1 + c.below(cv.n - 1); Q = cv.mul(cv.g, sk); j = w.free(t, 'P', (b,)); cj = get_C(w, t, cv); M = B.v
        if cj is None or t in w.pend or w.reg[t]['P'][b] is not B: return
        cq = w.reg[t]['C'][cj]
        w.reg[t]['P'][j] = None; w.op(t, 'pbytes %d x%s %s' % (j, cv.encode(Q, True).hex(), w.use(t, 'C', cj)), lambda r: (w.want('a public key', 'true')(r), w.put(t, 'P', j, Ob('P', Q, cv, cq))), (cq,))
        if t in w.pend or w.reg[t]['P'][b] is not B: return
        J = w.reg[t]['P'][j]
        def done(r): w.want('encryption', 'true')(r); w.put(t, 'E', i, Ob('E', None, cv, cq, (sk, M)))
        return w.op(t, 'eenc %d %s %s' % (i, w.use(t, 'P', j, (b,)), w.use(t, 'P', b, (j,))), done, (J, B))
    E = w.reg[t]['E'][e]; cv = E.cv
    if k < 3:
        if E.x is not None and (E.v is None or c.chance(0.7)): sk, want = E.x
        elif E.v is None: return
        else: sk = 1 + c.below(cv.n - 1); want = cv.sub(E.v[1], cv.mul(E.v[0], sk))
        i = w.free(t, 'P'); w.reg[t]['P'][i] = None; kk = sk + cv.n * (c.choose(4) - 1) if c.chance(0.4) else sk; co = E.cvo
        def done(r): w.want('decryption', 'true')(r); w.put(t, 'P', i, Ob('P', want, cv, co))
        return w.op(t, 'edec %d %s %s' % (i, w.use(t, 'E', e), hx(kk)), done, (E,))
    i = w.free(t, 'P'); w.reg[t]['P'][i] = None; co = E.cvo
    if E.v is None:
        # the halves of an encryption are random: read both, then check them against the key
        got = []
        for h in 'CD':
            w.op(t, 'e%s %d %d' % (h, i, e), lambda r: None, (E,))
            if t in w.pend: w.resume(t)
            w.op(t, 'pbu %d' % i, lambda r: got.append(decode(cv, r)))
            if t in w.pend: w.resume(t)
        w.op(t, 'drop P %d' % i, lambda r: None)
        if t in w.pend: w.resume(t)
        if not (got[0][0] and got[1][0]): c.fail('value', 'a half of a ciphertext is not on ' + cv.name)
        C, D = got[0][1], got[1][1]; sk, M = E.x
        if cv.sub(D, cv.mul(C, sk)) != M: c.fail('value', 'a ciphertext on %s does not stand for the plaintext' % cv.name)
        E.v = (C, D); return
    h = c.choose(2); want = E.v[h]
    def done(r): w.put(t, 'P', i, Ob('P', want, cv, co))
    w.op(t, 'e%s %d %s' % ('CD'[h], i, w.use(t, 'E', e)), done, (E,))
def op_mixed(w, t):
    """points of two different curves: no ciphertext"""
    a = get_P(w, t)
    if a is None or t in w.pend: return
    A = w.reg[t]['P'][a]; b = w.have(t, 'P', lambda o: o.cv.key() != A.cv.key())
    if b is None: return
    i = w.free(t, 'E'); w.reg[t]['E'][i] = None; w.c.count('fault.mixed_curves'); B = w.reg[t]['P'][b]
    w.op(t, '%s %d %s %s' % (w.c.pick(['enew', 'eenc']), i, w.use(t, 'P', a), w.use(t, 'P', b)), w.want('a ciphertext over two curves', 'false'), (A, B))
def op_drop(w, t):
    c = w.c; k = c.weighted([(2, 'F'), (4, 'P'), (5, 'C'), (2, 'S'), (2, 'G'), (2, 'E')]); i = c.choose(NR[k])
    if w.reg[t][k][i] is None: return
    w.reg[t][k][i] = None; c.count('fault.drop'); w.op(t, 'drop %s %d' % (k, i), lambda r: None)
    if c.chance(0.4) and t not in w.pend: c.count('fault.collect'); w.op(t, 'gc', lambda r: None)
def op_copy(w, t):
    c = w.c; s = c.choose(w.nt); k = c.pick(sorted(NR)); i = w.free(t, k)
    j = w.have(s, k)
    if j is None or (t == s and i == j): return
    if t != s:
        c.count('sched.shared_object')
    w.reg[t][k][i] = w.reg[s][k][j]; w.op(t, 'copy %s %d %d %d' % (k, i, j, s), lambda r: None)
def op_none(w, t): pass
OPS = [(1, op_none), (12, op_fbin), (8, op_fun), (8, op_fread), (2, op_frand), (1, op_fbad), (1, op_fmismatch), (6, op_curve), (1, op_badcurve), (3, op_badpoint), (12, op_pbin), (10, op_pun), (2, op_setup), (12, op_pread), (5, op_sign), (6, op_verify), (4, op_sigcodec), (10, op_elgamal), (1, op_mixed), (8, op_drop), (4, op_copy)]

def warm(w):
    """every kind of operation on every curve and field of the run once, so that what the library sets up
    once and keeps is there before blocks are counted"""
    for f in w.primes + [x for cv in w.curves for x in (cv.n, cv.p)]:
        for l in ('fnew 0 5 %x', 'fnewui 1 3 %x', 'frand 2 %x'): w.op(0, l % f, lambda r: None)
        for l in ('fadd 0 0 1', 'fmul 0 0 1', 'fneg 0 0', 'fexp 0 1 2', 'fsqrt 0 0', 'finv 0 1', 'fint 0', 'fcmp 0 1'): w.op(0, l, lambda r: None)
    for cv in w.curves:
        pr = ' '.join(hx(x) for x in (cv.p, cv.u, cv.v, cv.n, cv.h) + cv.g); Q = cv.mul(cv.g, 3)
        L = ['cnew 0 %d %s %x' % (cv.type, pr, cv.bits)] + (['cnamed 1 ' + cv.name] if cv.name in refec.named() else []) + ['cnamed 1 nosuchcurve', 'pxy 0 %x %x 0' % Q, 'pgen 1 0', 'prand 2 0', 'pneut 3 0',
             'pstr 4 "%s 0' % cv.encode(Q, True).hex(), 'pbytes 5 x%s 0' % cv.encode(Q, False).hex(), 'padd 3 1 0', 'psub 3 1 0', 'pneg 3 1', 'pset 3 0', 'pmul 3 1 5', 'psc 0', 'pbu 0', 'paff 0', 'psetup 1', 'pmul 3 1 5']
        L += ['snew 0 0 sha256', 'sign 0 0 3 x00', 'verify 0 0 x00', 'gbytes 0', 'eenc 0 0 1', 'edec 3 0 3', 'eC 3 0', 'enew 0 0 1', 'cnames', 'cattr 0 p', 'ccmp 0 0']
        for l in L: w.op(0, l, lambda r: None)
    for k, n in (('F', 3), ('P', 6), ('C', 2), ('S', 1), ('G', 1), ('E', 1)):
        for i in range(n): w.op(0, 'drop %s %d' % (k, i), lambda r: None)

def history(c, ntasks, gcp, swp, n, operands=False):
    w = World(c, ntasks, gcp, swp); names = []; w.operands = operands
    def nm(r):
        if not names: names.append(r)
        if r != names[0] or not set(refec.named()) <= set(r.split(',')): c.fail('value', 'CurveNames() is ' + r[:300])
    w.names = nm; warm(w)
    for t in range(1, ntasks): w.op(t, 'gc', lambda r: None)
    if w.pr.send('mark') != 'M': raise HarnessError('mark')
    w.quiet = False
    for _ in range(n):
        t = c.choose(ntasks)
        if t in w.pend:
            if c.chance(0.5): w.resume(t)
            continue
        c.weighted(OPS)(w, t)
    w.resume_all(); w.quiet = True
    for t in range(ntasks):
        for i in range(NR['P']):
            if w.reg[t]['P'][i] is not None: read_P(w, t, i, w.reg[t]['P'][i], 3, False)
        for i in range(NR['F']):
            A = w.reg[t]['F'][i]
            if A is not None and A.v is not None: w.op(t, 'fint %d' % i, w.want('a field element', '%x' % A.v[0]))
    l = w.pr.send('end'); c.log(l)
    L, live, written, coll, susp, seams = l.split()
    c.count('sched.collections', int(coll)); c.count('sched.suspensions', int(susp)); c.count('sched.seams', int(seams)); c.count('check.values', w.checked)
    if written != '0': c.fail('memory', '%s blocks were written after their release or past their end' % written)
    return int(live)
def G01_history(c):
    history(c, 1 + c.choose(3), 0.35, 0.25, 20 + c.choose(100))
def G02_operands(c):
    history(c, 1, 0.02, 0, 20 + c.choose(160), True)
def G01_accounting(c):
    live = history(c, 1 + c.choose(2), 0.15, 0.1, 20 + c.choose(100))
    if live: c.fail('leak', 'all objects were dropped and collected, %d blocks of the library remain' % live)
SCENARIOS = dict(G01_history=G01_history, G01_accounting=G01_accounting, G02_operands=G02_operands)
def run(scen, scratch, repo, seed, budget, tier, replay_path, known):
    import pycore; return pycore.driver_run(__name__, scen, scratch, repo, seed, budget, tier, replay_path, known)
