"""Simulation core for the parts of the system that are driven from Python (the Python binding, the Go
binding, the command-line programs).  A run is a forked process; every decision it takes is drawn through
Ctx.choose, so the list of choices determines the run; replay and minimisation work on that list."""
import faulthandler, hashlib, json, mmap, os, random, resource, signal, struct, sys, tempfile, time, traceback
MAXC = 1 << 17; LOGSZ = 1 << 21; OUTSZ = 1 << 16
CPU = int(os.environ.get("SIM_CPU", "40"))          # seconds of CPU a single run may use

class Violation(Exception):
    def __init__(self, cls, msg): self.cls, self.msg = cls, msg
class HarnessError(Exception): pass

class Shm:
    """what survives the end (or crash) of a run"""
    def __init__(self):
        self.m = mmap.mmap(-1, 64 + 4 * MAXC + LOGSZ + OUTSZ)
    def reset(self): self.m[:64] = b'\0' * 64
    # header: 0 nchoices, 4 log length, 8 status, 12 out length
    def get(self, o): return struct.unpack_from('<I', self.m, o)[0]
    def put(self, o, v): struct.pack_into('<I', self.m, o, v)
    def choices(self): n = self.get(0); return list(struct.unpack_from('<%dI' % n, self.m, 64))
    def log(self): n = self.get(4); return bytes(self.m[64 + 4 * MAXC:64 + 4 * MAXC + n])
    def out(self): n = self.get(12); o = 64 + 4 * MAXC + LOGSZ; return bytes(self.m[o:o + n])

class Ctx:
    def __init__(self, shm, seed, replay):
        self.shm, self.rng, self.replay, self.pos = shm, random.Random(seed), replay, 0
        self.counters = {}; self.states = set(); self.events = 0; self.scratch = None; self.cleanup = []
    def choose(self, n):
        """a number in [0, n); 0 is the simplest choice"""
        if n <= 1: return 0
        v = (self.replay[self.pos] % n if self.pos < len(self.replay) else 0) if self.replay is not None else self.rng.randrange(n)
        i = self.pos; self.pos += 1
        if i >= MAXC: raise HarnessError('too many choices')
        struct.pack_into('<I', self.shm.m, 64 + 4 * i, v); self.shm.put(0, i + 1)
        return v
    def chance(self, p): return self.choose(1000) >= 1000 - int(p * 1000)
    def pick(self, seq): return seq[self.choose(len(seq))]
    def weighted(self, items):
        """items: [(weight, value)]"""
        t = sum(w for w, _ in items); v = self.choose(t)
        for w, x in items:
            if v < w: return x
            v -= w
    def bits(self, n):
        r = 0
        for _ in range((n + 23) // 24): r = r << 24 | self.choose(1 << 24)
        return r & ((1 << n) - 1) if n > 0 else 0
    def below(self, n): return self.bits(n.bit_length() + 16) % n
    def bytes(self, n): return self.bits(8 * n).to_bytes(n, 'little')
    def log(self, s):
        self.events += 1
        b = (s + '\n').encode('utf-8', 'backslashreplace'); n = self.shm.get(4)
        if n + len(b) > LOGSZ: raise HarnessError('log too long')
        o = 64 + 4 * MAXC + n; self.shm.m[o:o + len(b)] = b; self.shm.put(4, n + len(b))
    def count(self, k, n=1): self.counters[k] = self.counters.get(k, 0) + n
    def state(self, *a): self.states.add(int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'little'))
    def fail(self, cls, msg): raise Violation(cls, msg)
    def check(self, cond, cls, msg):
        if not cond: raise Violation(cls, msg() if callable(msg) else msg)

def execute(mod, scen, shm, seed, replay, errfile):
    """one run in a forked child -> dict(status, cls, msg, loghash, choices, log, ...)"""
    shm.reset(); t0 = time.time()
    pid = os.fork()
    if pid == 0:
        st = 70; out = {}
        try:
            fd = os.open(errfile, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600); os.dup2(fd, 2); os.close(fd)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
            faulthandler.register(signal.SIGXCPU, file=2, chain=True)      # says where a run hangs
            c = Ctx(shm, seed, replay); c.errfile = errfile
            try:
                mod.SCENARIOS[scen](c); st = 0
            except Violation as v: st = 2; out['cls'], out['msg'] = v.cls, v.msg
            except HarnessError as e: st = 3; out['msg'] = str(e)
            except BaseException as e:
                # the curve's formulas do not define a sum the run asked the reference for: nothing to compare with
                if isinstance(e, ValueError) and 'not invertible' in str(e): st = 0; c.count('probe.reference_undefined')
                else: st = 3; out['msg'] = traceback.format_exc()
            try:
                for f in c.cleanup: f()
            except BaseException: pass
            out.update(counters=c.counters, states=list(c.states)[:400], events=c.events)
            b = json.dumps(out).encode()
            if len(b) > OUTSZ: out['states'] = []; out['msg'] = str(out.get('msg', ''))[:4000]; b = json.dumps(out).encode()
            o = 64 + 4 * MAXC + LOGSZ; shm.m[o:o + len(b)] = b; shm.put(12, len(b))
        finally: os._exit(st)
    wall = 150.0; rc = None; ru = None
    while True:
        p, s, ru = os.wait4(pid, os.WNOHANG if rc is None and wall else 0)
        if p: break
        if time.time() - t0 > wall:
            os.kill(pid, signal.SIGKILL); p, s, ru = os.wait4(pid, 0); rc = 'wall'; break
        time.sleep(0.0005 if time.time() - t0 < 0.05 else 0.004)
    r = dict(choices=shm.choices(), wall=time.time() - t0, cpu=ru.ru_utime + ru.ru_stime, counters={}, states=[], events=0, msg='', cls='')
    log = shm.log()
    if rc == 'wall': r.update(status=2, cls='hang', msg='the run did not end')
    elif os.WIFSIGNALED(s):
        g = os.WTERMSIG(s); nm = signal.Signals(g).name
        err = open(errfile, 'rb').read().decode('utf-8', 'replace')
        if g in (signal.SIGXCPU,): r.update(status=2, cls='hang', msg='the run used more than %d s of CPU; %s' % (CPU, err[-1500:]))
        elif g == signal.SIGKILL: r.update(status=3, msg='killed')
        else: r.update(status=2, cls='crash:' + nm, msg='the process died of %s; stderr: %s' % (nm, err[-1500:]))
    else:
        st = os.WEXITSTATUS(s)
        try: r.update(json.loads(shm.out()))
        except Exception: r['msg'] = 'the process ended with status %d; stderr: %s' % (st, open(errfile, 'rb').read().decode('utf-8', 'replace')[-1500:])
        if st in (0, 2, 3): r['status'] = st
        elif st == 70: r['status'] = 3
        else: r.update(status=2, cls='exit:%d' % st)
    h = hashlib.blake2b(digest_size=8); h.update(log); h.update(('%s|%s' % (r['status'], r['cls'])).encode())
    r['loghash'] = h.hexdigest(); r['log'] = log
    return r

def runseed(seed, scen, i): return int.from_bytes(hashlib.blake2b(('%s:%s:%d' % (seed, scen, i)).encode(), digest_size=8).digest(), 'little')

def worker(mod, scen, w, n, seed, deadline, wfd, scratch):
    shm = Shm(); err = os.path.join(scratch, 'err.%d' % w)
    agg = dict(runs=0, events=0, choices=0, det=0, mism=0, counters={}, states=set(), hist=set(), maxcpu=0.0, sample='', failure=None, error=None)
    i = w
    while time.time() < deadline:
        sd = runseed(seed, scen, i); r = execute(mod, scen, shm, sd, None, err)
        if r['status'] == 3: agg['error'] = 'run %d (seed %d): %s' % (i, sd, r['msg']); break
        again = r['status'] == 2 or (i // n) % 16 == 0
        if again:
            r2 = execute(mod, scen, shm, sd, None, err); agg['det'] += 1
            if r2['loghash'] != r['loghash'] or r2['choices'] != r['choices']:
                agg['mism'] += 1
                if agg['mism'] > 0:
                    a, b = r['log'].split(b'\n'), r2['log'].split(b'\n')
                    d = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                    agg['error'] = 'run %d (seed %d) is not deterministic: line %d %r / %r; %s %s / %s %s' % (i, sd, d, a[d:d + 1], b[d:d + 1], r['cls'], r['msg'][:300], r2['cls'], r2['msg'][:300]); break
        agg['runs'] += 1; agg['events'] += r['events']; agg['choices'] += len(r['choices']); agg['maxcpu'] = max(agg['maxcpu'], r['cpu'])
        for k, v in r['counters'].items(): agg['counters'][k] = agg['counters'].get(k, 0) + v
        if len(agg['states']) < 400000: agg['states'].update(r['states'])
        agg['hist'].add(r['loghash'])
        if not agg['sample'] and r['status'] == 0: agg['sample'] = 'seed %d: ' % sd + r['log'][:1500].decode('utf-8', 'replace')
        if r['status'] == 2:
            agg['failure'] = dict(seed=sd, index=i, cls=r['cls'], msg=r['msg'], choices=r['choices']); break
        i += n
    agg['states'] = list(agg['states']); agg['hist'] = list(agg['hist'])
    os.write(wfd, b'')
    with os.fdopen(wfd, 'wb') as f: f.write(json.dumps(agg).encode())
    os._exit(0)

def minimise(mod, scen, shm, seed, cls, choices, err, budget):
    t0 = time.time(); best = list(choices); tries = 0
    def bad(c):
        nonlocal tries
        tries += 1
        r = execute(mod, scen, shm, seed, c, err); return r['status'] == 2 and r['cls'] == cls
    def left(): return time.time() - t0 < budget
    # shortest failing prefix (later choices 0)
    lo, hi = 0, len(best)
    while lo < hi and left():
        m = (lo + hi) // 2
        if bad(best[:m]): hi = m
        else: lo = m + 1
    if hi < len(best) and bad(best[:hi]): best = best[:hi]
    k = max(1, len(best) // 2)
    while k >= 1 and left():
        i = 0; any_ = False
        while i < len(best) and left():
            c = best[:i] + best[i + k:]
            if len(c) < len(best) and bad(c): best = c; any_ = True; continue
            if any(best[i:i + k]):
                c = best[:i] + [0] * len(best[i:i + k]) + best[i + k:]
                if bad(c): best = c; any_ = True
            i += k
        if k == 1 and not any_: break
        k = k // 2 if k > 1 else (1 if any_ else 0)
    while best and best[-1] == 0: best.pop()
    return best, tries

def batch(mod, scen, seed, budget, jobs, scratch, replay_path, mintime):
    t0 = time.time(); deadline = t0 + budget; pids = []
    for w in range(jobs):
        r, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(r)
            try: worker(mod, scen, w, jobs, seed, deadline, wr, scratch)
            finally: os._exit(71)
        os.close(wr); pids.append((pid, r))
    import selectors
    sel = selectors.DefaultSelector(); bufs = {}
    for pid, r in pids: sel.register(r, selectors.EVENT_READ, pid); bufs[pid] = b''
    aggs = []; open_ = {pid for pid, _ in pids}; stop = None
    while open_:
        for key, _ in sel.select(1.0):
            d = os.read(key.fd, 1 << 20)
            if d: bufs[key.data] += d; continue
            sel.unregister(key.fd); os.close(key.fd); open_.discard(key.data)
            try: a = json.loads(bufs[key.data])
            except Exception: a = None
            aggs.append(a)
    for pid, _ in pids:
        try: os.waitpid(pid, 0)
        except ChildProcessError: pass
    if any(a is None for a in aggs): return dict(error='a worker process died')
    errs = [a['error'] for a in aggs if a['error']]
    st = set(); hi = set(); cnt = {}
    for a in aggs:
        st.update(a['states']); hi.update(a['hist'])
        for k, v in a['counters'].items(): cnt[k] = cnt.get(k, 0) + v
    wall = time.time() - t0
    out = dict(scenario=scen, variant=mod.VARIANT, runs=sum(a['runs'] for a in aggs), events=sum(a['events'] for a in aggs), steps=sum(a['events'] for a in aggs),
               choices=sum(a['choices'] for a in aggs), determinism_checked=sum(a['det'] for a in aggs), determinism_mismatches=sum(a['mism'] for a in aggs), wall_s=wall,
               max_run_cpu_s=max(a['maxcpu'] for a in aggs), distinct_states=len(st), distinct_histories=len(hi), counters=cnt, failure=None, sample=next((a['sample'] for a in aggs if a['sample']), ''))
    fails = sorted((a['failure'] for a in aggs if a['failure']), key=lambda f: len(f['choices']))
    if fails:
        shm = Shm(); err = os.path.join(scratch, 'err.min'); first = None
        for f in fails[:4]:
            best, tries = minimise(mod, scen, shm, f['seed'], f['cls'], f['choices'], err, mintime)
            a = execute(mod, scen, shm, f['seed'], best, err); b = execute(mod, scen, shm, f['seed'], best, err)
            if a['status'] == 2 and a['cls'] == f['cls'] and a['loghash'] == b['loghash']: break
            first = first or 'the minimised failure (run %d, seed %d) does not replay: %s %s / %s; it was %s' % (f['index'], f['seed'], f['cls'], a['cls'], b['cls'], f['msg'][:1500])
        else: return dict(error=first)
        rep = dict(driver=mod.__name__, scenario=scen, variant=mod.VARIANT, seed=f['seed'], choices=best, **{'class': f['cls']}, message=a['msg'], loghash=a['loghash'],
                   trace=a['log'].decode('utf-8', 'replace').split('\n')[-60:], minimised_from=len(f['choices']), minimisation_runs=tries)
        json.dump(rep, open(replay_path, 'w'), indent=1)
        out['failure'] = dict(seed=f['seed'], index=f['index'], **{'class': f['cls']}, message=a['msg'][:2000], choices=len(best))
    elif errs: return dict(error=errs[0])
    return out

# entry points used by /verif/check: they run this file in a fresh interpreter with a pinned environment
HERE = os.path.dirname(os.path.abspath(__file__))
def _env(mod, d):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'PYTHON', 'LANG', 'MALLOC_'))}
    e.update(PYTHONHASHSEED='0', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', SIM_BUILD=d)
    e.update(mod.environment(d)); return e
def _spawn(mod, d, args, timeout):
    import subprocess
    return subprocess.run([sys.executable, os.path.join(HERE, 'pycore.py')] + args, env=_env(mod, d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
_built = {}
def driver_build(mod, scratch, repo, seed=None):
    d = os.path.join(scratch, mod.__name__)
    if d not in _built:
        os.makedirs(d, exist_ok=True); e = mod.build(d, repo); _built[d] = e
    return d, _built[d]
def driver_run(modname, scen, scratch, repo, seed, budget, tier, replay_path, known):
    import importlib, subprocess
    mod = importlib.import_module(modname); d, e = driver_build(mod, scratch, repo)
    if e: return dict(error=e)
    of = os.path.join(scratch, 'pyout.json'); jobs = int(os.environ.get('SIM_JOBS', '8'))
    a = ['run', modname, scen, str(seed), str(budget), str(jobs), scratch, of, replay_path, '20' if tier == 'quick' else '90']
    try: p = _spawn(mod, d, a, budget + 500)
    except subprocess.TimeoutExpired: return dict(error='did not end')
    if p.returncode: return dict(error='rc %d: %s' % (p.returncode, p.stdout[-2000:]))
    r = json.load(open(of))
    if r.get('failure'):
        rep = json.load(open(replay_path)); rr = driver_replay_result(mod, d, rep, scratch)
        if not same(rr, rep): return dict(error='the replay of the minimised failure did not reproduce in a fresh process: %s' % rr)
    return r
def same(rr, rep): return bool(rr) and rr['status'] == 2 and rr['class'] == rep['class'] and rr['loghash'] == rep['loghash']
def driver_replay_result(mod, d, rep, scratch):
    f = os.path.join(scratch, 'rep.json'); json.dump(rep, open(f, 'w'))
    p = _spawn(mod, d, ['replay', f, scratch], 600)
    try: return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception: return dict(status=3, **{'class': ''}, loghash='', message=p.stdout[-1500:])
def driver_replay(modname, rep, scratch, repo):
    import importlib
    mod = importlib.import_module(modname); d, e = driver_build(mod, scratch, repo)
    if e: print('ERROR ' + e); return 3
    r = driver_replay_result(mod, d, rep, scratch); print(json.dumps(r)); ok = same(r, rep)
    print('reproduced exactly' if ok else 'did not reproduce exactly'); return 1 if ok else 0

def _main():
    import importlib
    sys.path.insert(0, HERE); a = sys.argv[1:]
    sys.modules['pycore'] = sys.modules['__main__']
    if a[0] == 'run':
        mod = importlib.import_module(a[1]); mod.setup(os.environ['SIM_BUILD'])
        r = batch(mod, a[2], int(a[3]), float(a[4]), int(a[5]), a[6], a[8], float(a[9])); json.dump(r, open(a[7], 'w')); return 0
    if a[0] == 'replay':
        rep = json.load(open(a[1])); mod = importlib.import_module(rep['driver']); mod.setup(os.environ['SIM_BUILD'])
        r = execute(mod, rep['scenario'], Shm(), rep['seed'], rep['choices'], os.path.join(a[2], 'err.rep'))
        print(json.dumps(dict(status=r['status'], **{'class': r['cls']}, loghash=r['loghash'], message=r['msg'][:1500]))); return 0
    if a[0] == 'hashes':       # hashes MOD SCEN SEED FROM TO SCRATCH: log hashes of runs, for the determinism proof
        mod = importlib.import_module(a[1]); mod.setup(os.environ['SIM_BUILD']); shm = Shm()
        for i in range(int(a[4]), int(a[5])): print(i, execute(mod, a[2], shm, runseed(a[3], a[2], i), None, os.path.join(a[6], 'err.h'))['loghash'])
        return 0
    if a[0] == 'one':          # one MOD SCEN SEED INDEX SCRATCH: print the log of one run
        mod = importlib.import_module(a[1]); mod.setup(os.environ['SIM_BUILD'])
        r = execute(mod, a[2], Shm(), runseed(a[3], a[2], int(a[4])), None, os.path.join(a[5], 'err.o')); sys.stdout.write(r['log'].decode('utf-8', 'replace')); r.pop('log'); r.pop('choices'); r.pop('states'); print(r); return 0
if __name__ == '__main__': sys.exit(_main())
