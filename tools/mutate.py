#!/usr/bin/env python3
"""Mutation campaign: mutate.py N SEED WORKERS OUT [files...] : random one-place changes of /repo/src, /repo/python (files py*.c)
and /repo/ecgo (files *.go), kept when they compile and pass the repository's tests, then shown to the checks (short budgets, most relevant first)."""
import os, random, re, shutil, subprocess, sys, json, glob
from concurrent.futures import ThreadPoolExecutor
N, SEED, W, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
FILES = sys.argv[5:] or ['ecdsa.c', 'ecelgamal.c', 'ecpoint.c', 'ecurve.c', 'field.c', 'mpzurandom.c', 'safememory.c']
WORK = '/tmp/mut/%d' % SEED; os.makedirs(WORK, exist_ok=True); R = random.Random(SEED); BT = os.environ.get('BT', '8')
ORDER = {'field.c': 'F01 P01 M02 T01 P02 M01 M03 C01 D01 P03', 'ecpoint.c': 'P01 P02 P03 K01 M01 T02 M02 M03 C01 T01 D02 E01', 'ecurve.c': 'C01 M01 M02 P01 P02 T02 T01 P03',
 'ecdsa.c': 'D01 D02 D03 R03 M01 M02 M03 R01 T02 T01', 'ecelgamal.c': 'E01 R03 M01 M02 M03 T02 R01', 'mpzurandom.c': 'R01 R02 R03 M01 M02 M03 T01', 'safememory.c': 'M03 M02 M01 T01'}
GO = {'GO111MODULE': 'off', 'GOFLAGS': '', 'GOPROXY': 'off', 'GOTOOLCHAIN': 'local', 'CGO_ENABLED': '1', 'CGO_CFLAGS': '-g -O2 -I/repo/include', 'CGO_LDFLAGS': '-L/repo/src/.libs', 'LD_LIBRARY_PATH': '/repo/src/.libs'}
def where(f): return 'python/' if f.startswith('py') else 'ecgo/' if f.endswith('.go') else 'src/'
SIB = [('mpFp_add', 'mpFp_sub'), ('mpFp_mul', 'mpFp_add'), ('mpz_add', 'mpz_sub'), ('mpFp_set', 'mpFp_neg'), ('mpECP_add', 'mpECP_sub')]
SNAP = WORK + '/verif'; shutil.rmtree(SNAP, ignore_errors=True); os.makedirs(SNAP); subprocess.run('git -C /verif archive HEAD | tar x -C %s --exclude=seeded' % SNAP, shell=True, check=True)
def order(f): return 'Y01 Y02'.split() if where(f) == 'python/' else ['G02', 'G01'] if where(f) == 'ecgo/' else ORDER[f].split()
def mutants(f):
    src = open('/repo/' + where(f) + f).read(); L = src.split('\n'); out = []; depth = 0
    if f.endswith('.go'): L0 = next(i for i, l in enumerate(L) if l.startswith('import')); 
    for i, l in enumerate(L):
        if f.endswith('.go') and i < L0: continue
        d0 = depth; depth += l.count('{') - l.count('}'); t = l.strip()
        if d0 < 1 or not t or t.startswith(('//', '#', '/*', '*', 'assert')): continue
        def put(new, what):
            if new != l: out.append((i, new, what))
        if re.match(r'^[\w\->\.\[\]\*\(\)& ]+(=[^=].*|\(.*\));$', t) and not re.match(r'^(return|mpz_t|mpFp_t|int|char|size_t|unsigned|mpECP_t|mpECurve_t|const|static|struct)\b', t): put(re.match(r'\s*', l).group() + ';', 'delete')
        if re.match(r'^return ', t): put(l.replace('return ', 'return !!', 1) if 'NULL' not in t else l, 'return')
        for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), ('<< ', '>> '), ('++', '--')):
            for m in re.finditer(re.escape(a), l): put(l[:m.start()] + b + l[m.end():], a.strip() + '->' + b.strip())
        for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."])', l):
            if '"' in l: continue
            v = int(m.group()); put(l[:m.start()] + str(v + 1) + l[m.end():], 'n+1'); put(l[:m.start()] + str(max(0, v - 1)) + l[m.end():], 'n-1')
        if re.match(r'^(\} )?(else )?if \(', t): 
            put(re.sub(r'if \((.*)\) ?(\{|$|[^)]*;)', r'if (0 && (\1)) \2', l, 1), 'if0'); put(re.sub(r'if \((.*)\) ?(\{|$|[^)]*;)', r'if (1 || (\1)) \2', l, 1), 'if1')
        if f.endswith('.go'):
            if t and not t.startswith(('return', 'var', 'func', 'if', 'for', '}', 'case', 'switch', 'defer func')) and ':=' not in t and re.match(r'^[\w.\[\]\*, ]+( = .*|\(.*\))$', t): put('', 'delete')
            m = re.match(r'^(\s*)if (.*) \{$', l)
            if m and ';' not in l: put(m.group(1) + 'if false && (' + m.group(2) + ') {', 'if0'); put(m.group(1) + 'if true || (' + m.group(2) + ') {', 'if1')
            if re.match(r'^defer runtime|^runtime\.', t): put('', 'delete')
        m = re.match(r'^(\s*\w+\()(.*)(\);)$', l)
        if m:
            a = m.group(2).split(', ')
            if len(a) >= 3 and a[1] != a[2]: b = a[:]; b[1], b[2] = b[2], b[1]; put(m.group(1) + ', '.join(b) + m.group(3), 'swap')
            if len(a) >= 2: b = a[:]; b[-1] = a[-2]; put(m.group(1) + ', '.join(b) + m.group(3), 'dup')
        for a, b in SIB:
            for x, y in ((a, b), (b, a)):
                if re.search(r'\b%s\(' % x, l): put(re.sub(r'\b%s\(' % x, y + '(', l, 1), x + '->' + y)
        for m in re.finditer(r'"[0-9a-fA-Fx]{9,}"', l):
            k = m.start() + 3 + R.randrange(len(m.group()) - 5); ch = l[k]
            if ch in '0123456789abcdefABCDEF': put(l[:k] + ('1' if ch != '1' else '2') + l[k + 1:], 'digit')
    return [(f, L, o) for o in out]
def sh(cmd, t=120, **k):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, errors='replace', text=True, **k)
    except subprocess.TimeoutExpired: return None
def one(job):
    n, (f, L, (i, new, what)) = job; d = '%s/m%d' % (WORK, n); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/src'); res = dict(n=n, file=f, line=i + 1, what=what, old=L[i].strip(), new=new.strip())
    try:
        W_ = where(f)
        for x in glob.glob('/repo/src/*.c'): shutil.copy(x, d + '/src')
        os.symlink('/repo/include', d + '/include'); os.symlink('/repo/examples', d + '/examples')
        for x in ('python', 'ecgo'):
            if W_ == x + '/': shutil.copytree('/repo/' + x, d + '/' + x)
            else: os.symlink('/repo/' + x, d + '/' + x)
        open(d + '/' + W_ + f, 'w').write('\n'.join(L[:i] + [new] + L[i + 1:]))
        if W_ == 'ecgo/':
            env = dict(os.environ, HOME='/root', GOCACHE='/tmp/mut/gocache', **GO)
            r = sh(['go', 'test', '-count=1', '-timeout', '230s', '.'], 260, env=env, cwd=d + '/ecgo')
            if r is None or r.returncode: res['r'] = 'nocompile' if r is not None and ('build failed' in r.stdout or 'setup failed' in r.stdout) else 'test go'; return res
        elif W_ == 'python/':
            inc = subprocess.run(['python3-config', '--includes'], stdout=subprocess.PIPE, text=True).stdout.split() or ['-I/usr/include/python3.12']
            os.makedirs(d + '/py'); r = sh(['gcc', '-O2', '-w', '-shared', '-fPIC', '-I' + d + '/python', '-I/repo/include'] + inc + ['-o', d + '/py/ECC.so'] + [x for x in sorted(glob.glob(d + '/python/*.c'))] + ['-L/repo/src/.libs', '-lecc', '-lgmp'])
            if r is None or r.returncode: res['r'] = 'nocompile'; return res
            env = dict(os.environ, LD_LIBRARY_PATH='/repo/src/.libs', PYTHONPATH=d + '/py:/opt/vp/pydeps', PYTHONDONTWRITEBYTECODE='1')
            r = sh('python3 -m pytest -q -p no:cacheprovider --rootdir=/repo /repo/tests/pytest_*.py', 150, env=env, cwd=d, shell=True)
            if r is None or r.returncode: res['r'] = 'test py'; return res
        else:
            r = sh(['gcc', '-O2', '-w', '-shared', '-fPIC', '-I/repo/include', '-o', d + '/libecc.so.1'] + sorted(glob.glob(d + '/src/*.c')) + ['-lgmp', '-lpthread'])
            if r is None or r.returncode: res['r'] = 'nocompile'; return res
            env = dict(os.environ, LD_LIBRARY_PATH=d, PYTHONPATH='/repo/_build/py:/opt/vp/pydeps', PYTHONDONTWRITEBYTECODE='1', CK_DEFAULT_TIMEOUT='60')
            for t in ('ecurve', 'mpzurandom', 'ecpoint', 'ecelgamal', 'ecdsa', 'field'):
                r = sh(['/repo/tests/.libs/test_' + t], 150, env=env, cwd=d)
                if r is None or r.returncode: res['r'] = 'test ' + t; return res
            r = sh('python3 -m pytest -q -p no:cacheprovider --rootdir=/repo /repo/tests/pytest_*.py', 150, env=env, cwd=d, shell=True)
            if r is None or r.returncode: res['r'] = 'test py'; return res
        shutil.copytree(SNAP, d + '/v')
        for p in order(f):
            e = dict(os.environ, REPO=d, SIM_TIME=BT, SIM_JOBS='2', SIM_CACHE=d + '/cache')
            r = sh([d + '/v/check', p], 600, env=e, cwd=d + '/v')
            if r is None: res['r'] = 'check timeout ' + p; return res
            if r.returncode == 1: res['r'] = 'caught'; res['by'] = p; res['cls'] = (re.findall(r'^scenario (.*)$', r.stdout, re.M) or ['?'])[0]; return res
            if r.returncode != 0: res.setdefault('err', []).append(p + ': ' + r.stdout[-300:])
        res['r'] = 'SURVIVED'; return res
    finally: shutil.rmtree(d, ignore_errors=True)
allm = [m for f in FILES for m in mutants(f)]; R.shuffle(allm)
print(len(allm), 'mutants possible'); 
with ThreadPoolExecutor(W) as ex, open(OUT, 'a') as o:
    for res in ex.map(one, enumerate(allm[:N])): o.write(json.dumps(res) + '\n'); o.flush()
