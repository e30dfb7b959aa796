#!/usr/bin/env python3
"""Writes planted bugs into /verif/seeded/<id>: plant.py FILE.py  (FILE defines BUGS, see tools/bugs_*.py)
The patch is made from exact text replacements against /repo's HEAD."""
import os, subprocess, sys, json, importlib.util, shutil
spec = importlib.util.spec_from_file_location('bugs', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
REPO = os.environ.get('REPO', '/repo'); only = sys.argv[2:]
SH = '''#!/bin/sh
# runs in /repo after the build; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 99
gcc -O1 -w -o "$T/demo" "$D/demo.c" -Iinclude -Lsrc/.libs -Wl,-rpath,"$PWD/src/.libs" -lecc -lgmp -lpthread %s || { rm -rf "$T"; exit 98; }
cd "$T" && timeout 250 "$T/demo"; R=$?
cd /; rm -rf "$T"; exit $R
'''
for b in m.BUGS:
    if only and b['id'] not in only: continue
    d = os.environ.get('OUTD','/verif/seeded') + '/' + b['id']; os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in b['edits']:
        s = files.get(f) or subprocess.check_output(['git', '-C', REPO, 'show', 'HEAD:' + f], text=True)
        n = 1
        if s.count(old) != n: sys.exit('%s: %d matches of %r in %s' % (b['id'], s.count(old), old, f))
        files[f] = s.replace(old, new)
    t = '/tmp/plant/tree'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    subprocess.check_call(['git', 'init', '-q', t])
    for f in files:
        os.makedirs(os.path.dirname(t + '/' + f), exist_ok=True)
        open(t + '/' + f, 'w').write(subprocess.check_output(['git', '-C', REPO, 'show', 'HEAD:' + f], text=True))
    subprocess.check_call(['git', '-C', t, 'add', '-A']); subprocess.check_call(['git', '-C', t, '-c', 'user.name=x', '-c', 'user.email=x', 'commit', '-qm', 'x'])
    for f in files: open(t + '/' + f, 'w').write(files[f])
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', t, 'diff'], text=True))
    subprocess.check_call(['git', '-C', REPO, 'apply', '--check', d + '/patch.diff'])
    if 'demo' in b:
        open(d + '/demo.c', 'w').write(m.PRE.replace('//INCLUDES', b.get('inc', '')) + b['demo'])
        open(d + '/demo.sh', 'w').write(b.get('sh', SH % b.get('libs', '')))
    for n, c in b.get('extra', {}).items(): open(d + '/' + n, 'w').write(c)
    if 'demo' not in b: open(d + '/demo.sh', 'w').write(b['sh'])
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('planted', b['id'])
