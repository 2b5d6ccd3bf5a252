#!/usr/bin/env python3
"""plant.py SPEC.py [--check ID,ID]: turn a spec (id, prop, edits, demo, needs, breaks[, files]) into
seeded/<id>/ after confirming it: builds, stable tests pass, demo 0 without and nonzero with."""
import sys, os, json, subprocess, shutil, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git -C /repo checkout -- . ')
s = {}; exec(open(sys.argv[1]).read(), s)
ids = sys.argv[3].split(',') if len(sys.argv) > 3 else [s['prop']]
if sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(): sys.exit('/repo is not clean')
d = '%s/seeded/%s' % (V, s['id']); os.makedirs(d, exist_ok=True)
open(d + '/demo.cpp', 'w').write(s['demo'])
shutil.copy(V + '/tools/demo.h', d); 
open(d + '/demo.sh', 'w').write(s.get('demo_sh') or open(V + '/tools/demo.sh').read()); os.chmod(d + '/demo.sh', 0o755)
for n, t in s.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok = True
try:
    sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('clean demo', r.returncode, r.stdout.strip()[-600:]); ok &= r.returncode == 0
    for f, a, b in s['edits']:
        p = '/repo/' + f; t = open(p).read()
        if t.count(a) != 1: sys.exit('%s: %d occurrences of %r' % (f, t.count(a), a))
        open(p, 'w').write(t.replace(a, b))
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    r = sh('bash /opt/vp/build.sh'); print('build', r.returncode); ok &= r.returncode == 0
    if r.returncode: print(r.stdout[-1500:])
    sh('bash /opt/vp/test.sh /tmp/t.json'); t = set(json.load(open('/tmp/t.json'))['passed']); print('missing tests', sorted(base - t)); ok &= not (base - t)
    r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('patched demo', r.returncode, r.stdout.strip()[-600:]); ok &= r.returncode not in (0, 3)
    print('COUNTS' if ok else 'DOES NOT COUNT')
    if ok:
        for i in ids:
            if not i: continue
            r = sh('python3 %s/check.py %s' % (V, i)); print('CHECK', i, r.returncode, r.stdout[-900:])
finally:
    clean(); sh('bash /opt/vp/build.sh')
