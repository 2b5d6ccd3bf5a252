#!/usr/bin/env python3
"""coverage.py [ID...]: which lines and branches of /repo's sources the quick checks do not reach."""
import sys, os, subprocess, shutil, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or [c.get('property') or c['property_id'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
D = '/tmp/covcache'; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
env = dict(os.environ, MPC_FLAGS='--coverage -DMC_COV', MPC_CACHE=D)
keep = V + '/evidence'
for i in ids:
    r = subprocess.run(['python3', V + '/check.py', i], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); print(r.stdout.strip().splitlines()[-1:])
os.chdir(D)
miss = {}
for g in glob.glob('*.gcda'):
    out = subprocess.run(['gcov', '-b', '-c', '--json-format', '--stdout', g], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    for l in out.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        for f in j['files']:
            n = f['file']
            if not n.startswith('/repo/'): continue
            m = miss.setdefault(n, {})
            for x in f['lines']: m[x['line_number']] = m.get(x['line_number'], 0) + x['count']
for n in sorted(miss):
    src = open(n).read().splitlines(); z = sorted(k for k, c in miss[n].items() if c == 0)
    if z: print(n); [print('   %4d %s' % (k, src[k-1].strip()[:140])) for k in z]
