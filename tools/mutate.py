#!/usr/bin/env python3
"""mutate.py LIST|RUN OUT [FILTER] [STRIDE] : systematic small changes of a scratch copy of /repo, to find what the
checks miss. LIST prints the mutants; RUN builds each, runs the repository's tests, and runs the checks of that
file on those that pass them. Results are appended to OUT (json lines); already listed mutants are skipped."""
import sys, os, re, json, subprocess, shutil, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '/tmp/m'
BY = [('convexpolygon', 'C01 C02'), ('interpolator', 'I01'), ('humanoid_foot_model', 'D03 I01 H03 H01'),
      ('lip_model', 'D03 D02 D01 Z05 Z04 H07 H08'), ('zebulon_base_model', 'D03 D01 Z05 Z04 Z03 Z02 Z01'), ('no_dynamic', 'D03 D01 T03 T01'),
      ('tools', 'D02 D01 I01 S03'), ('lineardynamic', 'D03 D01 D02'), ('trajectory', 'T03 T01 T02 S02 R01'),
      ('zebulon', 'Z05 Z04 Z03 Z02 Z01 S02 R01'), ('supervisor', 'H03 H02 H01 H07 H08 H05 H06 H04 R01'),
      ('humanoid_walkgen', 'H07 H08 H06 H05 H04 S02 R01 S03 E01'), ('humanoid_foot_constraint', 'H06 H08'), ('humanoid_cop_constraint', 'H05 H08'),
      ('humanoid', 'H04 H08'), ('qpoases', 'S01'), ('qpsolver.h', 'S03'), ('', 'D03 D01 Z05 T03 H07')]
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \+= ', ' = '), (r'(?<![<>])<(?![<=])(?= *[\w(.-]+)', '<='), (r' > ', ' >= '), (r' < ', ' > '),
       (r' == ', ' != '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '0'), (r'\b2\b(?!\.)', '1'), (r'\b1\b(?!\.)', '2'), (r'X\b', 'Y'), (r'Y\b', 'X'), (r'X(?=[A-Z(_])', 'Y'), (r'Y(?=[A-Z(_])', 'X'),
       (r'left', 'right'), (r'right', 'left'), (r'Left', 'Right'), (r'Right', 'Left'), (r'Sup', 'Inf'), (r'Inf', 'Sup'), (r'\bU\b', 'UT'), (r'\bUT\b', 'U'), (r'\bN\b', 'M'), (r'\bM\b', 'N'),
       (r'Vel', 'Acc'), (r'Pos', 'Vel'), (r'Acc', 'Vel'), (r'bl\b', 'bu'), (r'xl\b', 'xu'), (r'cwiseMin', 'cwiseMax'), (r'cwiseMax', 'cwiseMin'), (r'\bcom', 'base'), (r'Com', 'Base'), (r'Base', 'Com'),
       (r'feedBackPeriod', 'samplingPeriod_'), (r'feedbackPeriod_', 'samplingPeriod_'), (r'samplingPeriod_', 'feedbackPeriod_'), (r'stepPeriod_', 'DSPeriod_'), (r'leftSS', 'rightSS'), (r'rightSS', 'leftSS'), (r'::DS\b', '::leftSS'), (r'EPSILON', 'MAXIMUM_BOUND_VALUE'), (r'-(?=[a-z])', ''), (r'nbPreviewedSteps_', 'nbSamples_')]
def mutants():
    fs = sorted(glob.glob('/repo/src/**/*.cpp', recursive=True)) + ['/repo/mpc-walkgen/tools.h', '/repo/qpsolver/mpc-walkgen/qpsolver.h', '/repo/qpsolver/src/qpsolver_qpoases.hxx']
    for f in fs:
        if f.endswith('qpsolverfactory.cpp'): continue
        lines = open(f).read().split('\n'); incom = False; inassert = False
        for n, l in enumerate(lines):
            s = l.strip()
            if incom or s.startswith('/*'): incom = '*/' not in s; continue
            if inassert: inassert = ';' not in s; continue
            if s.startswith('assert'): inassert = ';' not in s; continue
            if not s or s.startswith('//') or s.startswith('#') or s.startswith('template') or s.startswith('using') or s.startswith('namespace'): continue
            code = l.split('//')[0]
            k = 0
            for a, b in OPS:
                for m in re.finditer(a, code):
                    if 'Scalar>' in code and a.startswith('(?<!'): continue
                    t = code[:m.start()] + b + code[m.end():]
                    yield (f[6:], n, k, l, t); k += 1
            if s.endswith(';') and not re.match(r'(return|break|const|int|Scalar|VectorX|MatrixX|case|std::vector|typename|auto|bool|default)', s) and s.count('(') == s.count(')') and (n == 0 or lines[n-1].strip()[-1:] in ';{})' or not lines[n-1].strip()):
                yield (f[6:], n, k, l, ' ;')
def sh(c, t=600): 
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
def main():
    mode, out = sys.argv[1:3]; flt = sys.argv[3] if len(sys.argv) > 3 else ''; stride = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    ms = [m for m in mutants() if re.search(flt, m[0])]
    ms = [m for i, m in enumerate(ms) if (i * 7919) % stride == 0] if stride > 1 else ms
    if mode == 'LIST':
        for m in ms: print(m[0], m[1]+1, m[2], '|', m[3].strip(), '=>', m[4].strip())
        print(len(ms)); return
    done = set()
    if os.path.exists(out):
        for l in open(out): r = json.loads(l); done.add((r['f'], r['old'], r['new']))
    if os.path.isdir(M): shutil.rmtree(M)
    os.makedirs(M); sh('cp -a /repo/. %s/ && rm -rf %s/_build && cp -a /opt/vp/cmake /tmp/m/.cm && sed -i s,/repo,/tmp/m,g /tmp/m/.cm/CMakeLists.txt' % (M, M))
    cm = 'CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S /tmp/m/.cm -B /tmp/m/_build -G Ninja -DCMAKE_BUILD_TYPE=None "-DCMAKE_CXX_FLAGS=-O1 -Wno-error" && ninja -C /tmp/m/_build'
    r = sh(cm)
    if r.returncode: print(r.stdout[-2000:]); sys.exit(1)
    r = sh('ctest --test-dir /tmp/m/_build -j8 --timeout 60')
    basefail = set(re.findall(r'- (\S+) \(', r.stdout.split('FAILED:')[-1])) if 'FAILED' in r.stdout else set()
    os.makedirs('/tmp/mtmp', exist_ok=True); env = 'TMPDIR=/tmp/mtmp MPC_REPO=/tmp/m MPC_CACHE=/tmp/mcache '
    for f, n, k, old, new in ms:
        if (f, old.strip(), new.strip()) in done: continue
        done.add((f, old.strip(), new.strip()))
        p = M + '/' + f; src = open(p).read(); ls = src.split('\n'); ls[n] = new; open(p, 'w').write('\n'.join(ls)); t0 = time.time()
        res = '?'; by = ''
        try:
            isq = 'qpoases' in f
            r = sh('ninja -C /tmp/m/_build') if not isq else None
            if r is not None and r.returncode: res = 'nobuild'
            else:
                r = sh('ctest --test-dir /tmp/m/_build -j8 --timeout 60') if not isq else None
                bad = set(re.findall(r'- (\S+) \(', r.stdout.split('FAILED:')[-1])) if r is not None and 'FAILED' in r.stdout else set()
                if bad - basefail: res = 'tests'
                else:
                    res = 'SURVIVED'
                    ids = next(v for a, v in BY if a in f).split()
                    for i in ids:
                        r = sh(env + 'python3 %s/check.py %s' % (V, i), 900)
                        if r is None: by += i + ':timeout '; continue
                        if r.returncode == 1: res = 'caught'; by = i; break
                        if r.returncode == 2: by += i + ':2 ' + r.stdout[-200:]
        finally: open(p, 'w').write(src)
        with open(out, 'a') as o: o.write(json.dumps(dict(f=f, n=n+1, old=old.strip(), new=new.strip(), res=res, by=by, t=round(time.time()-t0, 1))) + '\n')
        for d in glob.glob('/tmp/mtmp/*'): shutil.rmtree(d, ignore_errors=True)
        if sum(os.path.getsize(x) for x in glob.glob('/tmp/mcache/*') if os.path.isfile(x)) > 4e9: shutil.rmtree('/tmp/mcache', ignore_errors=True)
main()
