#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE]

Builds the needed sources of /repo's working tree together with the model
checker of the property, runs the exhaustive exploration, writes
evidence/<ID>.json.  Exit 0: held everywhere; 1: VIOLATION line printed.
"""
import sys, os, json, hashlib, subprocess, time, glob, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MPC_REPO', '/repo')
CACHE = os.environ.get('MPC_CACHE', os.path.join(HERE, '.cache'))
FLAGS = ['-std=c++14', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS', '-DMPC_WALKGEN_API_H',
         '-DMPC_WALKGEN_API=__attribute__((visibility("default")))',
         '-I' + REPO, '-I' + REPO + '/qpsolver', '-I/usr/include/eigen3'] + os.environ.get('MPC_FLAGS', '').split()

FN = 'src/function/'
CORE = ['src/convexpolygon.cpp', 'src/lineardynamic.cpp', 'src/tools.cpp', 'src/interpolator.cpp']
MODELS = ['src/model/lip_model.cpp', 'src/model/zebulon_base_model.cpp',
          'src/model/no_dynamic_model.cpp', 'src/model/humanoid_foot_model.cpp']
TRAJ = ['src/trajectory_walkgen.cpp', 'src/lineardynamic.cpp', 'src/tools.cpp', 'src/model/no_dynamic_model.cpp'] + \
       [FN + 'trajectory_%s.cpp' % x for x in ('jerk_minimization_objective', 'motion_constraint',
        'position_tracking_objective', 'velocity_tracking_objective')]
ZEB = ['src/zebulon_walkgen.cpp', 'src/convexpolygon.cpp', 'src/lineardynamic.cpp', 'src/tools.cpp',
       'src/model/lip_model.cpp', 'src/model/zebulon_base_model.cpp'] + \
      [FN + 'zebulon_%s.cpp' % x for x in ('base_motion_constraint', 'base_position_tracking_objective',
       'base_velocity_tracking_objective', 'com_centering_objective', 'com_constraint', 'cop_centering_objective',
       'cop_constraint', 'jerk_minimization_objective', 'tilt_minimization_objective', 'tilt_motion_constraint',
       'tilt_velocity_minimization_objective')]
SUP = ['src/humanoid_feet_supervisor.cpp', 'src/convexpolygon.cpp', 'src/lineardynamic.cpp', 'src/interpolator.cpp',
       'src/tools.cpp', 'src/model/humanoid_foot_model.cpp']
HUM = SUP + ['src/humanoid_walkgen.cpp', 'src/model/lip_model.cpp'] + \
      [FN + 'humanoid_%s.cpp' % x for x in ('cop_centering_objective', 'cop_constraint', 'foot_constraint',
       'lip_com_jerk_minimization_objective', 'lip_com_velocity_tracking_objective')]

def uniq(*ls):
    out = []
    for l in ls:
        for x in l:
            if x not in out: out.append(x)
    return out

# id -> (harness source, repository sources)
CHECKS = {}
INSTRUMENT = {}   # id -> compiler options of the repository's sources in that check
SANITIZE = {}     # id -> compiler and linker options of everything in that check
def reg(src, tus, *ids):
    for i in ids: CHECKS[i] = (src, tus)
exec(open(os.path.join(HERE, 'checks.cfg')).read())

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()[:32]

def repo_headers():
    r = []
    for d in ('mpc-walkgen', 'src', 'qpsolver'):
        for base, _, files in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(base, f) for f in files if f.endswith(('.h', '.hpp', '.hxx'))]
    # included by harnesses rather than compiled by themselves
    return r + glob.glob(os.path.join(REPO, 'qpsolver', 'src', '*.cpp')) + glob.glob(os.path.join(REPO, 'src', 'qpsolverfactory.cpp'))

def compile_one(job):
    src, flags, key = job
    obj = os.path.join(CACHE, key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        r = sh(['g++'] + flags + ['-c', src, '-o', tmp])
        if r.returncode: return (src, None, r.stdout)
        os.replace(tmp, obj)
    return (src, obj, '')

def build(pid):
    os.makedirs(CACHE, exist_ok=True)
    hsrc, tus = CHECKS[pid]
    own = hsrc if isinstance(hsrc, (list, tuple)) else [hsrc]
    hh = repo_headers()
    hkey = digest(hh, ' '.join(FLAGS))
    vh = glob.glob(os.path.join(HERE, 'harness', '*.h')) + glob.glob(os.path.join(HERE, 'harness', 'stub', '**', '*.h*'), recursive=True)
    vkey = digest(vh, hkey)
    def job(src, own):
        flags = FLAGS + SANITIZE.get(pid, []) + ([] if own else INSTRUMENT.get(pid, [])) + (['-I' + os.path.join(HERE, 'harness'), '-I' + os.path.join(HERE, 'harness', 'stub')] if own else [])
        return (src, flags, digest([src], (vkey if own else hkey) + ' '.join(flags)))
    def all_sources():
        r = [p for p in glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True)
             if not p.endswith('qpsolverfactory.cpp')]
        return sorted(r)
    repo_srcs = [os.path.join(REPO, t) for t in tus if os.path.exists(os.path.join(REPO, t))]
    own = [os.path.join(HERE, 'harness', h) for h in list(own) + ['mc.cpp']]
    def compile_all(rs):
        # slow translation units first
        rs = sorted(rs, key=lambda p: (0 if 'tilt' in p else 1 if 'walkgen.cpp' in p or 'supervisor' in p else 2, p))
        jobs = [job(s, True) for s in own] + [job(s, False) for s in rs]
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(compile_one, jobs))
        bad = [(s, o) for s, ob, o in res if ob is None]
        if bad:
            for s, o in bad: print('does not compile:', s); print(o[-3000:])
            sys.exit(2)
        return [ob for _, ob, _ in res][len(own):] + [ob for _, ob, _ in res][:len(own)]
    exe = os.path.join(CACHE, 'exe-%s-%d' % (pid, os.getpid()))
    r = sh(['g++', '-o', exe] + SANITIZE.get(pid, []) + os.environ.get('MPC_FLAGS', '').split() + compile_all(repo_srcs))
    if r.returncode:
        # a source was added or moved: link with everything
        r = sh(['g++', '-o', exe] + SANITIZE.get(pid, []) + os.environ.get('MPC_FLAGS', '').split() + compile_all(all_sources()))
    if r.returncode:
        print('does not link'); print(r.stdout[-3000:]); sys.exit(2)
    return exe

def known_findings():
    res = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding: property=(\S+) key=(\S+) (.*)$', l.strip())
            if m: res.append(m.groups())
    return res

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        os.makedirs(CACHE, exist_ok=True); return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    replay = None
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i+1]; i += 2
        elif a[i] == '--replay': replay = a[i+1]; i += 2
        else: i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    exe = build(pid)
    tb = time.time() - t0
    outdir = tempfile.mkdtemp(prefix='mc-%s-' % pid)
    out = os.path.join(outdir, 'r')
    try:
        if replay:
            rec = json.load(open(replay))
            r = subprocess.run([exe, '--id', pid, '--tier', rec.get('tier', tier), '--out', out, '--replay', str(rec['case'])])
            return r.returncode
        r = sh([exe, '--id', pid, '--tier', tier, '--out', out])
        if not os.path.exists(out + '.json'):
            print('the explorer itself failed:', r.returncode, r.stdout[-2000:]); return 2
        res = json.load(open(out + '.json'))
        viols = []
        if os.path.exists(out + '.confirmed'):
            for l in open(out + '.confirmed', errors='replace'):
                try: viols.append(json.loads(l))
                except ValueError: viols.append(dict(case=0, family='?', key='?', msg=l, trace=''))
        known = {k: t for (p, k, t) in known_findings() if p == pid}
        kf_seen = sorted({v['key'] for v in viols if v['key'] in known})
        new = [v for v in viols if v['key'] not in known]
        rc = 0
        for k in kf_seen: print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
        seen = set()
        rdir = os.path.join(HERE, 'evidence', 'replay')
        for v in new:
            if v['key'] in seen: continue
            seen.add(v['key'])
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%s-%d.json' % (pid, tier, v['case']))
            v['property'] = pid; v['tier'] = tier
            json.dump(v, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  [%s] %s: %s' % (v['key'], v['family'], v['msg']))
            print('  ' + v['trace'][:1500].replace('\n', '\n  '))
            rc = 1
        if res['unconfirmed'] and not new:
            print('note: %d failing case(s) did not repeat when run alone; not reported' % res['unconfirmed'])
            rc = max(rc, 2)
        if res['slow']: print('note: %d case(s) needed longer than the time limit, and passed when run alone' % res['slow'])
        if os.environ.get('MC_TIMES'): print(r.stdout, 'longest case: %d ms' % res['longest_case_ms'])
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
                  coverage=dict(states=res['states'], transitions=res['transitions'],
                                traces_validated_against_impl=res['traces'], executions=res['cases'],
                                oracle_comparisons=res['checks'], distinct_outcomes=res['outcomes'],
                                exhaustive=not (res['stopped_early'] or res['lost_stats'] or bool(new)),
                                samples=[s.replace('\\n', '\n') for s in res['samples']] or ['(no case ran)'],
                                explanation=EXPLAIN.get(pid, '')),
                  assumptions=ASSUME.get(pid, ASSUME['*']), wall_s=round(time.time()-t0, 2), violations=len(new))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s %s: %d executions, %d states, %d transitions, %d traces, %d comparisons, %d outcomes; build %.1fs, total %.1fs' %
              (pid, tier, res['cases'], res['states'], res['transitions'], res['traces'], res['checks'], res['outcomes'], tb, time.time()-t0))
        if rc == 0 and res['cases'] == 0: return 2
        return rc
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
        try: os.environ.get("MC_KEEP") or os.unlink(exe)
        except OSError: pass

sys.exit(main())
