#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.cfg and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
def reg(src, tus, *ids):
    for i in ids: CHECKS[i] = src
class Any(list):
    def __add__(s, o): return s
def uniq(*a): return Any()
CORE = MODELS = TRAJ = ZEB = SUP = HUM = Any()
INSTRUMENT = {}; SANITIZE = {}
exec(open(os.path.join(H, 'checks.cfg')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 check.py --setup',
  hooks=dict(guard='none', enable='no hooks: the checks compile the unmodified sources of /repo and observe them through public headers and a recording QP solver', source_commits=[]),
  checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
          thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
          technique=TECH[i], level='model_checking', level_note=NOTE[i]))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check still under construction')))
m['notes'] = 'check.py compiles the harness and the needed sources of /repo (content-hash object cache in .cache) and explores exhaustively; --replay FILE re-runs one reported case. MPC_REPO=<dir> checks another tree.'
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
