#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/plans.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'lib'))
import plans
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
EXEC = ('TLA+/TLC: design model Scheduler.tla checked exhaustively; recorded runs of the real jom on a simulated operating system validated against Exec.tla',
        'The design model is explored exhaustively within small constants. The real code is bound by validating recorded runs (random build graphs, systematically and randomly explored schedules) event by event against the same TLA+ rules; graphs and schedules beyond those explored are not covered.')
checks = []
for p in props:
    if p not in plans.PLANS: continue
    mod, fn, level = plans.PLANS[p]
    tech, note = plans.NOTES.get(p, EXEC)
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'technique': tech, 'level': level, 'level_note': note})
na = [{'property': p, 'reason': plans.NA.get(p, 'its check is not built yet')} for p in props if p not in plans.PLANS]
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py --repo /repo --out build/sim', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
