"""Find (and shrink) a failing case of one sub-check with some fields forced, print it as JSON; used once, when a finding is recorded.
usage: addcase.py PID SUB '{"known": true}' [known "what" | regress]      env VF_REPO selects the tree (e.g. the tree before a fix)"""
import sys, os, json
sys.path.insert(0, '/verif')
import vf
from vf import core
from hypothesis import find, settings, strategies as st, HealthCheck
pid, sub, force = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
s = core.load(pid).subs[sub]
def bad(c):
    return core.run_case(s, dict(c, **force))[0] == 'violation'
c = dict(find(s.strategy, bad, settings=settings(max_examples=20000, database=None, deadline=None, suppress_health_check=list(HealthCheck))), **force)
print(json.dumps(c), core.run_case(s, c)[1])
mode = sys.argv[4] if len(sys.argv) > 4 else None
if mode == 'known':
    p = '/verif/known_findings.json'; d = json.load(open(p))
    d['findings'].append(dict(property=pid, sub=sub, case=c, what=sys.argv[5], status='known'))
    json.dump(d, open(p, 'w'), indent=1)
elif mode == 'regress':
    p = '/verif/regress/%s.json' % pid
    d = json.load(open(p)) if os.path.exists(p) else []
    d.append(dict(sub=sub, case=c)); json.dump(d, open(p, 'w'), indent=1)
