"""Plant bugs from a spec file, confirm each one in a scratch copy of /repo, keep the confirmed ones in /verif/seeded.
usage: plant.py SPEC.py [id...]     SPEC.py defines BUGS = [dict(id=, prop=, file=, edits=[(old, new)...], demo=python source, needs=, breaks=)]
Each edit must match exactly once (or give a third element: which occurrence)."""
import sys, os, json, shutil, subprocess, runpy
W = '/tmp/plantcopy'
def sh(c, cwd=W, t=1200): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
def tests():
    o = '/tmp/plant_junit.xml'
    r = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg NUMBA_FUNCTION_CACHE_SIZE=0 TZ=UTC OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -m pytest . -q -n 8 -p no:cacheprovider --timeout=300 --continue-on-collection-errors -m "not online and not thermo" 2>&1 | tail -15')
    return r.stdout
spec = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
if os.path.exists(W): shutil.rmtree(W)
sh('git -C /repo status --short --untracked-files=no | grep . && exit 1; cp -a /repo /tmp/plantcopy', cwd='/')
for b in spec:
    if only and b['id'] not in only: continue
    dst = '/verif/seeded/' + b['id']
    if os.path.exists(dst) and not only: print(b['id'], 'already kept'); continue
    sh('git checkout -q -- .')
    ok = True
    for e in b['edits']:
        fn = e[3] if len(e) > 3 else b['file']
        p = W + '/' + fn; s = open(p).read(); n = s.count(e[0]); k = e[2] if len(e) > 2 else None
        if n == 0 or (n > 1 and k is None): print(b['id'], 'EDIT MATCHES', n, 'TIMES', repr(e[0])[:80]); ok = False; break
        i = -1
        for _ in range((k or 0) + 1): i = s.index(e[0], i + 1)
        open(p, 'w').write(s[:i] + e[1] + s[i + len(e[0]):])
    if not ok: continue
    patch = sh('git diff').stdout
    orig = sh('git show b5d0ab8:%s' % b['file']).stdout.splitlines()
    gone = [l[1:] for l in patch.splitlines() if l.startswith('-') and not l.startswith('---')]
    if gone and not all(l in orig for l in gone): print(b['id'], 'CHANGES LINES THAT ARE NOT ORIGINAL', [l for l in gone if l not in orig][:2]); continue
    d = '/tmp/plantdemo'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.py', 'w').write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + b['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds on this input\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    a = sh('bash /tmp/plantdemo/demo.sh', cwd='/repo'); c = sh('bash /tmp/plantdemo/demo.sh')
    if a.returncode != 0 or c.returncode == 0: print(b['id'], 'DEMO unpatched rc', a.returncode, 'patched rc', c.returncode, a.stderr[-300:], c.stdout[-200:]); continue
    t = tests(); last = t.strip().splitlines()[-1]
    if 'failed' in last or 'error' in last or 'passed' not in last or int(last.split()[0]) < 1893: print(b['id'], 'TESTS NOTICE:', t[-600:]); continue
    os.makedirs(dst, exist_ok=True)
    open(dst + '/patch.diff', 'w').write(patch); shutil.copy(d + '/demo.py', dst); shutil.copy(d + '/demo.sh', dst)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(dst + '/meta.json', 'w'), indent=1)
    sh('git apply --check %s/patch.diff' % dst, cwd='/repo')
    r = sh('VF_REPO=%s ./check %s --no-evidence' % (W, b['prop']), cwd='/verif')
    print(b['id'], 'KEPT; check', b['prop'], 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d %s' % (r.returncode, r.stdout[-200:]), '|', '; '.join(l.strip()[:110] for l in r.stdout.splitlines() if l.startswith('  sub='))[:240], flush=True)
shutil.rmtree(W)
