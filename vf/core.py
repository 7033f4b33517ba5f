"""Shared machinery: registry of generated sub-checks, parallel Hypothesis runner,
shrunk replay files, known findings, evidence."""
import argparse, hashlib, importlib, json, math, multiprocessing as mp, os, random, signal, sys, time, traceback
from collections import Counter
from . import REPO, VERIF
import hypothesis
from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, strategies as st

FLUIDS_DIR = os.path.join(os.path.realpath(REPO), 'fluids') + os.sep

class Violation(AssertionError):
    """The oracle rejected what the code under test did."""

class Stop(BaseException):
    """Ends one Hypothesis run early (shrink budget used up, case hung)."""

class Hang(BaseException):
    pass

class SkipCase(Exception):
    """The case is outside the property's domain (counted as discarded)."""

# ---------------------------------------------------------------- generators
# Hypothesis draws wide integer ranges (and floats) heavily skewed to the low end; fixed-width bytes come out uniform.
N32 = 2**32 - 1
unit = st.binary(min_size=4, max_size=4).map(lambda b: int.from_bytes(b, 'big')/N32)
def uf(lo, hi, special=()):
    """Uniform float in [lo, hi]; special values (and their neighbours) mixed in."""
    return _mix(unit.map(lambda u: lo if u == 0 else hi if u == 1 else min(max(lo + (hi - lo)*u, lo), hi)), lo, hi, special)

def lf(lo, hi, special=()):
    """Log-uniform float in [lo, hi], lo > 0."""
    r = math.log(hi/lo)
    return _mix(unit.map(lambda u: lo if u == 0 else hi if u == 1 else min(max(lo*math.exp(r*u), lo), hi)), lo, hi, special)

def _mix(base, lo, hi, special):
    sp = []
    for s in special:
        for v in ((0.0, 1e-9, -1e-9) if s == 0 else (s, math.nextafter(s, -math.inf), math.nextafter(s, math.inf), s*(1+1e-6), s*(1-1e-6), s*1.02, s*.98)):
            if lo <= v <= hi:
                sp.append(float(v))
    if not sp:
        return base
    # one_of would draw the special values half the time; keep them at about 1 in 5
    return st.integers(0, 4).flatmap(lambda k: st.sampled_from(sp) if k == 4 else base)

def inear(base, specials, p=5):
    """Strategy `base` with explicit special values about once in p draws."""
    specials = list(specials)
    return st.integers(0, p-1).flatmap(lambda k: st.sampled_from(specials) if k == p-1 else base)

def ints(lo, hi):
    if hi - lo < 256: return st.integers(lo, hi)
    return unit.map(lambda u: lo + min(int(u*(hi - lo + 1)), hi - lo))
def pick(*a):
    """pick(sequence) or pick(v1, v2, ...)"""
    return st.sampled_from(list(a) if len(a) > 1 or isinstance(a[0], (str, type(None), bool, int, float)) else a[0])
def opt(s, p=2):
    return st.integers(0, p-1).flatmap(lambda k: s if k else st.none())
def rec(**kw):
    return st.fixed_dictionaries({k: (v if isinstance(v, st.SearchStrategy) else st.just(v)) for k, v in kw.items()})
def flist(elem, lo=0, hi=10):
    return st.lists(elem, min_size=lo, max_size=hi)

# ---------------------------------------------------------------- oracles
def fail(msg, *a):
    raise Violation(msg % a if a else msg)

def fmt(v):
    return repr(v)

def close(got, want, rtol=1e-9, atol=0.0, what=''):
    try:
        if isinstance(got, complex) or isinstance(want, complex):
            ok = abs(got - want) <= atol + rtol*max(abs(got), abs(want))
            ok = ok or got == want
        else:
            g, w = float(got), float(want)
            if g != g or w != w:
                ok = (g != g) and (w != w)
            else:
                ok = g == w or abs(g - w) <= atol + rtol*max(abs(g), abs(w))
                if math.isinf(g) != math.isinf(w):
                    ok = False
    except (TypeError, ValueError):
        ok = False
    if not ok:
        raise Violation('%s: got %r, expected %r (rtol=%g atol=%g)' % (what, got, want, rtol, atol))

def closes(got, want, rtol=1e-9, atol=0.0, what=''):
    g, w = list(got), list(want)
    if len(g) != len(w):
        raise Violation('%s: lengths differ: got %r expected %r' % (what, g, w))
    for i, (a, b) in enumerate(zip(g, w)):
        if isinstance(b, (list, tuple)):
            closes(a, b, rtol, atol, '%s[%d]' % (what, i))
        else:
            close(a, b, rtol, atol, '%s[%d]' % (what, i))

def ensure(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)

def finite(v, what=''):
    if not (isinstance(v, (int, float)) or hasattr(v, 'dtype')) or not math.isfinite(v):
        raise Violation('%s: not a finite number: %r' % (what, v))
    return v

def raises(exc, f, /, *a, what='', **k):
    try:
        r = f(*a, **k)
    except exc:
        return
    except Exception as e:
        if isinstance(e, (Violation, SkipCase)): raise
        raise Violation('%s: raised %r instead of %r' % (what or getattr(f, '__name__', f), e, exc))
    raise Violation('%s: returned %r instead of raising %r' % (what or getattr(f, '__name__', f), r, exc))

# ---------------------------------------------------------------- registry
class Ctx:
    """Handed to every case: classification counters."""
    __slots__ = ('labels', 'nt')
    def __init__(self):
        self.labels = []; self.nt = True
    def label(self, *names):
        self.labels.extend(str(n) for n in names)
    def trivial(self):
        self.nt = False
    def nontrivial(self, cond=True):
        self.nt = bool(cond)

class Sub:
    def __init__(self, name, strategy, fn, n, thorough, hang, weight, fresh):
        self.name, self.strategy, self.fn, self.n = name, strategy, fn, n
        self.thorough = thorough or 12*n
        self.hang, self.weight, self.fresh = hang, weight, fresh

class Prop:
    def __init__(self, pid, rule, level='exploration', assumptions=()):
        self.id, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.subs = {}
        self.excluded = []   # known-finding exclusion predicates are applied in the sub itself
    def sub(self, strategy=None, n=200, thorough=None, name=None, hang=60, weight=None, fresh=False, **gens):
        if strategy is None:
            strategy = rec(**gens)
        def deco(fn):
            nm = name or fn.__name__
            if nm in self.subs:
                raise RuntimeError('duplicate sub %s' % nm)
            self.subs[nm] = Sub(nm, strategy, fn, n, thorough, hang, weight or n, fresh)
            return fn
        return deco

def classify_exception(e):
    """'violation' when the code under test (or the oracle) raised, else 'harness'."""
    if isinstance(e, Violation):
        return 'violation'
    tb = e.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(FLUIDS_DIR):
            return 'violation'
        tb = tb.tb_next
    # The oracle could not digest what the code returned (wrong type or shape, NaN, negative where a root is taken):
    # no such exception happens on the unchanged tree, so it is a deviation too.
    if isinstance(e, (ImportError, NameError, MemoryError, OSError)):
        return 'harness'
    return 'violation'

def tb_tail(e):
    return ''.join(' <- %s:%d' % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-4:][::-1])

def run_case(sub, case):
    """-> (outcome, message, ctx); outcome in ok/skip/violation/harness"""
    ctx = Ctx()
    try:
        sub.fn(ctx, **case) if isinstance(case, dict) else sub.fn(ctx, case)
    except SkipCase:
        return 'skip', '', ctx
    except (Stop, Hang, KeyboardInterrupt):
        raise
    except RecursionError as e:
        return 'violation', 'RecursionError', ctx
    except Exception as e:
        kind = classify_exception(e)
        if kind == 'violation':
            msg = str(e) if isinstance(e, Violation) else 'unexpected exception (code under test, or the oracle digesting its result): ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + tb_tail(e)
            return 'violation', msg[:2000], ctx
        return 'harness', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:], ctx
    return 'ok', '', ctx

def _alarm(signum, frame):
    raise Hang()

class _Fail(Exception):
    pass
class _Harness(Exception):
    pass

def case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=repr).encode(), digest_size=8).digest()

SHRINK_S = 15.0

def jsonable(o):
    if hasattr(o, 'tolist'): return o.tolist()
    return repr(o)

def run_sub(args):
    pid, name, n, seedv, known = args
    prop = PROPS[pid]
    sub = prop.subs[name]
    res = dict(sub=name, evals=0, skipped=0, distinct=0, labels={}, samples=[], fail=None, harness=None, inconclusive=None, excluded=0, t=0.0)
    seen = set(); labels = Counter(); t0 = time.time()
    state = dict(first_fail=None, last=None, last_msg=None)
    signal.signal(signal.SIGVTALRM, _alarm)
    def test(case):
        if state['first_fail'] is not None and time.time() - state['first_fail'] > SHRINK_S:
            raise Stop()
        signal.setitimer(signal.ITIMER_VIRTUAL, sub.hang)
        try:
            out, msg, ctx = run_case(sub, case)
        except Hang:
            state['last'], state['last_msg'] = case, 'no result after %g s of CPU time' % sub.hang
            if state['first_fail'] is None: state['first_fail'] = time.time()
            raise Stop()
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if state['first_fail'] is None:
            if out == 'skip':
                res['skipped'] += 1
            else:
                res['evals'] += 1
                labels.update(ctx.labels)
                if ctx.nt:
                    k = case_key(case)
                    if k not in seen:
                        seen.add(k)
                        if len(res['samples']) < 3:
                            res['samples'].append(case)
        if out == 'harness':
            state['harness'] = (case, msg)
            raise _Harness(msg)
        if out == 'violation':
            if state['first_fail'] is None: state['first_fail'] = time.time()
            state['last'], state['last_msg'] = case, msg
            raise _Fail('violation')
    h = int.from_bytes(hashlib.blake2b(('%s/%s/%d' % (pid, name, seedv)).encode(), digest_size=6).digest(), 'big')
    run = hseed(h)(settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], verbosity=hypothesis.Verbosity.quiet)(given(sub.strategy)(test)))
    try:
        run()
    except (Stop, _Fail):
        pass
    except _Harness:
        pass
    except hypothesis.errors.Flaky:
        # the oracle gave two answers for one case: still a failing input, keep it
        pass
    except Exception as e:
        if not state['last'] and not state.get('harness'):
            state['harness'] = (None, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    if state.get('harness'):
        res['harness'] = dict(case=state['harness'][0], msg=state['harness'][1])
    elif state['last'] is not None:
        res['fail'] = dict(case=state['last'], msg=state['last_msg'])
    res['distinct'] = len(seen); res['labels'] = dict(labels); res['t'] = time.time() - t0
    return res

PROPS = {}

def load(pid):
    m = importlib.import_module('props.' + pid.lower())
    PROPS[pid] = m.P
    return m.P

def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path): return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k.get('status') == 'known']

def regress_cases(pid):
    path = os.path.join(VERIF, 'regress', pid + '.json')
    if not os.path.exists(path): return []
    with open(path) as f:
        return json.load(f)

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--sub', action='append')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VF_JOBS', '8')))
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VF_SCALE', '1')))
    ap.add_argument('--inproc', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    pid = a.property
    tier = os.environ.get('VERIF_TIER', 'quick')
    seedv = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = load(pid)
    if a.replay:
        with open(a.replay) as f: r = json.load(f)
        out, msg, ctx = run_case(P.subs[r['sub']], r['case'])
        print(out, msg)
        if out == 'violation':
            print('VIOLATION property=%s replay=%s' % (pid, a.replay)); return 1
        return 0 if out in ('ok', 'skip') else 2
    known = known_findings(pid)
    rdir = os.path.join(VERIF, 'replays')
    violations, harness, inconclusive = [], [], []
    def record(sub, case, msg):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (pid, sub))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, sub=sub, case=case, message=msg, seed=seedv, tier=tier,
                           replay='cd /verif && ./check %s --replay %s' % (pid, path)), f, indent=1, default=jsonable)
        violations.append((sub, path, msg, case))
    # 1. known findings: the recorded input still fails -> say so; it is excluded from the search by the sub itself
    kf = 0
    for k in known:
        out, msg, ctx = run_case(P.subs[k['sub']], k['case'])
        if out == 'violation':
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what'])); kf += 1
        elif out == 'harness':
            harness.append((k['sub'], msg))
    # 2. regression tier: saved inputs of earlier failures
    nreg = 0
    for r in regress_cases(pid):
        if r['sub'] not in P.subs: continue
        if a.sub and r['sub'] not in a.sub: continue
        nreg += 1
        out, msg, ctx = run_case(P.subs[r['sub']], r['case'])
        if out == 'violation':
            record(r['sub'], r['case'], 'regression input: ' + msg)
        elif out == 'harness':
            harness.append((r['sub'], msg))
    # 3. generated search
    names = [s for s in P.subs if not a.sub or s in a.sub]
    names.sort(key=lambda s: -P.subs[s].weight)
    tasks = [(pid, s, max(1, int((P.subs[s].n if tier == 'quick' else P.subs[s].thorough)*a.scale)), seedv, None) for s in names]
    results = []
    if a.inproc or a.j == 1:
        for t in tasks: results.append(run_sub(t))
    else:
        ctxm = mp.get_context('fork')
        limit = (840 if tier == 'quick' else 6*3600) - (time.time() - t0)
        with ctxm.Pool(min(a.j, len(tasks)) or 1, maxtasksperchild=1 if any(P.subs[s].fresh for s in names) else None) as pool:
            pend = {t[1]: pool.apply_async(run_sub, (t,)) for t in tasks}
            end = time.time() + limit
            while pend:
                for s in list(pend):
                    if pend[s].ready():
                        results.append(pend.pop(s).get())
                if not pend: break
                if time.time() > end:
                    for s in pend: inconclusive.append(s)
                    break
                time.sleep(0.02)
            pool.terminate()
    for r in results:
        if r['fail']: record(r['sub'], r['fail']['case'], r['fail']['msg'])
        if r['harness']: harness.append((r['sub'], r['harness']['msg'] + '\ncase: %r' % (r['harness']['case'],)))
    results.sort(key=lambda r: r['sub'])
    evals = sum(r['evals'] for r in results); distinct = sum(r['distinct'] for r in results)
    labels = Counter()
    persub = {}
    for r in results:
        for k, v in r['labels'].items(): labels[k] += v
        persub[r['sub']] = [r['evals'], r['distinct'], r['skipped']]
    rnd = random.Random(seedv)
    samples = [dict(sub=r['sub'], case=c) for r in results for c in r['samples'][-1:]]
    rnd.shuffle(samples)
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seedv, level=P.level,
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=P.rule, samples=samples[:25],
                            sub_checks={k: dict(evaluations=v[0], distinct_nontrivial=v[1], discarded=v[2]) for k, v in persub.items()},
                            labels=dict(labels.most_common(200)), regression_inputs=nreg,
                            inconclusive=inconclusive, known_findings_still_failing=kf),
              assumptions=P.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not a.no_evidence and not a.sub:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=jsonable)
    if a.v:
        for r in sorted(results, key=lambda r: -r['t']): print('  %-50s n=%d nt=%d skip=%d %.1fs %s' % (r['sub'], r['evals'], r['distinct'], r['skipped'], r['t'], dict(Counter(r['labels']).most_common(8))))
    print('%s tier=%s seed=%d sub-checks=%d cases=%d non-trivial=%d regress=%d inconclusive=%d wall=%.1fs' % (pid, tier, seedv, len(results), evals, distinct, nreg, len(inconclusive), time.time() - t0))
    for s, path, msg, case in violations:
        print('  sub=%s %s\n    case=%s' % (s, msg, json.dumps(case, default=jsonable)[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for s, msg in harness:
        print('HARNESS-ERROR property=%s sub=%s\n%s' % (pid, s, msg[-1200:]))
    sys.stdout.flush()
    if violations: return 1
    if harness: return 2
    if not results: return 2
    return 0
