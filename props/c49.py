"""C49: results do not depend on history; arguments and internal state stay untouched."""
from math import *
import copy, enum, json, os, pickle, random, signal, subprocess, sys, threading, warnings
import numpy as np, mpmath, scipy.integrate, scipy.interpolate, scipy.optimize, scipy.special, scipy.stats, scipy.spatial  # noqa: loaded before anything forks
import fluids, fluids.numerics as N, fluids.units, fluids.vectorized, fluids.optional.pychebfun as PC
from fluids.particle_size_distribution import ParticleSizeDistribution, PSDLognormal, PSDRosinRammler, PSDGatesGaudinSchuhman, PSDInterpolated
from vf import corpus
from vf.core import *
warnings.simplefilter('ignore')

P = Prop('C49', rule='Random sequences of calls of public functions (recorded calls moved at random, failing calls, calls with list arguments, method calls on shared objects), with returned and passed containers overwritten after each call; '
         'the same operations run in another order in another process must give the same results. Non-trivial: at least two different operations.',
         assumptions=['functions documented to work in place or to keep history (OscillationChecker, SolverInterface, caching_decorator, TANK.set_* methods) are not called', 'liquid_jet_pump only on recorded calls'])
NAMES = sorted(corpus.CALLS)
MODULE = {}
for fn in NAMES: MODULE.setdefault(getattr(getattr(fluids, fn), '__module__', ''), []).append(fn)
MODS = sorted(MODULE)
fl = lambda R, n, lo=-2., hi=2.: [R.uniform(lo, hi) for _ in range(n)]
up = lambda R, n, lo=0., hi=2.: sorted(fl(R, n, lo, hi))
mat = lambda R, n, m=None: [[R.uniform(-1, 1) + (4 if i == j else 0) for j in range(m or n)] for i in range(n)]
cf = lambda x: fluids.numerics.horner([1., .5, -2.], x)
sysf = lambda x: [x[0]**2 + x[1] - 3., x[0] + x[1]**3 - 2.]
sysj = lambda x: [[2*x[0], 1.], [1., 3*x[1]**2]]
NUM = {
 'py_solve': lambda R, n: (N.py_solve, [mat(R, n), fl(R, n)]), 'inv': lambda R, n: (N.inv, [mat(R, n)]), 'det': lambda R, n: (N.py_det if hasattr(N, 'py_det') else np.linalg.det, [mat(R, n)]),
 'np_solve': lambda R, n: (N.py_solve, [np.array(mat(R, n)), np.array(fl(R, n))]), 'null_space': lambda R, n: (N.null_space, [mat(R, n, n + 1)]),
 'solve_tridiagonal': lambda R, n: (N.solve_tridiagonal, [fl(R, n + 1), fl(R, n + 2, 5, 6), fl(R, n + 1), fl(R, n + 2)]), 'array_as_tridiagonals': lambda R, n: (N.array_as_tridiagonals, [mat(R, n + 1)]), 'tridiagonals_as_array': lambda R, n: (N.tridiagonals_as_array, [fl(R, n), fl(R, n + 1), fl(R, n)]),
 'solve_2_direct': lambda R, n: (N.solve_2_direct, [mat(R, 2), fl(R, 2)]), 'solve_3_direct': lambda R, n: (N.solve_3_direct, [mat(R, 3), fl(R, 3)]), 'solve_4_direct': lambda R, n: (N.solve_4_direct, [mat(R, 4), fl(R, 4)]),
 'horner': lambda R, n: (N.horner, [fl(R, n), R.random()]), 'horner_and_der2': lambda R, n: (N.horner_and_der2, [fl(R, n + 1), R.random()]), 'horner_domain': lambda R, n: (N.horner_domain, [R.random(), fl(R, n), -1., 3.]), 'chebval': lambda R, n: (N.chebval, [R.random(), fl(R, n + 1)]), 'chebder': lambda R, n: (N.chebder, [fl(R, n + 2)]), 'chebint': lambda R, n: (N.chebint, [fl(R, n + 1)]),
 'polyder': lambda R, n: (N.polyder, [fl(R, n + 1)]), 'polyint': lambda R, n: (N.polyint, [fl(R, n)]), 'polyint_over_x': lambda R, n: (N.polyint_over_x, [fl(R, n)]), 'stable': lambda R, n: (N.stable_poly_to_unstable, [fl(R, n + 1), 1., 3.]), 'polyint_stable': lambda R, n: (N.polyint_stable, [fl(R, n + 1), 1., 3.]), 'polyint_over_x_stable': lambda R, n: (N.polyint_over_x_stable, [fl(R, n + 1), 1., 3.]), 'poly_convert': lambda R, n: (N.poly_convert, [fl(R, n + 1), 1., 3.]),
 'roots_quartic': lambda R, n: (N.roots_quartic, fl(R, 5)), 'roots_cubic': lambda R, n: (N.roots_cubic, fl(R, 4)), 'deflate': lambda R, n: (N.deflate_cubic_real_roots, fl(R, 4)), 'is_poly_positive': lambda R, n: (N.is_poly_positive, [fl(R, n + 1), (0., 1.)]), 'is_poly_negative': lambda R, n: (N.is_poly_negative, [fl(R, n + 1), (0., 1.)]),
 'exp_poly_ln_tau_coeffs2': lambda R, n: (N.exp_poly_ln_tau_coeffs2, [.5 + .1*R.random(), 1.5, 2., -1.]),
 'interp': lambda R, n: (N.interp, [R.random(), up(R, n + 2), fl(R, n + 2)]), 'tck': lambda R, n: (N.implementation_optimize_tck, [[np.array([0., 0, 0, 0] + [1.]*4), np.array(fl(R, 4) + [0.]*4), 3]]), 'splev': lambda R, n: (N.splev, [R.random(), (np.array([0., 0, 0, 0] + [1.]*4), np.array(fl(R, 4) + [0.]*4), 3)]), 'bisplev': lambda R, n: (N.bisplev, [R.random(), R.random(), [[0., 0, 1, 1], [0., 0, 1, 1], fl(R, 4), 1, 1]]), 'tck_interp2d_linear': lambda R, n: (N.tck_interp2d_linear, [[0., 1., 2.], [0., 1.], [fl(R, 3), fl(R, 3)]]),
 'mean': lambda R, n: (N.mean, [fl(R, n)]), 'std': lambda R, n: (N.std, [fl(R, n + 1)]), 'errs': lambda R, n: (N.mean_abs_rel_error, [fl(R, n), fl(R, n)]), 'min_max_ratios': lambda R, n: (N.min_max_ratios, [up(R, n), up(R, n)]), 'detect_outlier_normal': lambda R, n: (N.detect_outlier_normal, [fl(R, n + 8)]), 'cumsum': lambda R, n: (N.cumsum, [fl(R, n)]), 'diff': lambda R, n: (N.diff, [fl(R, n + 2)]), 'diff2': lambda R, n: (N.diff, [fl(R, n + 3), 2]), 'cumulative_trapezoid': lambda R, n: (N.cumulative_trapezoid, [fl(R, n + 2), up(R, n + 2)]), 'normalize': lambda R, n: (N.normalize, [fl(R, n + 1, .1)]), 'argsort1d': lambda R, n: (N.argsort1d, [fl(R, n + 1)]), 'sort_paired_lists': lambda R, n: (N.sort_paired_lists, [fl(R, n + 1), fl(R, n + 1)]), 'is_monotonic': lambda R, n: (N.is_monotonic, [up(R, n)]), 'subset_matrix': lambda R, n: (N.subset_matrix, [mat(R, n + 2), [0, 1]]), 'stack_vectors': lambda R, n: (N.stack_vectors, [[fl(R, 3), fl(R, 3)]]), 'shape': lambda R, n: (N.shape, [mat(R, n)]), 'max_squared_rel_error': lambda R, n: (N.max_squared_rel_error, [fl(R, n), fl(R, n)]), 'best_bounding_bounds': lambda R, n: (N.best_bounding_bounds, [0., 4., cf, up(R, 5, 0, 4)]),
 'full': lambda R, n: (N.full, [(n, 2), R.random()]), 'zeros': lambda R, n: (N.zeros, [(n, 2)]), 'linspace': lambda R, n: (N.linspace, [0., R.random(), n + 1]), 'logspace': lambda R, n: (N.logspace, [0., R.random(), n + 1]),
 'quad': lambda R, n: (N.quad, [cf, 0., 1 + R.random()]), 'quad_adaptive': lambda R, n: (N.quad_adaptive, [cf, 0., 1 + R.random()]), 'secant': lambda R, n: (N.secant, [cf, R.uniform(0, 1)]), 'brenth': lambda R, n: (N.brenth, [cf, 0., 2 + R.random()]), 'newton': lambda R, n: (N.newton, [cf, 1 + R.random(), lambda x: 2*x + .5]), 'ridder': lambda R, n: (N.ridder, [cf, 0., 3.]), 'bisect': lambda R, n: (N.bisect, [cf, 0., 3.]),
 'newton_system': lambda R, n: (N.newton_system, [sysf, fl(R, 2, 1, 2), sysj]), 'broyden2': lambda R, n: (N.broyden2, [fl(R, 2, 1, 2), sysf, sysj]), 'homotopy': lambda R, n: (N.homotopy_solver, [sysf, fl(R, 2, 1, 2), sysj]), 'jacobian': lambda R, n: (N.jacobian, [sysf, fl(R, 2), False]), 'jacobian0': lambda R, n: (N.jacobian, [lambda x: x[0]*x[1]**2, fl(R, 2)]), 'hessian': lambda R, n: (N.hessian, [lambda x: x[0]*x[1]**2, fl(R, 2)]), 'derivative': lambda R, n: (N.derivative, [cf, R.random()]), 'fixed_point': lambda R, n: (N.fixed_point_aitken if hasattr(N, 'fixed_point_aitken') else N.fixed_point_anderson, [lambda x: [cos(x[0]), .5*sin(x[1]) + .2], fl(R, 2, 0, 1)]),
 'nelder_mead': lambda R, n: (N.nelder_mead, [lambda x: (x[0] - 1)**2 + (x[1] + 2)**2, fl(R, 2)]), 'damping': lambda R, n: (N.basic_damping, [fl(R, 2), fl(R, 2), .5]), 'translate': lambda R, n: (lambda lo, hi, x: [g(list(x)) for g in N.translate_bound_func(sysf, bounds=[(l, h) for l, h in zip(lo, hi)])], [[-5., -5.], [5., 5.], fl(R, 2)]),
 'curve_fit': lambda R, n: (lambda x, y: [round(float(v), 6) for v in N.curve_fit(lambda q, a, b: a*q + b, x, y)[0]], [np.array([0., 1, 2, 3]), np.array(fl(R, 4))]), 'lambertw': lambda R, n: (N.lambertw, [R.random()]), 'dd': lambda R, n: (N.mul_dd, [R.random(), 1e-20, R.random(), 1e-19]),
 'differential_evolution': lambda R, n: (lambda b, s: [round(float(v), 3) for v in N.differential_evolution(lambda x: (x[0] - 1)**2 + x[1]**2, b, seed=s).x], [[(-2., 2.), (-2., 2.)], 3]),
 'atmosphere': lambda R, n: (fluids.ATMOSPHERE_1976, [R.uniform(0, 80000)]), 'nrlm': lambda R, n: (fluids.ATMOSPHERE_NRLMSISE00, [R.uniform(0, 5e5), R.uniform(-90, 90), R.uniform(-180, 180), R.randint(1, 365)]), 'chebfun': lambda R, n: (lambda a, b: [PC.chebfun(lambda x: np.exp(a*x), [0., b]).roots().tolist() if a < 0 else PC.chebfun(lambda x: np.exp(a*x), [0., b]).values().tolist()], [R.random(), 1 + R.random()]),
 'psd_disc': lambda R, n: (lambda ds, fr: [ParticleSizeDistribution(ds=ds, fractions=fr, order=3).__dict__[k] for k in ('fractions', 'number_fractions', 'area_fractions', 'ds')], [up(R, n + 2, 1e-5, 1e-3), fl(R, n + 1, .1, 1)]), 'psd_cdf': lambda R, n: (lambda ds, c: ParticleSizeDistribution(ds=ds, fractions=c, cdf=True, order=3).fractions, [up(R, n + 2, 1e-5, 1e-3), up(R, n + 1, .1, 1)]),
 'psd_interp': lambda R, n: (lambda ds, fr: [PSDInterpolated(ds=ds, fractions=fr, order=3).cdf(sum(ds)/len(ds))], [up(R, n + 4, 1e-5, 1e-3), fl(R, n + 4, .1, 1)]), 'psd_spacing': lambda R, n: (fluids.psd_spacing, [1e-5, 1e-3, n + 3]),
 'units': lambda R, n: (lambda a, b: fluids.units.Reynolds(V=a*fluids.units.u.ft/fluids.units.u.s, D=b*fluids.units.u.inch, nu=1e-6*fluids.units.u.m**2/fluids.units.u.s).magnitude, [R.random() + 1, R.random() + 1]), 'vec': lambda R, n: (fluids.vectorized.friction_factor, [fl(R, n, 1e3, 1e6), fl(R, n, 0, .01)]), 'vec2': lambda R, n: (fluids.vectorized.Froude, [np.array(fl(R, n, 1, 2)), np.array(fl(R, n, 1, 2))]),
 'roughness': lambda R, n: (fluids.nearest_material_roughness if hasattr(fluids, 'nearest_material_roughness') else fluids.material_roughness, [R.choice(['condensate pipes', 'riveted steel', 'glass', 'rubber', 'concrete', 'brass'])]), 'mat_rough': lambda R, n: (fluids.material_roughness, [R.choice(['condensate pipes', 'riveted steel', 'commercial glass', 'Concrete, smooth'])]),
 'holes': lambda R, n: (fluids.V_multiple_hole_cylinder, [.01, .1, [(.001*R.random(), 2), (.001, n)]]), 'holesA': lambda R, n: (fluids.A_multiple_hole_cylinder, [.01, .1, [(.001*R.random(), 2), (.001, n)]]), 'staged': lambda R, n: (lambda Ds, ls: fluids.diffuser_conical_staged(Di1=1., Di2=10., DEs=Ds, ls=ls, fd=.01), [up(R, 3, 2., 9.), fl(R, 4, .5, 2)]),
 'Lmm': lambda R, n: (fluids.agitator_time_homogeneous, [36*.0254*R.uniform(.9, 1.1), 56/60., 957., 1020., 5., 1.83]),
}
NUM = {k: v for k, v in NUM.items()}
NN = sorted(NUM)
def tank(R): return fluids.TANK(D=1.2, L=4., horizontal=R.random() < .5, sideA=R.choice(['conical', 'ellipsoidal', 'torispherical', 'spherical', 'guppy']), sideB=R.choice(['conical', 'ellipsoidal', 'torispherical', 'spherical']), sideA_a=.4, sideB_a=.35, sideA_f=1., sideA_k=.06, sideB_f=1., sideB_k=.06)
def psd(R): return R.choice([lambda: PSDLognormal(s=.5, d_characteristic=5e-6), lambda: PSDRosinRammler(k=.05, m=1.1), lambda: PSDGatesGaudinSchuhman(m=2.3, d_characteristic=1e-3), lambda: ParticleSizeDistribution(ds=[2e-6, 4e-6, 9e-6, 2e-5], fractions=[.2, .5, .3], order=3), lambda: PSDInterpolated(ds=[1e-6, 2e-6, 5e-6, 1e-5, 2e-5], fractions=[.0, .2, .3, .4, .1], order=3)])()
def cheb(R): return PC.chebfun(lambda x: np.sin(3*x) + .3*x, [0., 3.])
OBJ = {'tank': (tank, {
    'h_from_V': lambda o, R: o.h_from_V(R.uniform(.1, .9)*o.V_total), 'hb': lambda o, R: o.h_from_V(R.uniform(.1, .9)*o.V_total, method='brenth'), 'hs': lambda o, R: o.h_from_V(R.uniform(.1, .9)*o.V_total, method='spline'), 'V_from_h': lambda o, R: o.V_from_h(R.uniform(0, 1)*o.h_max), 'Vc': lambda o, R: o.V_from_h(R.uniform(0, 1)*o.h_max, method='chebyshev'), 'SA_from_h': lambda o, R: o.SA_from_h(R.uniform(0, 1)*o.h_max), 'SA_h_c': lambda o, R: o.SA_from_h(R.uniform(0, 1)*o.h_max, method='full'), 'A': lambda o, R: (o.A, o.A_lateral, o.A_sideA, o.A_sideB), 'repr': lambda o, R: repr(o)}),
 'psd': (psd, {'mss': lambda o, R: o.mean_size(p=R.randint(2, 4), q=R.randint(0, 1)), 'cdf': lambda o, R: o.cdf(R.uniform(1e-6, 2e-5), n=R.choice([None, 3, 0])), 'pdf': lambda o, R: o.pdf(R.uniform(1e-6, 2e-5)), 'dn': lambda o, R: o.dn(R.uniform(.1, .9)), 'delta': lambda o, R: o.delta_cdf(2e-6, 9e-6), 'span': lambda o, R: (o.vssa, o.mean_size_ISO(3, 2)), 'ds_d': lambda o, R: list(o.ds_discrete(pts=6)), 'fr_d': lambda o, R: list(o.fractions_discrete([1e-6, 5e-6, 2e-5])), 'cdf_d': lambda o, R: list(o.cdf_discrete([1e-6, 5e-6, 2e-5])), 'pdf_d': lambda o, R: list(o.pdf_discrete([1e-6, 5e-6, 2e-5])) if hasattr(o, 'pdf_discrete') else 0}),
 'cheb': (cheb, {'call': lambda o, R: float(o(R.uniform(0, 3))), 'roots': lambda o, R: o.roots(), 'sum': lambda o, R: o.sum(), 'der': lambda o, R: o.differentiate().values(), 'int': lambda o, R: o.integrate().values(), 'mul': lambda o, R: (o*o).values(), 'add': lambda o, R: (o + 1.).values(), 'coef': lambda o, R: o.coefficients(), 'vals': lambda o, R: o.values(), 'norm': lambda o, R: o.norm(), 'dot': lambda o, R: o.dot(o), 'neg': lambda o, R: (-o).values(), 'res': lambda o, R: o.restrict([0., 1.]).values(), 'cmp': lambda o, R: o.compose(np.exp).values() if hasattr(o, 'compose') else 0})}
ON = sorted(OBJ)
def canon(v, depth=0):
    if isinstance(v, np.ndarray): return 'array(%s,%r)' % (v.dtype.kind, canon(v.tolist(), depth + 1))
    if isinstance(v, np.generic): v = v.item()
    if isinstance(v, dict): return '{%s}' % ','.join(sorted('%s:%s' % (canon(k, depth + 1), canon(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)): return 'set(%s)' % ','.join(sorted(canon(x, depth + 1) for x in v))
    if isinstance(v, (list, tuple)): return '%s(%s)' % (type(v).__name__, ','.join(canon(x, depth + 1) for x in v))
    if callable(v) and hasattr(v, '__qualname__'): return v.__qualname__
    if hasattr(v, '__dict__') and not isinstance(v, type) and depth < 5 and type(v).__module__.startswith('fluids'): return '%s%s' % (type(v).__name__, canon(vars(v), depth + 1))
    return repr(v)
def wreck(v, depth=0):
    """overwrite a container someone was given"""
    if depth > 3: return
    if isinstance(v, list):
        for x in v: wreck(x, depth + 1)
        v[:] = v[1:] + ['junk'] if v and isinstance(v[0], str) else [float('nan')]*(len(v) + 1)
    elif isinstance(v, dict):
        for x in v.values(): wreck(x, depth + 1)
        for k in list(v)[:1]: del v[k]
        v['junk'] = 1
    elif isinstance(v, np.ndarray):
        try: v[...] = 17
        except Exception: pass
    elif isinstance(v, tuple):
        for x in v: wreck(x, depth + 1)
    elif isinstance(v, (set, bytearray)): v.clear()
def world():
    """process-wide state that belongs to the caller"""
    import decimal, locale
    return {'random': hash(random.getstate()), 'numpy.random': hash(np.random.get_state()[1].tobytes()), 'numpy errors': tuple(sorted(np.geterr().items())), 'mpmath': mpmath.mp.prec, 'cwd': os.getcwd(), 'environ': hash(tuple(sorted(os.environ.items()))), 'recursion limit': sys.getrecursionlimit(),
            'decimal': decimal.getcontext().prec, 'locale': locale.setlocale(locale.LC_ALL), 'print options': str(np.get_printoptions())}
BAD = [float('nan'), 'nonsense', None, [], -1e30, {}, 1e300]
def run(op, objs):
    """(result, argument trouble) of one operation"""
    kind, name, k = op[0], op[1], op[2]; R = random.Random(repr(op[:4])); f = None
    if kind == 'obj':
        mk, ms = OBJ[name]
        key = (name, op[4])
        if key not in objs: objs[key] = mk(random.Random(op[4]))
        try: out = ms[sorted(ms)[k % len(ms)]](objs[key], R)
        except Exception as x: return 'raises ' + type(x).__name__, None
        return canon(out), None
    if kind == 'num':
        f, args = NUM[name](R, 1 + k % 3); kw = {}
    else:
        e = corpus.entry(name, k); f, args = getattr(fluids, name), []
        if name != 'liquid_jet_pump' and op[3]: e = corpus.perturb(name, e, [2*R.random() - 1 for _ in range(5)], [2*R.random() - 1 for _ in range(7)])
        if kind == 'bad' and e and name != 'liquid_jet_pump': e[R.choice(sorted(e))] = copy.deepcopy(R.choice(BAD))
        kw = e
    c0, before = canon([args, kw]), copy.deepcopy([args, kw]) if kind != 'num' else None
    try: out = f(*args, **kw); c = None
    except Exception as x: out, c = None, 'raises ' + type(x).__name__
    c1 = canon([args, kw]); c = c or canon(out); wreck(out); wreck(args); wreck(kw)
    return c, None if c0 == c1 else 'arguments %s became %s' % (c0[:300], c1[:300])
def history(ops, threads=0):
    """results of the operations in this order in a child process"""
    rd, wr = os.pipe(); pid = os.fork()
    if not pid:
        try:
            os.close(rd); signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(150); signal.setitimer(signal.ITIMER_VIRTUAL, 0); sys.stdout = open(os.devnull, 'w'); res = [None]*len(ops); objs = {}; w0 = None
            if threads:
                sys.setswitchinterval(1e-6); bar = threading.Barrier(threads)
                def work(t):
                    bar.wait()
                    for j in range(t, len(ops), threads): res[j] = run(ops[j], {}) + (None,)
                T = [threading.Thread(target=work, args=(t,)) for t in range(threads)]
                for t in T: t.start()
                for t in T: t.join()
            else:
                w0 = world()
                for j, o in enumerate(ops):
                    c, bad = run(o, objs); w1 = world() if o[0] != 'num' or o[1] != 'differential_evolution' else w0
                    res[j] = (c, bad, None if w0 == w1 else 'changes %s of the process' % ', '.join(q for q in w0 if w0[q] != w1[q])); w0 = w1
            b = pickle.dumps(res)
            with os.fdopen(wr, 'wb') as h: h.write(b)
        finally: os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as h: b = h.read()
    os.waitpid(pid, 0)
    if not b: raise SkipCase('no result from the child process')
    return pickle.loads(b)
def show(o): return '%s %s' % (o[0], list(o[1:]))
def compare(ctx, ops, order, threads=0):
    n = len(ops); A = history(ops); idx = order; B = history([ops[i] for i in idx], threads); seen = {}
    for j, o in enumerate(ops):
        c, bad, w = A[j]; ensure(bad is None, '%s: %s' % (show(o), bad)); ensure(w is None, '%s %s' % (show(o), w))
        k = tuple(o); seen.setdefault(k, (c, j)); ensure(seen[k][0] == c, '%s gave %s as call %d and %s as call %d' % (show(o), seen[k][0][:300], seen[k][1], c[:300], j))
    for j, i in enumerate(idx):
        c, bad, w = B[j]; o = ops[i]; ensure(bad is None, '%s: %s' % (show(o), bad)); ensure(w is None, '%s %s' % (show(o), w))
        ensure(c == A[i][0], '%s gave %s in one order and %s %s' % (show(o), A[i][0][:300], c[:300], 'in %d threads' % threads if threads else 'in another'))
    return len(seen) > 1
OP = rec(kind=pick(['call', 'call', 'call', 'bad', 'num', 'obj']), w=ints(0, 5), j=ints(0, 5), p=ints(0, 2), o=ints(0, 2))
SEQ = rec(mod=ints(0, 10**6), fns=flist(ints(0, 10**6), 1, 5), ops=flist(OP, 2, 30), perm=ints(0, 10**6))
def build(c):
    """few functions, often of one module, so that operations repeat and interact"""
    m = MODULE[MODS[c['mod'] % len(MODS)]]; L = [m[f % len(m)] if f % 3 else NAMES[f % len(NAMES)] for f in c['fns']]; ops = []
    for q in c['ops']:
        f = c['fns'][q['w'] % len(c['fns'])]
        ops.append(('num', NN[f % len(NN)], q['j'] % 3, q['p']) if q['kind'] == 'num' else ('obj', ON[f % len(ON)], q['j'] + 6*q['p'], q['p'], f % 7) if q['kind'] == 'obj' else (q['kind'], L[q['w'] % len(L)], q['j'], q['p']))
    order = list(range(len(ops)))*2; random.Random(c['perm']).shuffle(order); return ops, order
@P.sub(SEQ, n=700, thorough=20000, hang=300)
def sequences(ctx, **c):
    ops, order = build(c)
    if not compare(ctx, ops, order): ctx.trivial()
@P.sub(SEQ, n=150, thorough=4000, hang=300)
def threads(ctx, **c):
    """the same operations from several threads at once"""
    ops, order = build(c)
    compare(ctx, [o for o in ops if o[0] != 'obj'] or [('num', 'horner', 1, 1)], list(range(len([o for o in ops if o[0] != 'obj']) or 1)), threads=2 + c['perm'] % 4)
@P.sub(rec(s=ints(0, 10**6)), n=8, thorough=60, hang=600)
def sweep(ctx, s):
    """every function: several calls, failing ones among them, each made again at the end in another order"""
    R = random.Random(s); ops = []
    for fn in R.sample(NAMES, len(NAMES)//2): ops += [(R.choice(['call', 'call', 'bad']), fn, R.randrange(40), R.randrange(3)) for _ in range(2)]
    ops += [('num', k, R.randrange(3), R.randrange(3)) for k in NN]; R.shuffle(ops); order = list(range(len(ops))); R.shuffle(order); compare(ctx, ops, order)
@P.sub(rec(s=ints(0, 10**6)), n=8, thorough=40, hang=600)
def all_calls(ctx, s):
    """every recorded call of every function, in one random order and then in another"""
    R = random.Random(s); ops = [('call', fn, i, R.choice([0, 0, 1])) for fn in NAMES for i in range(len(corpus.CALLS[fn]))]; R.shuffle(ops); order = list(range(len(ops))); R.shuffle(order); compare(ctx, ops, order)
CHILD = "import sys, json; sys.path[:0] = %r; import warnings; warnings.simplefilter('ignore'); import props.c49 as m; ops = json.loads(sys.stdin.read()); out = sys.stdout; sys.stdout = open('/dev/null', 'w'); out.write(json.dumps([m.run(o, {})[0] for o in ops]))"
@P.sub(rec(s=ints(0, 10**6)), n=3, thorough=16, hang=600)
def hash_seed(ctx, s):
    """another interpreter with another string hash seed gives the same results"""
    R = random.Random(s); ops = [['call', fn, R.randrange(40), R.randrange(3)] for fn in NAMES if fn != 'liquid_jet_pump'] + [['num', k, R.randrange(3), 0] for k in NN]; out = []
    for hs in ('0', str(1 + s % 4000)):
        r = subprocess.run([sys.executable, '-c', CHILD % [p for p in sys.path if p]], input=json.dumps(ops), capture_output=True, text=True, env={**os.environ, 'PYTHONHASHSEED': hs})
        ensure(r.returncode == 0, r.stderr[-500:]); out.append(json.loads(r.stdout))
    for o, a, b in zip(ops, *out): ensure(a == b, '%s depends on the string hash seed: %s, %s' % (show(o), a[:300], b[:300]))
