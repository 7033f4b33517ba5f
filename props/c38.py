"""C38: system solvers, fixed point accelerators, minimisers and the interface among them."""
from math import *
import numpy as np
import fluids.numerics as fn
from fluids.numerics import (newton_system, newton_minimize, homotopy_solver, broyden2, nelder_mead, SolverInterface, fixed_point_anderson, fixed_point_to_residual, residual_to_fixed_point,
                             translate_bound_func, translate_bound_jac, translate_bound_f_jac, solve_2_direct, solve_3_direct, solve_4_direct, UnconvergedError, basic_damping, normalize)
from fluids.numerics import fixed_point, fixed_point_aitken, fixed_point_gdem, fixed_point_anderson_residual
from vf.core import *

P = Prop('C38', rule='Systems A(x - s) + c*phi(x - s) with diagonally dominant A, a known root s, 1 to 5 unknowns; contractions; convex objectives; every option of every solver. Non-trivial: a run of at least two iterations that returned a solution.',
         assumptions=['a fixed point accelerator judges the point before its last step; that step of a contraction does not enlarge the residual'])
PHI = {'none': (lambda u: 0., lambda u: 0., lambda u: 0.), 'cube': (lambda u: u**3, lambda u: 3*u*u, lambda u: u**4/4), 'tanh': (lambda u: tanh(u), lambda u: 1 - tanh(u)**2, lambda u: abs(u) + log1p(exp(-2*abs(u))) - log(2)),
       'atan': (lambda u: atan(u), lambda u: 1/(1 + u*u), lambda u: u*atan(u) - .5*log1p(u*u)), 'sinh': (lambda u: sinh(max(-50, min(50, u))), lambda u: cosh(max(-50, min(50, u))), lambda u: cosh(max(-50, min(50, u))) - 1)}
N = ints(1, 5)
SYS = dict(n=N, seed=ints(0, 10**9), phi=pick(list(PHI)), c=lf(1e-2, 1.), scale=lf(1e-3, 1e3), far=lf(1e-3, 3.), zero=pick([False, False, True]))
class System:
    def __init__(self, n, seed, phi, c, scale, far, zero, sym=False, extra=None):
        r = np.random.RandomState(seed % 2**32); A = r.uniform(-1, 1, (n, n))
        if sym: A = (A + A.T)/2
        for i in range(n): A[i, i] = (np.sum(np.abs(A[i])) - abs(A[i, i]) + r.uniform(.5, 2))*(1 if sym else r.choice([-1, 1]))
        self.s = r.uniform(-3, 3, n)
        if zero: self.s[r.randint(n)] = 0.
        self.dom = min(abs(A[i, i]) - (np.sum(np.abs(A[i])) - abs(A[i, i])) for i in range(n))
        self.A, self.c, self.phi, self.k, self.n = A, np.sign(np.diag(A))*c, PHI[phi], scale, n
        self.x0 = [float(v) for v in self.s + r.uniform(-far, far, n)]; self.calls = 0; self.extra = extra
    def chk(self, a): 
        if self.extra is not None and a != (self.extra,): raise TypeError('extra arguments %r' % (a,))
    def f(self, x, *a):
        self.chk(a); self.calls += 1; d = [float(v) - s for v, s in zip(x, self.s)]
        return [self.k*(sum(float(self.A[i, j])*d[j] for j in range(self.n)) + float(self.c[i])*self.phi[0](d[i])) for i in range(self.n)]
    def j(self, x, *a):
        self.chk(a); d = [float(v) - s for v, s in zip(x, self.s)]
        return [[self.k*(float(self.A[i, j]) + (float(self.c[i])*self.phi[1](d[i]) if i == j else 0.)) for j in range(self.n)] for i in range(self.n)]
    def fj(self, x, *a): return self.f(x, *a), self.j(x, *a)
    def F(self, x, *a):   # objective whose gradient is f (symmetric A)
        self.chk(a); d = [float(v) - s for v, s in zip(x, self.s)]
        return self.k*(.5*sum(float(self.A[i, j])*d[i]*d[j] for i in range(self.n) for j in range(self.n)) + sum(float(self.c[i])*self.phi[2](d[i]) for i in range(self.n)))
    def xerr(self, resid): return 1.01*resid/(self.k*self.dom) + 1e-13    # Ahlberg-Nilson-Varah bound, the nonlinear part only strengthens the diagonal
def n1(v): return sum(abs(q) for q in v)
def n2(v): return sqrt(sum(q*q for q in v))
def criterion(S, x, xtol, ytol, what, strict=1.):
    r = S.f(x, *(() if S.extra is None else (S.extra,)))
    if xtol is not None: ensure(n2(r) <= xtol*strict, '%s: residual norm %g over xtol %g' % (what, n2(r), xtol))
    if ytol is not None: ensure(n1(r) <= ytol*strict, '%s: absolute residual %g over ytol %g' % (what, n1(r), ytol))
    if strict == 1.:
        e = max(abs(a - b) for a, b in zip(x, S.s)); b = S.xerr(max(abs(q) for q in r)); ensure(e <= b + 1e-12, '%s: %g from the root' % (what, e))
TOLS = dict(xtol=opt(lf(1e-11, 1e-4)), ytol=opt(lf(1e-11, 1e-4)))
def tols(S, xtol, ytol):
    if xtol is None and ytol is None: xtol = 1e-9
    return None if xtol is None else xtol*S.k, None if ytol is None else ytol*S.k
def npsolve(A, b): return np.linalg.solve(np.array(A), np.array(b)).tolist()
@P.sub(rec(jac=pick(['callable', 'together']), line=pick([False, True]), progress=pick([False, False, True]), check=pick([False, True]), armijo=pick([False, True]), wp=pick([False, True]), damping=pick([1., 1., 1., .7]), dfun=pick([False, False, True]), solve=pick([None, None, 'numpy']), exact=pick([False, False, False, True]), maxiter=pick([100, 100, 200, 4]), extra=opt(pick([7])), **TOLS, **SYS), n=1200, thorough=20000)
def newton(ctx, jac, line, progress, check, armijo, wp, damping, dfun, solve, exact, maxiter, extra, xtol, ytol, **sysk):
    S = System(extra=extra, **sysk); xt, yt = tols(S, xtol, ytol); x0 = list(S.x0) if not exact else [float(v) for v in S.s]; keep = list(x0)
    kw = dict(xtol=xt, ytol=yt, maxiter=maxiter, damping=damping, line_search=line, require_progress=progress, check_numbers=check, Armijo=armijo and line, with_point=wp)
    if solve: kw['solve_func'] = npsolve
    if dfun: kw['damping_func'] = (lambda x, dx, d, *a: basic_damping(x, dx, d))
    if extra is not None: kw['args'] = (extra,)
    try: res = newton_system(S.fj if jac == 'together' else S.f, x0, True if jac == 'together' else S.j, **kw)
    except (UnconvergedError, ValueError) as e:
        ctx.label('raised %s' % type(e).__name__)
        if sysk['far'] < .3 and not armijo and not (exact and progress) and maxiter >= 100 and (xtol or 1) >= 1e-10 and (ytol or 1) >= 1e-9 and not progress: fail('no convergence near the root: %r' % e)
        ctx.trivial(); return
    ensure(x0 == keep, 'the guess was modified')
    if wp:
        ensure(len(res) == 4, 'with_point returned %d items' % len(res)); x, it, f, J = res
        closes(f, S.f(x, *kw.get('args', ())), 1e-12, 1e-14*S.k, 'returned residuals')
        # the Jacobian is that of the last iterate it was needed at
        ensure(len(J) == S.n, 'returned Jacobian')
    else: x, it = res
    criterion(S, x, xt, yt, 'newton_system')
    ctx.label('iterations %d' % min(it, 6))
    if it < 3: ctx.trivial()
@P.sub(rec(lstep=pick([.1, .1, .25, .3, 1.]), term=opt(lf(1e-12, 1e-8)), ls=pick([True, False]), extra=opt(pick([7])), **TOLS, **SYS), n=300, thorough=4000)
def homotopy(ctx, lstep, term, ls, extra, xtol, ytol, **sysk):
    S = System(extra=extra, **sysk); xt, yt = tols(S, xtol, ytol); x0 = list(S.x0); keep = list(x0)
    kw = dict(xtol=xt, ytol=yt, lambd_step=lstep, line_search=ls, maxiter=300)
    tx = term*S.k if term is not None else 1e-10*S.k
    if xtol is None: kw.update(terminal_xtol=None, terminal_ytol=tx)
    else: kw['terminal_xtol'] = tx
    if extra is not None: kw['args'] = (extra,)
    try: x, it = homotopy_solver(S.f, x0, S.j, **kw)
    except UnconvergedError as e:
        if sysk['far'] < .3 and (term is None or term >= 1e-11): fail('no convergence near the root: %r' % e)
        ctx.trivial(); return
    ensure(x0 == keep, 'the guess was modified')
    criterion(S, x, tx if xtol is not None else None, tx if xtol is None else None, 'homotopy_solver')
@P.sub(rec(mode=pick(['jac', 'together', 'identity']), xtol=lf(1e-10, 1e-3), maxiter=pick([100, 100, 3, 0]), extra=opt(pick([7])), **SYS), n=600, thorough=8000)
def broyden(ctx, mode, xtol, maxiter, extra, **sysk):
    S = System(extra=extra, **sysk); x0 = list(S.x0); keep = list(x0); kw = dict(xtol=xtol*S.k, maxiter=maxiter)
    if extra is not None: kw['args'] = (extra,)
    if mode == 'identity': kw['skip_J'] = True
    if mode == 'together': kw['jac_has_fun'] = True
    try: x, it = broyden2(x0, S.f, S.fj if mode == 'together' else S.j, **kw)
    except (UnconvergedError, ZeroDivisionError, OverflowError) as e:
        ctx.trivial(); ctx.label('raised')
        if mode != 'identity' and sysk['far'] < .1 and maxiter == 100: fail('no convergence near the root: %r' % e)
        return
    ensure(x0 == keep, 'the guess was modified')
    criterion(S, x, None, xtol*S.k, 'broyden2')
    if it < 2: ctx.trivial()
@P.sub(rec(mode=pick(['separate', 'jac together', 'all together']), damping=pick([1., 1., .8]), maxiter=pick([100, 100, 3]), extra=opt(pick([7])), dfun=pick([False, True]), **TOLS, **SYS), n=500, thorough=8000)
def minimize_newton(ctx, mode, damping, maxiter, extra, dfun, xtol, ytol, **sysk):
    S = System(sym=True, extra=extra, **sysk); xt, yt = tols(S, xtol, ytol); x0 = list(S.x0); keep = list(x0)
    kw = dict(xtol=xt, ytol=yt, damping=damping, maxiter=maxiter)
    if dfun: kw['damping_func'] = basic_damping
    if extra is not None: kw['args'] = (extra,)
    f, j, h = {'separate': (S.F, S.f, S.j), 'jac together': (lambda x, *a: (S.F(x, *a), S.f(x, *a)), True, S.j), 'all together': (lambda x, *a: (S.F(x, *a), S.f(x, *a), S.j(x, *a)), True, True)}[mode]
    try: x, it = newton_minimize(f, x0, j, h, **kw)
    except UnconvergedError as e:
        ctx.trivial(); ctx.label('raised')
        if sysk['far'] < .3 and maxiter == 100 and (xtol is None or ytol is None) and (xtol or ytol or 1) >= 1e-9: fail('no convergence near the minimum: %r' % e)
        return
    ensure(x0 == keep, 'the guess was modified')
    criterion(S, x, xt, yt, 'newton_minimize'); a = () if extra is None else (extra,)
    ensure(S.F(x, *a) <= S.F(x0, *a) + 1e-9*S.k, 'the objective grew')
class Contraction:
    """thing(x) = s + M (x - s) (+ a saturating part); f = x - thing."""
    def __init__(self, n, seed, rho, nonlin, far, zero):
        r = np.random.RandomState(seed % 2**32); M = r.uniform(-1, 1, (n, n)); M *= rho/np.max(np.sum(np.abs(M), axis=1))/(np.max(np.sum(np.abs(M), axis=0))/np.max(np.sum(np.abs(M), axis=1)) if np.max(np.sum(np.abs(M), axis=0)) > np.max(np.sum(np.abs(M), axis=1)) else 1)
        self.M, self.n, self.nl = M, n, nonlin; self.s = [float(v) for v in r.uniform(-5, 5, n)]
        if zero: self.s[r.randint(n)] = 0.
        self.x0 = [float(v) + far*float(q) for v, q in zip(self.s, r.uniform(-1, 1, n))]; self.k = 1.
        self.rho = float(np.linalg.norm(M, 2))
    def thing(self, x, *a):
        d = [v - s for v, s in zip(x, self.s)]
        if self.nl: d = [tanh(v) for v in d]
        return [self.s[i] + sum(float(self.M[i, j])*d[j] for j in range(self.n)) for i in range(self.n)]
    def f(self, x, *a): return [v - t for v, t in zip(x, self.thing(x))]
CON = dict(n=N, seed=ints(0, 10**9), rho=uf(.01, .8), nonlin=pick([False, True]), far=lf(1e-2, 5.), zero=pick([False, False, True]))
METH = {'fixed_point': fixed_point, 'fixed_point_aitken': fixed_point_aitken, 'fixed_point_gdem': fixed_point_gdem, 'anderson_residual': fixed_point_anderson_residual}
@P.sub(rec(method=pick(list(METH)), damping=pick([1., 1., .8, .5]), freq=pick([None, 3, 4, 7]), progress=pick([False, False, True]), check=pick([False, True]), init=pick([None, 5, 20]), maxiter=pick([500]*5 + [5, 1]), known=False, **TOLS, **CON), n=1200, thorough=20000)
def fixed_points(ctx, method, damping, freq, progress, check, init, maxiter, known, xtol, ytol, **con):
    C = Contraction(**con); xt, yt = tols(C, xtol, ytol); x0 = list(C.x0); keep = list(x0)
    kw = dict(xtol=xt, ytol=yt, maxiter=maxiter, damping=damping, require_progress=progress, check_numbers=check)
    if freq is not None and method in ('fixed_point_aitken', 'fixed_point_gdem'): kw['acc_frequency'] = freq
    if init is not None and method == 'anderson_residual': kw['initial_iterations'] = init
    try: x, it = METH[method](C.f, x0, **kw)
    except (UnconvergedError, ValueError, ZeroDivisionError) as e:
        ctx.trivial(); ctx.label('raised')
        if method in ('fixed_point',) and maxiter == 500 and not progress: fail('a contraction did not converge: %r' % e)
        return
    ensure(x0 == keep, 'the guess was modified')
    r = C.f(x); acc = method == 'anderson_residual' and it >= (4 if init is None else init) or method in ('fixed_point_aitken', 'fixed_point_gdem') and (int(it) - 1) % (freq or (4 if method == 'fixed_point_aitken' else 5)) == 0
    if acc and not known: ctx.label('accelerated last'); return     # known finding: an accelerated step is taken after the criterion was met, unchecked
    slack = 1.
    slack *= 3. if method == 'anderson_residual' and init is not None else sqrt(C.n)
    if xt is not None: ensure(n2(r) <= xt*slack, '%s: residual norm %g over xtol %g' % (method, n2(r), xt))
    if yt is not None: ensure(n1(r) <= yt*slack, '%s: absolute residual %g over ytol %g' % (method, n1(r), yt))
    ctx.label(method)
    if it < 3: ctx.trivial()
@P.sub(rec(known=False, window=pick([1, 2, 5]), mix=pick([1., .5]), damping=pick([.9, .5, 1.]), init=pick([None, 0, 2, 10]), maxiter=pick([500, 500, 3]), **TOLS, **CON), n=400, thorough=6000)
def anderson(ctx, known, window, mix, damping, init, maxiter, xtol, ytol, **con):
    con = dict(con, zero=False); C = Contraction(**con); x0 = list(C.x0); keep = list(x0)
    if min(abs(v) for v in C.s) < .05 or min(abs(v) for v in x0) < 1e-3: raise SkipCase
    xt, yt = tols(C, xtol, ytol)
    kw = dict(xtol=xt, ytol=yt, maxiter=maxiter, window_size=window, mixing_param=mix, damping=damping)
    if init is not None: kw['initial_iterations'] = init
    try: x, it = fixed_point_anderson(C.thing, x0, **kw)
    except (ValueError, ZeroDivisionError, IndexError, OverflowError) as e: ctx.trivial(); ctx.label('raised'); return
    ensure(x0 == keep, 'the guess was modified')
    r = n1(C.f(x)); lim = 0; plain = it < (4 if init is None else init)
    if xt is None and not plain and not known: ctx.label('accelerated last'); return     # known finding: ytol is judged before a step which is then taken unchecked
    if yt is not None: lim = 30*yt
    if xt is not None and not plain: ctx.label('step criterion'); lim = max(1e9*xt, 1e-2*con['far'])     # the step of an accelerated iteration may be small anywhere
    elif xt is not None: lim = max(lim, 300*xt*max(abs(v) for v in x)*C.n)
    ensure(r <= lim, 'fixed_point_anderson: residual %g, xtol %r, ytol %r' % (r, xt, yt))
@P.sub(rec(n=ints(1, 3), seed=ints(0, 10**9), adaptive=pick([False, True]), lo=opt(uf(.2, 3)), hi=opt(uf(.2, 3)), start=pick(['inside', 'inside', 'at low', 'at high', 'zero']), simplex=pick([False, False, True]), tol=pick([1e-4, 1e-8]), maxiter=pick([2000, 2000, 30, 0]), extra=opt(pick([7])), pert=pick([None, None, .2])), n=500, thorough=8000)
def nelder(ctx, n, seed, adaptive, lo, hi, start, simplex, tol, maxiter, extra, pert):
    r = np.random.RandomState(seed % 2**32); s = r.uniform(-3, 3, n); w = 10**r.uniform(-1, 1, n); pts = []
    def F(x, *a):
        if extra is not None and a != (extra,): raise TypeError('args %r' % (a,))
        ensure(isinstance(x, list) and len(x) == n, 'the objective got %r' % (x,)); pts.append(list(x))
        return sum(float(w[i])*(x[i] - float(s[i]))**2 for i in range(n)) + 1.
    low = None if lo is None else [float(v) - lo for v in s]; high = None if hi is None else [float(v) + hi for v in s]
    x0 = [float(v) for v in s + r.uniform(-1, 1, n)]
    if start == 'zero': x0[0] = 0.
    x0 = [min(max(v, low[i] if low else -inf), high[i] if high else inf) for i, v in enumerate(x0)]
    if start == 'at low' and low: x0 = list(low)
    if start == 'at high' and high: x0 = list(high)
    keep = list(x0); kw = dict(xtol=tol, ftol=tol, maxiter=maxiter, adaptive=adaptive)
    if low is not None: kw['low'] = low
    if high is not None: kw['high'] = high
    if extra is not None: kw['args'] = (extra,)
    if pert is not None: kw['initial_perturbation'] = pert
    sim = None
    if simplex:
        sim = [list(x0)] + [[v + (.3 if i == k else 0.) for i, v in enumerate(x0)] for k in range(n)]; kw['initial_simplex'] = sim; skeep = [list(v) for v in sim]
    x, fv, it = nelder_mead(F, x0, **kw)
    ensure(x0 == keep, 'the guess was modified'); ensure(sim is None or sim == skeep, 'the initial simplex was modified')
    for q in pts + [x]: ensure(all((low is None or q[i] >= low[i] - 1e-12) and (high is None or q[i] <= high[i] + 1e-12) for i in range(n)), 'point %r outside of the bounds %r, %r' % (q, low, high))
    a = () if extra is None else (extra,); ensure(list(x) in pts, 'the result was never evaluated'); close(fv, F(list(x), *a), 1e-14, what='value at the result')
    ensure(fv <= F(x0, *a) or (simplex and False), 'the objective grew'); ensure(it <= maxiter, 'iterations')
    if it < maxiter and lo is None and hi is None and tol == 1e-8: ensure(fv - 1 < 1e-3, 'stopped at %r, the minimum is at %r' % (x, list(s)))
    if it < 5: ctx.trivial()
METHODS = ['newton_system', 'newton_system_line_search', 'homotopy_solver', 'broyden2_python', 'hybr', 'lm', 'krylov', 'df-sane', 'broyden1', 'broyden2']
@P.sub(rec(method=pick(METHODS), jm=pick(['python', 'analytical']), objnp=pick([False, True]), x0np=pick([False, True]), extra=opt(pick([7])), solve=pick([None, 'numpy']), **SYS), n=500, thorough=8000)
def interface(ctx, method, jm, objnp, x0np, extra, solve, **sysk):
    """Every formulation of one system gives its root, in the type of the guess."""
    sysk = dict(sysk, scale=1., far=min(sysk['far'], .3)); S = System(extra=extra, **sysk)
    wrap = (lambda g: lambda x, *a: np.array(g(chk(x), *a))) if objnp else (lambda g: lambda x, *a: g(chk(x), *a))
    def chk(x):
        ensure(isinstance(x, np.ndarray) if objnp else isinstance(x, list), 'the %s objective got a %s' % ('array' if objnp else 'list', type(x).__name__)); return x
    kw = dict(objf_numpy=objnp, jacobian_method=jm)
    if jm == 'analytical': kw['jac'] = wrap(S.j)
    if solve: kw['matrix_solver'] = npsolve
    si = SolverInterface(method, wrap(S.f), **kw); x0 = np.array(S.x0) if x0np else list(S.x0); keep = list(S.x0)
    try: x = si.solve(x0, args=() if extra is None else (extra,))
    except Exception as e:
        if isinstance(e, Violation) or method in ('newton_system', 'newton_system_line_search', 'homotopy_solver', 'hybr', 'lm') and not isinstance(e, UnconvergedError): raise
        ctx.label('raised by ' + method); ctx.trivial()
        if method in ('newton_system', 'hybr', 'lm', 'homotopy_solver'): fail('%s: %r' % (method, e))
        return
    ensure(isinstance(x, np.ndarray) == x0np and (x0np or type(x) is list), 'guess is an array: %r, solution is a %s' % (x0np, type(x).__name__))
    ensure(list(x0) == keep, 'the guess was modified')
    e = max(abs(float(a) - b) for a, b in zip(x, S.s)); ensure(e <= 1e-5 or method in ('krylov', 'df-sane', 'broyden1', 'broyden2'), '%s returned a point %g from the root' % (method, e))     # SciPy judges these by the last step only
    if method in ('newton_system', 'broyden2_python', 'newton_system_line_search', 'hybr'): ensure(S.calls == si.fval_iter + si.jac_fval_count or method == 'hybr', 'calls of the objective: %d, counted %d + %d' % (S.calls, si.fval_iter, si.jac_fval_count))
    ctx.label(method)
@P.sub(rec(method=pick(['Nelder-Mead', 'Powell', 'BFGS', 'CG', 'L-BFGS-B', 'TNC', 'SLSQP', 'Newton-CG', 'trust-exact', 'trust-ncg', 'dogleg', 'trust-krylov']), jm=pick(['python', 'analytical', 'scipy']), objnp=pick([False, True]), x0np=pick([False, True]), extra=opt(pick([7])), **SYS), n=150, thorough=2000)
def interface_minimizers(ctx, method, jm, objnp, x0np, extra, **sysk):
    """Minimising the sum of squares of a system's residuals finds its root."""
    sysk = dict(sysk, scale=1., far=min(sysk['far'], .2), n=min(sysk['n'], 3)); S = System(extra=extra, **sysk); args = () if extra is None else (extra,)
    if method in ('Newton-CG', 'trust-exact', 'trust-ncg', 'dogleg', 'trust-krylov') and jm == 'scipy': raise SkipCase
    wrap = (lambda g: lambda x, *a: np.array(g(x, *a))) if objnp else (lambda g: lambda x, *a: g(x, *a))
    kw = dict(objf_numpy=objnp, jacobian_method=jm, xtol=1e-9)
    if jm == 'analytical': kw['jac'] = wrap(S.j)
    si = SolverInterface(method, wrap(S.f), **kw)
    try: x = si.solve(np.array(S.x0) if x0np else list(S.x0), args=args)
    except Exception as e:
        if 'positive definite' in str(e) or isinstance(e, np.linalg.LinAlgError): raise SkipCase
        raise
    ensure(isinstance(x, np.ndarray) == x0np, 'type of the solution')
    e = max(abs(float(a) - b) for a, b in zip(x, S.s)); ensure(e <= 2e-2 if method in ('Nelder-Mead', 'Powell') else 1e-2, '%s returned a point %g from the minimum' % (method, e))
    ctx.label(method)
    d = 1e-6
    if jm != 'scipy':
        g = si.jacobian(np.array(S.x0), *args); J, f0 = S.j(S.x0, *args), S.f(S.x0, *args); si.minimizing and closes(g, [2*sum(f0[i]*J[i][k] for i in range(S.n)) for k in range(S.n)], 1e-4, 1e-5, 'gradient of the sum of squares')
@P.sub(rec(jm=pick(['python', 'numdifftools_forward', 'numdifftools_reverse', 'numdifftools_central', 'jacobi_forward', 'jacobi_central', 'jacobi_backward', 'analytical']), hm=pick(['python', 'numdifftools_forward', 'numdifftools_reverse', 'numdifftools_central']),
           method=pick(['newton_system', 'hybr', 'BFGS', 'trust-exact']), objnp=pick([False, True]), x0np=pick([False, True]), extra=opt(pick([7])), **SYS), n=200, thorough=3000)
def interface_derivatives(ctx, jm, hm, method, objnp, x0np, extra, **sysk):
    """every way to obtain the derivatives gives those of the objective, extra arguments included"""
    sysk = dict(sysk, scale=1., far=min(sysk['far'], .3), n=min(sysk['n'], 3)); S = System(extra=extra, **sysk); args = () if extra is None else (extra,)
    wrap = (lambda g: lambda x, *a: np.array(g(list(x), *a))) if objnp else (lambda g: lambda x, *a: g(x, *a))
    kw = dict(jac=wrap(S.j)) if jm == 'analytical' else {}
    si = SolverInterface(method, wrap(S.f), objf_numpy=objnp, jacobian_method=jm, hessian_method=hm, **kw); x = np.array(S.x0) if x0np else list(S.x0)
    J, f0 = S.j(S.x0, *args), S.f(S.x0, *args); got = si.jacobian(x, *args); n = S.n; big = 1 + max(abs(v) for r in J for v in r)*(1 + max(map(abs, f0)))
    ensure(isinstance(got, np.ndarray) == x0np, 'derivatives in another type than the point')
    w = [2*sum(f0[i]*J[i][k] for i in range(n)) for k in range(n)] if method in ('BFGS', 'trust-exact') else [v for r in J for v in r]
    closes([float(v) for v in np.ravel(got)], w, 1e-4, 1e-4*big, jm + ' derivatives')
    if method == 'trust-exact':
        def grad(y): r, q = S.f(y, *args), S.j(y, *args); return [2*sum(r[i]*q[i][k] for i in range(n)) for k in range(n)]
        h = si.hessian(x, args=args); d = 1e-5; ensure(isinstance(h, np.ndarray) == x0np, 'Hessian in another type than the point')
        for k in range(n):
            hi, lo = list(S.x0), list(S.x0); hi[k] += d; lo[k] -= d
            want = [(p - q)/(2*d) for p, q in zip(grad(hi), grad(lo))]
            closes([float(np.array(h)[i][k]) for i in range(n)], want, 2e-2, 2e-2*big, hm + ' second derivatives')
    ctx.label(jm)
@P.sub(rec(method=pick(['fixed_point', 'fixed_point_aitken', 'fixed_point_gdem', 'fixed_point_anderson']), objnp=pick([False, True]), x0np=pick([False, True]), A=flist(uf(-1, 1), 9, 9), n=ints(1, 3), s=flist(uf(-5, 5), 3, 3), far=flist(uf(-1, 1), 3, 3), c=uf(.05, .6), xtol=pick([1e-8, 1e-10])), n=150, thorough=2000)
def interface_fixed_points(ctx, method, objnp, x0np, A, n, s, far, c, xtol):
    """a contraction solved as a fixed point through the interface: the residual is the map minus the point"""
    M = [[A[3*i + j] for j in range(n)] for i in range(n)]; k = c/max(sum(map(abs, r)) or 1 for r in M); s = s[:n]
    if min(sum(map(abs, r)) for r in M) == 0: raise SkipCase
    def f(x):
        x = list(x); g = [s[i] + k*sum(M[i][j]*sin(x[j] - s[j]) for j in range(n)) for i in range(n)]; r = [(g[i] - x[i]) for i in range(n)]
        return np.array(r) if objnp else r
    si = SolverInterface(method, f, objf_numpy=objnp, xtol=xtol, maxiter=500); x0 = [a + b for a, b in zip(s, far)]
    try: x = si.solve(np.array(x0) if x0np else list(x0))
    except (UnconvergedError, ValueError): ctx.label('raised'); ctx.trivial(); return
    ensure(isinstance(x, np.ndarray) == x0np, 'type of the solution')
    e = max(abs(float(a) - b) for a, b in zip(x, s)); ensure(e <= 1e-4, '%s returned a point %g from the fixed point', method, e); ctx.label(method)
@P.sub(rec(meth=pick(['newton_minimize', 'Nelder-Mead', 'BFGS', 'L-BFGS-B']), objnp=pick([False, True]), x0np=pick([False, True]), **SYS), n=100, thorough=1500)
def interface_scalar(ctx, meth, objnp, x0np, **sysk):
    sysk = dict(sysk, scale=1., far=min(sysk['far'], .2), n=min(sysk['n'], 3)); S = System(sym=True, **sysk)
    si = SolverInterface(meth, S.F, objf_numpy=objnp, scalar_objective=True, jacobian_perturbation=1e-5, xtol=1e-3 if meth == 'newton_minimize' else 1e-9)
    x = si.solve(np.array(S.x0) if x0np else list(S.x0)); ensure(isinstance(x, np.ndarray) == x0np, 'type of the solution')
    e = max(abs(float(a) - b) for a, b in zip(x, S.s)); ensure(e < .05, '%s returned a point %g from the minimum' % (meth, e))
B1 = flist(uf(-10, 10), 1, 5)
@P.sub(rec(low=B1, width=flist(lf(1e-2, 1e2), 5, 5), frac=flist(uf(.001, .999), 5, 5), seed=ints(0, 10**6), spec=pick(['bounds', 'low high']), inplace=pick([False, True]), asnp=pick([False, True])), n=500, thorough=8000)
def bounds_translation(ctx, low, width, frac, seed, spec, inplace, asnp):
    n = len(low); high = [l + w for l, w in zip(low, width)]; x = [l + w*q for l, w, q in zip(low, width, frac)]
    kw = dict(bounds=list(zip(low, high))) if spec == 'bounds' else dict(low=low, high=high)
    r = np.random.RandomState(seed); A = r.uniform(-1, 1, (n, n))
    sf = lambda x, *a: sum(float(A[0, i])*v**2 for i, v in enumerate(x)); sg = lambda x, *a: [2*float(A[0, i])*v for i, v in enumerate(x)]
    vf = lambda x, *a: [sum(float(A[i, j])*x[j]**2 for j in range(n)) for i in range(n)]; vj = lambda x, *a: [[2*float(A[i, j])*x[j] for j in range(n)] for i in range(n)]
    f, into, out = translate_bound_func(sf, **kw); keep = list(x); u = into(x)
    ensure(x == keep, 'the point was modified')
    for a, b, l, w in zip(out(u), x, low, width): close(a, b, 1e-9, 1e-12*w, 'there and back')
    want = [log(q/(1 - q)) for q in frac[:n]]
    closes(u, want, 1e-6, 1e-8, 'transformed point'); close(f(u), sf(x), 1e-9, 1e-9*sum(v*v for v in x), 'function of the transformed point')
    for big in (50., -50., 1e4, -1e4):
        for a, l, h in zip(out([big]*n), low, high): ensure(l <= a <= h and close(a, h if big > 0 else l, 1e-12, 1e-12*(h - l)) is None, 'limits')
    dx = [(h - l)*q*(1 - q) for l, h, q in zip(low, high, frac)]
    g, into2, out2 = translate_bound_jac(sg, **kw); sc = max(abs(v) for v in sg(x)) + 1e-3
    closes(g(into2(x)), [d*v for d, v in zip(dx, sg(x))], 1e-6, 1e-9*sc, 'gradient'); closes(out2(into2(x)), x, 1e-9, 1e-9, 'there and back')
    for how in ('vector', 'scalar', 'together'):
        ff, jj = (sf, sg) if how == 'scalar' else (vf, vj)
        fj, into3, out3 = translate_bound_f_jac((lambda x, *a: (ff(x, *a), jj(x, *a))) if how == 'together' else ff, True if how == 'together' else jj, inplace_jac=inplace, as_np=asnp, **kw)
        xx = np.array(x) if asnp else list(x); fv, J = fj(into3(xx))
        ensure(list(xx) == x, 'the point was modified'); ensure(isinstance(J, np.ndarray) == asnp, 'type of the Jacobian')
        if how == 'scalar': close(fv, sf(x), 1e-9, 1e-9*sum(v*v for v in x), 'value'); closes(J, [d*v for d, v in zip(dx, sg(x))], 1e-6, 1e-9*sc, 'gradient')
        else:
            closes(fv, vf(x), 1e-8, 1e-9*sum(v*v for v in x), 'values')
            for row, wr in zip(J, vj(x)): closes(row, [d*v for d, v in zip(dx, wr)], 1e-6, 1e-9*(max(map(abs, wr)) + 1e-3)*max(width), 'Jacobian')
        closes(out3(into3(xx)), x, 1e-9, 1e-9, 'there and back')
@P.sub(rec(n=pick([2, 3, 4]), **{k: v for k, v in SYS.items() if k != 'n'}), n=300, thorough=5000)
def direct_solves(ctx, n, **sysk):
    S = System(n=n, **sysk); A = [[S.k*float(v) for v in row] for row in S.A]; b = [sum(A[i][j]*float(S.s[j]) for j in range(n)) for i in range(n)]
    ka, kb = [list(r) for r in A], list(b)
    x = {2: solve_2_direct, 3: solve_3_direct, 4: solve_4_direct}[n](A, b); ensure(A == ka and b == kb, 'inputs modified')
    c = np.linalg.cond(S.A); closes(x, [float(v) for v in S.s], 0, 1e-12*c*c*3, 'direct solution')
@P.sub(rec(v=flist(uf(-5, 5), 1, 6), w=flist(lf(1e-3, 1e3), 1, 8)), n=200, thorough=2000)
def helpers(ctx, v, w):
    f = lambda x, k=1: [k*q - 1 for q in x]
    closes(fixed_point_to_residual(f)(v, 2), [1 - 2*q for q in v], 0, 0, 'fixed point to residual'); closes(residual_to_fixed_point(f)(v, 2), [1 - 2*q for q in v], 0, 0, 'residual to fixed point')
    n = normalize(w); close(sum(n), 1, 1e-12, what='sum of normalized'); closes(n, [q/sum(w) for q in w], 1e-13, what='normalized')
    close(fn.newton_err([q - w[0] for q in w]), sum(abs(q - w[0]) for q in w), 1e-13, what='sum of the absolute residuals')
    calls = []
    def g(x, *args, **kw): calls.append(x); kw.get('info', [0])[:] = [x*x, len(args)]; return x*k0 + sum(args)
    k0 = w[0]; c, store, infos = fn.caching_decorator(g, full=True); plain = fn.caching_decorator(g); first = []
    for x in v + v[::-1] + v:
        i = []; ensure(c(x, 2., info=i) == x*k0 + 2., 'cached value'); ensure(i == [x*x, 1], 'cached information'); i.append(7)
        if x not in first: first.append(x)
    ensure(calls == first and list(store) == first, 'evaluated other than once per point'); calls.clear()
    for x in v + v: ensure(plain(x) == x*k0, 'cached value, no information')
    ensure(calls == first, 'evaluated other than once per point')
