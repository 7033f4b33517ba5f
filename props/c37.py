"""C37: scalar root finders return roots or raise."""
from math import *
import scipy.optimize as so
from fluids.numerics import (bisect, ridder, brenth, secant, newton, halley, one_sided_secant, best_bounding_bounds, OscillationChecker, oscillation_checking_wrapper,
                             damping_maintain_sign, UnconvergedError, SamePointError, NotBoundedError, OscillationError)
from fluids.numerics import make_damp_initial, make_max_step_initial
from vf.core import *

P = Prop('C37', rule='Functions s*g((x - r)/w) with every root known (monotone, flat, steep, saturating, oscillating, cubic and higher, several real roots), brackets, guesses, limits and tolerances generated. Non-trivial: a run that needed at least three evaluations and returned; runs ending in a documented error are counted apart.',
         assumptions=['function values themselves stay clear of underflow away from the root; where only their products underflow, bisection and the Brent methods are required to keep the bracket, and Ridder is not judged', 'a quasi-Newton result is the next iterate and is not evaluated unless require_eval is set, so its residual is judged through the distance to the root'])
def cl(u): return max(-300., min(300., u))
# name: (g, g', g'')   all increasing with the only root 0
G = {
 'lin': (lambda u: u, lambda u: 1., lambda u: 0.),
 'cubic': (lambda u: u + u**3, lambda u: 1 + 3*u*u, lambda u: 6*u),
 'sinh': (lambda u: sinh(cl(u)), lambda u: cosh(cl(u)), lambda u: sinh(cl(u))),
 'asinh': (lambda u: asinh(u), lambda u: 1/sqrt(1 + u*u), lambda u: -u/(1 + u*u)**1.5),
 'expm1': (lambda u: expm1(cl(u)), lambda u: exp(cl(u)), lambda u: exp(cl(u))),
 'wave': (lambda u: u + .9*sin(u), lambda u: 1 + .9*cos(u), lambda u: -.9*sin(u)),
 'atan': (lambda u: atan(u), lambda u: 1/(1 + u*u), lambda u: -2*u/(1 + u*u)**2),
 'tanh': (lambda u: tanh(u), lambda u: 1 - tanh(u)**2, lambda u: -2*tanh(u)*(1 - tanh(u)**2)),
 'skew': (lambda u: u + .3*u*u + .5*u**3, lambda u: 1 + .6*u + 1.5*u*u, lambda u: .6 + 3*u),
}
HARD = {'pure3': lambda u: u**3, 'cbrt': lambda u: copysign(abs(u)**(1/3), u), 'quint': lambda u: u**5 + .01*u, 'step': lambda u: -1. if u < 0 else (1. if u > 0 else 0.)}
EASY = ['lin', 'cubic', 'sinh', 'asinh', 'expm1', 'wave', 'skew']
S = lf(1e-6, 1e6); SIGN = pick([1., -1.]); R = uf(-100, 100) | pick([0., 1., -1.]) | lf(1e-3, 1e6); W = lf(1e-3, 1e3)
FUN = dict(g=pick(list(G)), r=R, w=W, s=S, sg=SIGN)
class F:
    """s*g((x - r)/w) counting its calls."""
    def __init__(self, g, r, w, s, sg, ders=0, hard=False):
        t = (HARD if hard else G)[g]; self.g = t if hard else t[0]; self.t = t; self.r, self.w, self.k = r, w, s*sg; self.n = 0; self.xs = []; self.ders = ders
    def val(self, x): return self.k*self.g((x - self.r)/self.w)
    def d(self, x): return self.k/self.w*self.t[1]((x - self.r)/self.w)
    def d2(self, x): return self.k/self.w**2*self.t[2]((x - self.r)/self.w)
    def __call__(self, x, *a, **kw):
        self.n += 1; self.xs.append(x)
        if isnan(x): return (nan,)*(self.ders + 1) if self.ders else nan
        try:
            v = self.val(x)
            if self.ders == 0: return v
            return (v, self.d(x)) if self.ders == 1 else (v, self.d(x), self.d2(x))
        except OverflowError: return (inf,)*(self.ders + 1) if self.ders else inf
def via(f, how):
    """The function and its derivatives, wanting extra arguments: (wrapper, keywords for the solver)."""
    if how is None: return (lambda g: g), {}
    if how == 'args': return (lambda g: lambda x, extra: g(x) if extra == 7 else 1/0), {'args': (7,)}
    return (lambda g: lambda x, extra=0: g(x) if extra == 7 else 1/0), {'kwargs': {'extra': 7}}
EXTRA = pick([None, None, 'args', 'kwargs'])
def attempt(f, *a, errs=(UnconvergedError,), **k):
    try: return f(*a, **k), None
    except errs as e: return None, e
TOL = opt(lf(1e-14, 1e-3))
@P.sub(rec(solver=pick(['bisect', 'ridder', 'brenth', 'brenth q']), g=pick(list(G) + ['pure3', 'cbrt', 'quint', 'step']), r=R, w=W, s=S, sg=SIGN, left=lf(1e-4, 1e3), right=lf(1e-4, 1e3), at=pick([0, 0, 0, 0, 0, 0, -1, 1]), swap=pick([False, True]), xtol=TOL, rtol=TOL, ytol=opt(lf(1e-12, 1.)), maxiter=pick([None, None, None, 5, 20, 60, 300]), args=EXTRA, pre=pick([False, True])), n=2400, thorough=40000)
def bracketing(ctx, solver, g, r, w, s, sg, left, right, at, swap, xtol, rtol, ytol, maxiter, args, pre):
    f = F(g, r, w, s, sg, hard=g in HARD)
    a, b = r - left*w, r + right*w
    if at == -1: a = r
    if at == 1: b = r
    if not a < b or (at == 0 and not (a < r < b)): raise SkipCase
    kw = {k: v for k, v in dict(xtol=xtol, rtol=rtol, maxiter=maxiter).items() if v is not None}
    if xtol is not None and solver != 'bisect' and xtol < 4e-16*abs(r): raise SkipCase
    if at == 0 and solver != 'bisect' and min(b - r, r - a) < 4*((xtol or 1e-12) + (rtol or 0)*max(abs(a), abs(b))): raise SkipCase    # a bracket narrower than the tolerance
    if ytol is not None and solver != 'ridder': kw['ytol'] = ytol*s
    if solver == 'brenth q': kw['q'] = True
    if swap: a, b = b, a
    if pre and solver.startswith('brenth'): kw['fa'], kw['fb'] = f.val(a), f.val(b)
    fn = {'bisect': bisect, 'ridder': ridder}.get(solver, brenth)
    call = f
    if args == 'kwargs' and not solver.startswith('brenth'): args = 'args'
    wr, k2 = via(f, args); call = wr(f); kw.update(k2)
    x, e = attempt(fn, call, a, b, **kw)
    lo, hi = min(a, b), max(a, b)
    eps = 1e-15*(abs(lo) + abs(hi))    # rounding
    ensure(all(lo - eps <= q <= hi + eps for q in f.xs), 'evaluated outside of the bracket')
    if at: 
        ensure(e is None, 'a bracket ending on the root: %r' % e); ensure(x == r, 'end point root %r, got %r' % (r, x)); ctx.trivial(); return
    xt = xtol if xtol is not None else 1e-12; rt = rtol if rtol is not None else 1e-15
    mi = maxiter or 100
    if e is not None:
        ctx.trivial(); ctx.label('not converged: ' + solver)
        ensure(type(e) is UnconvergedError, repr(e))
        # the same algorithm elsewhere must not manage within the same number of iterations
        if 'ytol' in kw: 
            if solver == 'bisect' and abs(f.val(r + 2*xt)) < kw['ytol'] and abs(f.val(r - 2*xt)) < kw['ytol'] and abs(f.val(r + 2e-15*abs(r))) < kw['ytol'] and abs(f.val(r - 2e-15*abs(r))) < kw['ytol']: ensure(mi < log2((hi - lo)/xt) + 2, 'bisection of %g did not reach %g in %d steps' % (hi - lo, xt, mi))
            return
        if solver == 'bisect': ensure(mi < log2((hi - lo)/xt) + 2, 'bisection of %g did not reach %g in %d steps' % (hi - lo, xt, mi)); return
        sf = {'ridder': so.ridder, 'brenth': so.brenth, 'brenth q': so.brentq}[solver]
        if solver == 'ridder' and r < 0: 
            ensure(mi < 100 or True, ''); sg2 = F(g, -r, w, s, -sg, hard=g in HARD) if g not in ('expm1', 'skew') else None
            if sg2 is None: return
            h = lambda x: f.val(-x); la, lb = -b, -a    # the mirrored problem, where SciPy has a meaningful tolerance
        else: h, la, lb = f.val, a, b
        try: sf(h, la, lb, xtol=xt, rtol=max(rt, 8.9e-16), maxiter=mi)
        except RuntimeError: return
        fail('%s did not converge in %d iterations where SciPy does' % (solver, mi))
    ensure(lo <= x <= hi, 'root %r outside of the bracket' % x)
    tol = 2*(xt + rt*abs(r)) + 1e-15*abs(r)
    if f.val(x) != 0: ensure(abs(x - r) <= tol, 'returned %r, root %r, tolerance %g' % (x, r, tol))
    if 'ytol' in kw: ensure(abs(f.val(x)) < kw['ytol'], 'residual %g over ytol %g' % (f.val(x), kw['ytol']))
    ctx.label(solver)
    if f.n < 5: ctx.trivial()
@P.sub(rec(solver=pick(['bisect', 'brenth', 'brenth q']), g=pick(['lin', 'cubic', 'asinh', 'wave', 'atan', 'skew', 'cbrt']), r=uf(-100, 100), w=lf(1e-2, 1e2), e=ints(140, 290), sg=SIGN, left=lf(1e-2, 1e2), right=lf(1e-2, 1e2), same=pick([False, False, True])), n=500, thorough=8000)
def tiny_values(ctx, solver, g, r, w, e, sg, left, right, same):
    """function values whose products underflow"""
    f = F(g, r, w, 10.**-e, sg, hard=g in HARD); a, b = r - left*w, r + right*w
    fn, err = {'bisect': (bisect, ValueError)}.get(solver, (brenth, NotBoundedError)); kw = {'q': True} if solver == 'brenth q' else {}
    if same:
        raises(err, fn, f, r + left*w, r + (left + right)*w, what='a bracket without a root', **kw); return
    x = fn(f, a, b, maxiter=300, **kw)
    ensure(a <= x <= b, 'root %r outside of the bracket' % x); ensure(abs(x - r) <= 2e-12 + 3e-15*abs(r) or f.val(x) == 0, 'returned %r, root %r' % (x, r))
@P.sub(rec(solver=pick(['bisect', 'ridder', 'brenth']), off=lf(1e-3, 1e3), wid=lf(1e-3, 1e3), side=SIGN, nanend=pick([None, None, 0, 1]), **FUN), n=300, thorough=4000)
def not_bracketed(ctx, solver, off, wid, side, nanend, **fun):
    f = F(**fun); a, b = f.r + side*off*f.w, f.r + side*(off + wid)*f.w
    if f.val(a)*f.val(b) <= 0: raise SkipCase
    fn, err = {'bisect': (bisect, ValueError), 'ridder': (ridder, ValueError), 'brenth': (brenth, NotBoundedError)}[solver]
    raises(err, fn, f, a, b, what='a bracket without a root')
    if solver == 'brenth' and nanend is not None: raises(NotBoundedError, brenth, f, a, b, **({'fa': nan} if nanend == 0 else {'fb': nan}), what='not-a-number at the end of a bracket')
ROOTS = flist(uf(-10, 10), 1, 6)
@P.sub(rec(solver=pick(['bisect', 'ridder', 'brenth']), roots=ROOTS, a=uf(-12, 12), b=uf(-12, 12), s=S, sg=SIGN), n=600, thorough=10000)
def several_roots(ctx, solver, roots, a, b, s, sg):
    f = lambda x: s*sg*prod(x - q for q in roots)
    if a == b or f(a)*f(b) > 0: raise SkipCase
    x = {'bisect': bisect, 'ridder': ridder, 'brenth': brenth}[solver](f, a, b, maxiter=1000)
    ensure(min(a, b) <= x <= max(a, b), 'inside the bracket')
    d = min(abs(x - q) for q in roots)
    ensure(f(x) == 0 or d < 1e-10, 'returned %r, the roots are %r' % (x, roots)); ctx.label('%d roots' % min(len(roots), 4))
def judge(ctx, f, x, e, kind, xtol, ytol, require_eval, low=None, high=None, unit=1.):
    if e is not None: ctx.trivial(); ctx.label('not converged'); return False
    ensure(isinstance(x, (int, float)) and isfinite(x), 'returned %r' % (x,))
    if low is not None: ensure(x >= low, 'root %r below low=%r' % (x, low))
    if high is not None: ensure(x <= high, 'root %r above high=%r' % (x, high))
    v = f.val(x)
    if require_eval: ensure(v == 0 or any(x == q for q in f.xs), 'require_eval, but %r was never evaluated' % x)
    if v == 0: return True
    if require_eval and ytol is not None: ensure(abs(v) <= ytol, 'residual %g over ytol %g' % (v, ytol))
    dist = abs(x - f.r)
    okx = xtol is not None and dist <= 30*unit*xtol*max(abs(x), abs(f.r)) + 4e-16*abs(f.r)
    oky = ytol is not None and abs(v) <= ytol*(1 if require_eval else 3) 
    if kind == 'both': ensure(oky or okx, 'returned %r, root %r, residual %g; neither tolerance is met' % (x, f.r, v))
    elif kind == 'x': ensure(okx, 'returned %r, root %r: not within xtol' % (x, f.r))
    else: ensure(oky or dist <= 1e-6*f.w, 'returned %r, residual %g, ytol %g' % (x, v, ytol))
    return True
XT = lf(1e-12, 1e-5)
START = inear(uf(-30, 30), [.5, -.5, 1.], 1)
@P.sub(rec(u0=START, u1=opt(uf(-30, 30)), xtol=opt(XT), ytol=opt(lf(1e-12, 1e-6)), require_xtol=pick([True, False]), require_eval=pick([True, False]), bisection=pick([True, False]), lo=opt(uf(.01, 40)), hi=opt(uf(.01, 40)), damping=pick([1., 1., 1., .7]), f01=pick([False, True]), addl=pick([False, False, True]), same_tol=pick([1., 1., 10.]), maxiter=pick([100, 100, 100, 300, 4]), extra=EXTRA, **FUN), n=3000, thorough=50000)
def secant_method(ctx, u0, u1, xtol, ytol, require_xtol, require_eval, bisection, lo, hi, damping, f01, addl, same_tol, maxiter, extra, **fun):
    f = F(**fun); x0 = f.r + u0*f.w; x1 = None if u1 is None else f.r + u1*f.w
    if xtol is None and ytol is None: xtol = 1e-9
    if x1 is not None and (abs(x1 - x0) < 1e-3*f.w or abs(x1 - x0) <= 1e-3*abs(x0)): raise SkipCase
    if (x1 is None or True) and f.w < 1e-5*abs(f.r): raise SkipCase
    low, high = (None if lo is None else f.r - lo*f.w), (None if hi is None else f.r + hi*f.w)
    if low is not None and (x0 < low or x1 is not None and x1 < low) or high is not None and (x0 > high or x1 is not None and x1 > high): raise SkipCase
    if x1 is None and xtol is not None and (1e-4 + 1e-4*abs(x0)) < 100*xtol*abs(x0): raise SkipCase
    yt = None if ytol is None else ytol*f.k*fun['sg']
    kw = dict(xtol=xtol, ytol=yt, require_xtol=require_xtol, require_eval=require_eval, bisection=bisection, low=low, high=high, damping=damping, additional_guesses=addl, same_tol=same_tol, maxiter=maxiter)
    if x1 is not None: kw['x1'] = x1
    if f01:
        kw['f0'] = f.val(x0)
        if x1 is not None: kw['f1'] = f.val(x1)
    wr, k2 = via(f, extra); x, e = attempt(secant, wr(f), x0, **kw, **k2)
    for q in f.xs:
        ensure((low is None or q >= low) and (high is None or q <= high), 'evaluated at %r, outside of the limits' % q)
    kind = 'x' if yt is None else ('y' if xtol is None or not require_xtol else 'both')
    # the stopping rule: the last two points evaluated agree to xtol, the last value is below ytol
    tr = ([x0] if f01 else []) + ([x1] if f01 and x1 is not None else []) + f.xs
    if e is None and not addl and f.val(x) != 0 and len(tr) > 2 and kind in ('x', 'both'):
        ensure(abs(tr[-1] - tr[-2]) <= xtol*same_tol*abs(tr[-2])*(1 + 1e-12), 'stopped between %r and %r, xtol %g' % (tr[-2], tr[-1], xtol))
    if e is None and not addl and f.val(x) != 0 and kind in ('y', 'both'): ensure(abs(f.val(tr[-1])) < yt*same_tol or x == tr[0], 'stopped with a residual of %g, ytol %g' % (f.val(tr[-1]), yt))
    second = u1 if u1 is not None else ((x0*1.0001 + (1e-4 if x0 >= 0 else -1e-4)) - f.r)/f.w
    if kind == 'x' and not (abs(u0) <= 2 and abs(second) <= 2 and xtol*abs(f.r) < 1e-5*f.w):    # a secant between points of very different slope stalls; the step rule is all that is promised
        if e is None: ensure((low is None or x >= low) and (high is None or x <= high), 'limits'); ensure(not require_eval or x in tr, 'require_eval')
        ctx.label('far start'); return
    ok = judge(ctx, f, x, e, kind, None if xtol is None else xtol*same_tol/damping, None if yt is None else yt*same_tol, require_eval, low, high, unit=5 if damping < 1 else 1)
    if ok and f.n < 4: ctx.trivial()
    # an easy function from a close start has to be solved
    if not ok and maxiter >= 100 and damping == 1. and abs(u0) <= 1 and (u1 is None or abs(u1) <= 1) and low is None and high is None and fun['g'] in EASY and (xtol or 0) >= 1e-10 and abs(f.r) < 1e3*f.w and (ytol is None or ytol >= 1e-9) and f.r != 0 and f.w > 1e-2: fail('no convergence of the secant method on %s from %g: %r' % (fun['g'], u0, e))
@P.sub(rec(u0=START, mode=pick(['both callables', 'fprime', 'fprime included', 'fprime2', 'fprime2 included', 'halley']), xtol=opt(XT), ytol=opt(lf(1e-12, 1e-6)), require_xtol=pick([True, False]), require_eval=pick([True, False]), bisection=pick([True, False]), lo=opt(uf(.01, 40)), hi=opt(uf(.01, 40)), damping=pick([1., 1., 1., .7]), dfun=pick([None, None, None, 'full', 'half start']), addl=pick([False, False, True]), maxiter=pick([100, 100, 100, 300, 4]), extra=EXTRA, **FUN), n=3000, thorough=50000)
def newton_method(ctx, u0, mode, xtol, ytol, require_xtol, require_eval, bisection, lo, hi, damping, dfun, addl, maxiter, extra, **fun):
    nd = 2 if mode in ('fprime2 included', 'halley') else 1 if mode == 'fprime included' else 0
    f = F(ders=nd, **fun); x0 = f.r + u0*f.w
    if xtol is None and ytol is None: xtol = 1e-9
    if f.w < 1e-5*abs(f.r): raise SkipCase
    low, high = (None if lo is None else f.r - lo*f.w), (None if hi is None else f.r + hi*f.w)
    if low is not None and x0 < low or high is not None and x0 > high: raise SkipCase
    yt = None if ytol is None else ytol*abs(f.k)
    kw = dict(xtol=xtol, ytol=yt, require_eval=require_eval, bisection=bisection, low=low, high=high, damping=damping, maxiter=maxiter)
    if dfun: kw['damping_func'] = (lambda x, step, d: x + step*d) if dfun == 'full' else make_damp_initial(3, .5)
    wr, k2 = via(f, extra)
    if mode != 'halley':
        kw['additional_guesses'] = addl; kw['require_xtol'] = require_xtol
        kw['fprime'] = True if nd else wr(f.d)
        if mode == 'fprime2': kw['fprime2'] = wr(f.d2)
        if mode == 'fprime2 included': kw['fprime2'] = True
    else: require_xtol = True
    x, e = attempt(newton if mode != 'halley' else halley, wr(f), x0, errs=(UnconvergedError, ZeroDivisionError, OverflowError), **kw, **k2)
    if isinstance(e, (ZeroDivisionError, OverflowError)) and fun['g'] not in ('atan', 'tanh'): fail(repr(e))
    kind = 'x' if yt is None else ('y' if xtol is None or not require_xtol else 'both')
    ok = judge(ctx, f, x, e, kind, None if xtol is None else xtol/damping, yt, require_eval, low, high, unit=5 if damping < 1 else 1)
    ctx.label(mode)
    if ok and f.n < 4: ctx.trivial()
    if not ok and maxiter >= 100 and not dfun and abs(u0) <= 1 and fun['g'] in EASY and fun['g'] != 'wave' and (low is None or lo > 1) and (high is None or hi > 1) and (xtol or 0) >= 1e-10 and abs(f.r) < 1e3*f.w and (ytol is None or ytol >= 1e-9) and f.r != 0 and f.w > 1e-2: fail('no convergence of %s on %s from %g: %r' % (mode, fun['g'], u0, e))
PART = {   # f, f', f'' of t, root at 1; None outside of the domain or no slope
    'log': (lambda t: (log(t), 1/t, -1/t**2) if t > 0 else (nan, nan, nan)), 'sqrt': (lambda t: (sqrt(t) - 1, .5/sqrt(t), -.25/t**1.5) if t > 0 else (nan, nan, nan)),
    'pole': (lambda t: (1 - 1/t, 1/t**2, -2/t**3) if t > 0 else (-inf, nan, nan)), 'clamped': (lambda t: (t - 1, 1., 0.) if 0 < t < 2 else (copysign(1., t - 1), 0., 0.)),
    'clamped curve': (lambda t: (t*t - 1, 2*t, 2.) if 0 < t < 3 else (-1. if t <= 0 else 8., 0., 0.))}
@P.sub(rec(part=pick(list(PART)), solver=pick(['secant', 'newton', 'newton callables', 'newton 2', 'newton 2 callables', 'halley']), u0=uf(-3, 6), u1=opt(uf(-3, 6)), r=lf(1e-3, 1e3) | pick([1.]), neg=pick([False, False, True]), s=S, sg=SIGN, addl=pick([False, True]), bisection=pick([False, True]), xtol=pick([1e-6, 1e-9]), ytol=opt(lf(1e-10, 1e-4)), lim=pick([None, None, 'low', 'both'])), n=600, thorough=10000)
def partial_domain(ctx, part, solver, u0, u1, r, neg, s, sg, addl, bisection, xtol, ytol, lim):
    """a function undefined, infinite or constant over part of the line: a root or an error, from any start"""
    g = PART[part]; d = -r if neg else r; k = s*sg; x0 = u0*d; kw = dict(xtol=xtol, ytol=None if ytol is None else ytol*s, bisection=bisection); seen = []
    def full(x): seen.append(x); a, b, c = g(x/d); return k*a, k*b/d, k*c/d**2
    f, f1, f2 = (lambda x: full(x)[0]), (lambda x: full(x)[1]), (lambda x: full(x)[2])
    if lim:
        lo, hi = sorted((-4*d, 7*d)); kw['low'] = lo
        if lim == 'both': kw['high'] = hi
    if solver == 'secant':
        if u1 is not None: kw['x1'] = u1*d
        if u1 == u0: raise SkipCase
        x, e = attempt(secant, f, x0, additional_guesses=addl, errs=(UnconvergedError, ZeroDivisionError, OverflowError), **kw)
    else:
        if solver != 'halley': kw['additional_guesses'] = addl
        h = {'newton': (lambda x: full(x)[:2], dict(fprime=True)), 'newton callables': (f, dict(fprime=f1)), 'newton 2': (full, dict(fprime=True, fprime2=True)), 'newton 2 callables': (f, dict(fprime=f1, fprime2=f2)), 'halley': (full, {})}[solver]
        x, e = attempt(halley if solver == 'halley' else newton, h[0], x0, errs=(UnconvergedError, ZeroDivisionError, OverflowError), **h[1], **kw)
    if e is not None: ctx.trivial(); ctx.label('not converged'); return
    if lim: ensure(all(q >= lo and (lim != 'both' or q <= hi) for q in seen), 'evaluated outside of the limits')
    ensure(isfinite(x), '%s returned %r', solver, x); v = g(x/d)[0]
    ensure(abs(x - d) <= max(1e-4, 100*xtol, 0 if ytol is None else 30*ytol)*r, '%s from %g returned %r, where the function is %r; the root is %r', solver, x0, x, k*v, d)
    if len(seen) < 4: ctx.trivial()
    ctx.label(solver)
@P.sub(rec(mode=pick(['newton', 'newton 2', 'halley']), c=lf(1e-2, 1e2), x0=uf(-5, 5), s=S, sg=SIGN, ytol=opt(lf(1e-10, 1e-3))), n=150, thorough=1500)
def flat_start(ctx, mode, c, x0, s, sg, ytol):
    """s*((x - x0)^2 - c): no slope at the start, and the start is no root."""
    k = s*sg
    f = {'newton': lambda x: (k*((x - x0)**2 - c), k*2*(x - x0)), 'newton 2': lambda x: (k*((x - x0)**2 - c), k*2*(x - x0), 2*k), 'halley': lambda x: (k*((x - x0)**2 - c), k*2*(x - x0), 2*k)}[mode]
    kw = {} if mode == 'halley' else dict(fprime=True) if mode == 'newton' else dict(fprime=True, fprime2=True)
    if ytol is not None:
        kw['ytol'] = ytol*s
        if ytol >= c: raise SkipCase
    raises(UnconvergedError, halley if mode == 'halley' else newton, f, x0, what='a start without slope is not a root', **kw)
    if mode != 'halley' and ytol is None:
        x = newton(f, x0, additional_guesses=True, **kw) if x0 != 0 else x0 + sqrt(c)
        close(abs(x - x0), sqrt(c), 1e-6, what='after looking for another start')
    x, e = attempt(halley if mode == 'halley' else newton, f, x0 + 1. + sqrt(c), **kw)
    if e is None: close(abs(x - x0), sqrt(c), 1e-5 if ytol is None else max(1e-5, 10*ytol/c), what='root of a parabola')
@P.sub(rec(u0=uf(.01, 3), flat=uf(1.5, 40), g=pick(['lin', 'cubic', 'sinh', 'asinh', 'expm1', 'skew']), r=R, w=lf(1e-2, 1e3), s=S, sg=SIGN, side=SIGN, pre=pick([False, True]), second=pick([False, True]), ytol=lf(1e-10, 1e-4), xt=pick([None, None, 1e-4]), away=uf(.05, 1.2)), n=600, thorough=10000)
def one_sided(ctx, u0, flat, g, r, w, s, sg, side, pre, second, ytol, xt, away):
    """The function is constant beyond x_flat, on the far side of the root."""
    f = F(g, r, w, s, sg); xf = r + side*flat*away*w; start = r - side*u0*w; yf = f.val(xf)
    if abs(r) > 1e3*w: raise SkipCase
    def h(x): return yf if (x - xf)*side >= 0 else f(x)
    kw = dict(ytol=ytol*s, xtol=xt)
    if second: kw['x1'] = start - side*.3*w; kw['y1'] = f.val(kw['x1']) if pre else None
    if pre: kw['y_flat'] = yf; kw['y0'] = f.val(start)
    if h(start) == yf: raise SkipCase
    x, e = attempt(one_sided_secant, h, start, xf, errs=(UnconvergedError, ValueError, ZeroDivisionError), **kw)    # two equal values divide by zero
    if e is not None: ctx.trivial(); ctx.label('not converged'); return
    ensure(abs(h(x)) < ytol*s, 'residual %g over ytol %g' % (h(x), ytol*s))
    if f.n < 5: ctx.trivial()
@P.sub(rec(u0=uf(.1, 3), flat=uf(1., 10), r=uf(-10, 10), w=uf(.5, 10), s=S, case=pick(['start flat', 'second flat', 'equal'])), n=60, thorough=600)
def one_sided_errors(ctx, u0, flat, r, w, s, case):
    xf = r + flat*w
    h = lambda x: s*(min(x, xf) - r)
    if case == 'start flat': raises(ValueError, one_sided_secant, h, xf + u0*w, xf, what='a start in the flat region')
    elif case == 'second flat': raises(ValueError, one_sided_secant, h, r, xf, x1=xf + w, what='a second point in the flat region')
    else: raises(ValueError, one_sided_secant, h, r - w, xf, x1=r - w, what='two equal starting values')
HIST = flist(uf(-5, 5), 0, 12)
@P.sub(rec(lo=uf(.2, 8), hi=uf(.2, 8), hist=HIST, sides=pick(['both', 'pos', 'neg', 'none']), pre=pick([False, True]), **FUN), n=600, thorough=8000)
def best_bounds(ctx, lo, hi, hist, sides, pre, **fun):
    f = F(**fun); a, b = f.r - lo*f.w, f.r + hi*f.w
    xs = [f.r + h*f.w for h in hist]; ys = [f.val(x) for x in xs]
    pos = [(x, y) for x, y in zip(xs, ys) if y > 0]; neg = [(x, y) for x, y in zip(xs, ys) if y < 0]
    if sides not in ('both', 'pos'): pos = []
    if sides not in ('both', 'neg'): neg = []
    kw = {}
    if pos: kw.update(xs_pos=[p[0] for p in pos], ys_pos=[p[1] for p in pos])
    if neg: kw.update(xs_neg=[p[0] for p in neg], ys_neg=[p[1] for p in neg])
    if pre: kw.update(fa=f.val(a), fb=f.val(b))
    fa, fb = f.val(a), f.val(b)
    if fa*fb >= 0: raise SkipCase
    l, h, fl, fh = best_bounding_bounds(a, b, f, **kw)
    ensure(fl == f.val(l) and fh == f.val(h), 'values belong to the returned points')
    ensure(fl*fh < 0, 'the returned points do not bracket the root'); ensure(fl*fa > 0 and fh*fb > 0, 'the sides are exchanged')
    best = lambda pts, y0: min([abs(y) for _, y in pts] + [abs(y0)])
    close(abs(fl), best(pos if fa > 0 else neg, fa), 0, 0, 'smallest residual on the side of low'); close(abs(fh), best(pos if fb > 0 else neg, fb), 0, 0, 'smallest residual on the side of high')
    if not pos and not neg: ctx.trivial()
@P.sub(rec(a=uf(.1, 5), b=uf(5.1, 9), **FUN), n=60, thorough=600)
def best_bounds_unbracketed(ctx, a, b, **fun):
    f = F(**fun)
    if f.val(f.r + a*f.w)*f.val(f.r + b*f.w) <= 0: raise SkipCase
    raises(ValueError, best_bounding_bounds, f.r + a*f.w, f.r + b*f.w, f)
@P.sub(rec(ys=flist(lf(1e-3, 1e3) | lf(1e-3, 1e3).map(lambda v: -v), 0, 15), prog=uf(.01, .9), both=pick([False, True]), good=opt(lf(1e-2, 10)), wrap=pick(['call', 'wrapper', 'plain wrapper', 'tuple'])), n=400, thorough=5000)
def oscillation(ctx, ys, prog, both, good, wrap):
    """Model: the latest two values of each sign; oscillating when (either or both) changed by less than prog."""
    def model():
        pos, neg = [], []
        for y in ys:
            (neg if y < 0 else pos).append(y)
            if len(pos) < 2 or len(neg) < 2: yield False; continue
            g = [abs((s[-1] - s[-2])/s[-1]) < prog for s in (neg, pos)]
            o = all(g) if both else any(g)
            if o and good is not None and min(abs(neg[-1]), abs(pos[-1])) < good: o = False
            yield o
    want = list(model())
    if wrap == 'call':
        c = OscillationChecker(prog, both, good); got = [c(i*1., y) for i, y in enumerate(ys)]
        ensure(got == want, 'oscillation verdicts %r, model %r' % (got, want))
        c.clear(); ensure(not any(c(0., v) for v in (1., -1., 1.)), 'cleared history is still used')
    else:
        base = (lambda x, k=0: ys[x]) if wrap != 'tuple' else (lambda x, k=0: (ys[x], 'more'))
        w = oscillation_checking_wrapper(base, prog, both, full=(wrap != 'plain wrapper'), good_err=good)
        if wrap != 'plain wrapper': w, chk = w
        for i in range(len(ys)):
            if want[i]: raises(OscillationError, w, i, k=0, what='oscillating history'); break
            got = w(i, k=0); ensure((got[0] if wrap == 'tuple' else got) == ys[i], 'value passed on')
    if not any(want): ctx.trivial()
@P.sub(rec(x=uf(-1e3, 1e3) | pick([0.]), step=uf(-2e3, 2e3), damping=uf(.05, 1.), factor=uf(.1, .9), n=ints(0, 4), maxstep=lf(.1, 1e3), aslist=pick([False, True])), n=400, thorough=4000)
def damping_functions(ctx, x, step, damping, factor, n, maxstep, aslist):
    wrap = (lambda v: [v, -v]) if aslist else (lambda v: v)
    first = lambda v: v[0] if aslist else v
    got = damping_maintain_sign(wrap(x), wrap(step), damping, factor)
    crosses = x + step < 0 if x >= 0 else x + step > 0
    close(first(got), x + damping*(-factor*x if crosses else step), 1e-14, 1e-12, 'sign keeping damping')
    if x != 0: ensure(first(got)*x >= 0, 'the sign changed')
    f = make_damp_initial(n, damping); g = make_max_step_initial(maxstep, n)
    for i in range(n + 3):
        close(first(f(wrap(x), wrap(step))), x + step*(damping if i < n else 1.), 1e-14, 1e-12, 'damped step %d of %d' % (i, n))
        close(first(g(wrap(x), wrap(step))), x + (max(-maxstep, min(maxstep, step)) if i < n else step), 1e-14, 1e-12, 'limited step %d of %d' % (i, n))
