"""C44: numerical derivatives, Jacobians and Hessians against analytic ones."""
from math import *
from fractions import Fraction as Fr
import numpy as np
import fluids.numerics as N
from vf.core import *

P = Prop('C44', rule='Sums of waves, exponentials and polynomials with known derivatives of every order, at generated points, steps, orders and limits; error bounded by the Taylor remainder of the scheme and rounding. Non-trivial: derivative above the error bound.',
         assumptions=['forward differences of the Jacobian and Hessian: step times the next derivatives, plus rounding', 'an interval between the limits at least one and a half times the stencil; where a limit intervenes the derivative is that of the shifted stencil\'s centre'])
EPS = 2.3e-16
class Smooth:
    """a*sin(w x + p) + b*exp(c x) + polynomial"""
    def __init__(self, a, w, p, b, c, q): self.__dict__.update(locals())
    def d(self, x, n): 
        poly = sum(q*factorial(i)/factorial(i - n)*x**(i - n) for i, q in enumerate(self.q) if i >= n)
        return self.a*self.w**n*sin(self.w*x + self.p + n*pi/2) + self.b*self.c**n*exp(self.c*x) + poly
    def bound(self, lo, hi, n):
        m = max(abs(lo), abs(hi))
        return abs(self.a*self.w**n) + abs(self.b*self.c**n)*max(exp(self.c*lo), exp(self.c*hi)) + sum(abs(q)*factorial(i)/factorial(i - n)*m**(i - n) for i, q in enumerate(self.q) if i >= n)
C = uf(-3, 3); WV = uf(-2, 2)
FUN = dict(a=C, w=WV, p=C, b=C, c=uf(-1, 1), q=flist(C, 0, 6))
def weights(n, order):
    """Exact central difference weights from the Lagrange basis."""
    ho = order >> 1; out = []
    for k in range(-ho, ho + 1):
        poly = [Fr(1)]
        for j in range(-ho, ho + 1):
            if j == k: continue
            new = [Fr(0)]*(len(poly) + 1)
            for i, v in enumerate(poly): new[i + 1] += v/(k - j); new[i] -= v*j/(k - j)
            poly = new
        out.append(poly[n]*factorial(n) if n < len(poly) else Fr(0))
    return out
WC = {}
def wts(n, order):
    if (n, order) not in WC: WC[n, order] = weights(n, order)
    return WC[n, order]
PAIR = [(1, o) for o in range(3, 20, 2)] + [(2, o) for o in range(3, 20, 2)] + [(3, 5), (3, 7), (3, 9), (3, 11), (4, 5), (4, 7), (4, 9), (5, 7), (5, 9), (6, 7), (6, 9), (7, 9)]
@P.sub(rec(no=pick(PAIR), hist=flist(pick(PAIR), 0, 2)), n=60, thorough=200)
def stencils(ctx, no, hist):
    for d, o in hist + [no]:
        w = N.central_diff_weights(o, d); ensure(len(w) == o, 'number of weights'); closes([float(v) for v in w], [float(v) for v in wts(d, o)], rtol=1e-12, atol=2e-14*float(max(abs(v) for v in wts(d, o))), what='weights of derivative %d with %d points' % (d, o))
    d, o = no; raises(ValueError, N.central_diff_weights, d, d, what='too few points'); raises(ValueError, N.central_diff_weights, 2*(d + 3), d, what='an even number of points')
    raises(ValueError, N.derivative, sin, 1., n=d, order=2*(d + 3), what='an even number of points'); raises(ValueError, N.derivative, sin, 1., n=d + (d + 1) % 2 + 2, order=d, what='too few points')

@P.sub(rec(no=pick(PAIR), x=uf(-5, 5) | pick([0., 1.]), h=lf(1e-6, .5), vec=pick([False, False, True]), args=pick([None, 'args', 'kwargs']), lim=pick([None, None, 'low', 'high', 'both', 'far']), u=unit, default=pick([False]*5 + [True]), **FUN), n=1200, thorough=20000)
def derivatives(ctx, no, x, h, vec, args, lim, u, default, a, w, p, b, c, q):
    f = Smooth(a, w, p, b, c, q); n, order = no; kw = {}
    if default: n, order, h = 1, 3, 1.
    else: kw = dict(n=n, order=order, dx=h)
    ho = order >> 1; R = ho*h
    if args == 'args': kw['args'] = (7.,)
    if args == 'kwargs': kw['kwargs'] = {'k': 7.}
    if lim in ('low', 'both'): kw['lower_limit'] = x - u*R
    if lim == 'high': kw['upper_limit'] = x + u*R
    if lim == 'both': kw['upper_limit'] = x - u*R + 3.01*R
    if lim == 'far': kw['lower_limit'], kw['upper_limit'] = x - R*1.01, x + R*1.01
    xs = []
    def g(t, k=0.):
        if (k == 7.) != (args is not None): fail('arguments not passed on')
        xs.append(t); return [f.d(t, 0), 2*f.d(t, 0), t] if vec else f.d(t, 0)
    got = N.derivative(g, x, scalar=not vec, **kw)
    lo, hi = kw.get('lower_limit', -inf), kw.get('upper_limit', inf); slack = 1e-14*(abs(x) + R)
    ensure(all(lo - slack <= t <= hi + slack for t in xs), 'evaluated at %r and %r, limits %r and %r' % (min(xs), max(xs), lo, hi)); ensure(len(xs) <= order, '%d evaluations' % len(xs))
    mid = (max(xs) + min(xs))/2 if len(xs) > 1 else xs[0]
    if lo + slack <= x - R and x + R <= hi - slack: ensure(abs(mid - x) <= slack, 'stencil moved without need'); mid = x
    ensure(abs(mid - x) <= R + slack, 'stencil moved from %r to %r' % (x, mid))
    W = wts(n, order); s = order if sum(v*k**order for v, k in zip(W, range(-ho, ho + 1))) else order + 1
    sw = float(sum(abs(v) for v in W)); mm = float(sum(abs(v)*abs(k)**s for v, k in zip(W, range(-ho, ho + 1))))
    M0, M1 = f.bound(min(xs), max(xs), 0), f.bound(min(xs), max(xs), 1)
    tol = mm/factorial(s)*h**(s - n)*f.bound(mid - R, mid + R, s) + 6*EPS*sw*(M0 + (abs(x) + R)*M1)/h**n
    want = f.d(mid, n)
    if vec:
        ensure(isinstance(got, list) and len(got) == 3, 'vector result'); 
        for v, z, t in ((got[0], want, tol), (got[1], 2*want, 2*tol), (got[2], float(n == 1), 6*EPS*sw*(abs(x) + R)/h**n)): close(v, z, rtol=1e-12, atol=t*1.01 + 1e-14, what='derivative %d, %d points' % (n, order))
    else: close(got, want, rtol=1e-12, atol=tol*1.01, what='derivative %d, %d points' % (n, order))
    if abs(want) < 10*tol: ctx.trivial()
    if len(q) and not a and not b: ctx.label('polynomial')

class Field:
    """sum of a smooth function of each variable and of pairwise products"""
    def __init__(self, n, seed): 
        r = np.random.RandomState(seed % 2**32); self.n = n; self.l = r.uniform(-2, 2, n); self.M = r.uniform(-1, 1, (n, n)); self.M = (self.M + self.M.T)/2; self.w = r.uniform(.3, 1.5, n); self.p = r.uniform(-3, 3, n); self.s = r.uniform(-2, 2, n); self.k = r.uniform(-3, 3)
    def f(self, x): x = np.asarray(x, float); return float(self.k + self.l @ x + x @ self.M @ x/2 + np.sum(self.s*np.sin(self.w*x + self.p)))
    def g(self, x): x = np.asarray(x, float); return self.l + self.M @ x + self.s*self.w*np.cos(self.w*x + self.p)
    def h(self, x): x = np.asarray(x, float); return self.M - np.diag(self.s*self.w**2*np.sin(self.w*x + self.p))
    def size(self, x): x = np.abs(np.asarray(x, float)); return abs(self.k) + np.abs(self.l) @ x + x @ np.abs(self.M) @ x + np.sum(np.abs(self.s)) + np.sum((np.abs(self.l) + np.abs(self.M) @ x + np.abs(self.s))*(x + 1e-3))
@P.sub(rec(n=ints(1, 5), m=ints(1, 4), seed=ints(0, 10**8), x=flist(uf(-3, 3) | pick([0., 1., -2.]), 5, 5), what=pick(['gradient', 'jacobian', 'hessian', 'hessians']), pert=pick([None, 1e-7, 1e-6, 1e-5, 1e-4]), zo=lf(1e-7, 1e-4), arr=pick(['list', 'array']), out=pick(['list', 'array', 'tuple']), base=pick([False, True]), args=pick([None, 'args', 'kwargs']), full=pick([True, False])), n=900, thorough=15000)
def several_variables(ctx, n, m, seed, x, what, pert, zo, arr, out, base, args, full):
    x = x[:n]; fs = [Field(n, seed + i) for i in range(m)]; x0 = np.array(x) if arr == 'array' else list(x); kw = {}
    hs = what.startswith('hess'); vec = what in ('jacobian', 'hessians')
    if hs and pert is None: pert = 1e-4
    if hs: pert = max(pert, 1e-5)
    if hs and zo < 1e-5: zo = 1e-5
    if pert is not None: kw['perturbation'] = pert
    kw['zero_offset'] = zo
    conv = {'list': list, 'array': np.array, 'tuple': tuple}[out]; calls = []
    def F(v, k=0):
        if (k == 5) != (args is not None): fail('arguments not passed on')
        calls.append(list(v)); return conv([z.f(v) for z in fs]) if vec else fs[0].f(v)
    if args == 'args': kw['args'] = (5,)
    if args == 'kwargs': kw['k'] = 5
    if base: kw['base'] = F(list(x), *([5] if args else [])); calls.clear(); b0 = list(kw['base']) if vec else kw['base']
    kw['scalar'] = not vec
    if hs: kw['full'] = full
    got = (N.hessian if hs else N.jacobian)(F, x0, **kw)
    ensure(list(x0) == x, 'evaluation point modified')
    if base and vec: ensure(list(kw['base']) == b0, 'base modified')
    d = [abs(v)*(pert or 1e-9) or zo for v in x]; dm = max(d)
    ensure(all(all(abs(a - b) <= (2.1 if hs else 1.1)*dd + 1e-14*abs(b) for a, b, dd in zip(c, x, d)) for c in calls), 'evaluated away from the point')
    if not hs: ensure(len(calls) == n + (not base), '%d evaluations' % len(calls))
    else: ensure(len(calls) <= n*n//2 + 3*n//2 + 2, '%d evaluations' % len(calls))
    if not hs:
        rows = got if vec else [got]; ensure(len(rows) == (m if vec else 1), 'shape'); 
        for r, z in zip(rows, fs):
            ensure(isinstance(r, list) and len(r) == n, 'shape'); g = z.g(x)
            for i in range(n):
                tol = 2*d[i]*(abs(z.M[i, i]) + abs(z.s[i])*z.w[i]**2) + 8*EPS*z.size(x)*n/d[i] + abs(g[i])*4*EPS*abs(x[i])/d[i]
                close(float(r[i]), float(g[i]), rtol=1e-12, atol=tol, what='derivative with respect to variable %d' % i)
    else:
        ensure(len(got) == n and all(len(r) == (n if full else i + 1) for i, r in enumerate(got)), 'shape')
        for k, z in enumerate(fs if vec else fs[:1]):
            H = z.h(x)
            for i in range(n):
                for j in range(n if full else i + 1):
                    v = got[i][j][k] if vec else got[i][j]
                    tol = (3*d[i]*abs(z.s[i])*z.w[i]**3 if i == j else 0) + 12*EPS*z.size(x)*n/(d[i]*d[j])
                    close(float(v), float(H[i, j]), rtol=1e-12, atol=tol, what='second derivative %d %d' % (i, j))
                    if full: ensure(got[i][j] == got[j][i], 'not symmetric')
